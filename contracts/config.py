"""What the daemon makes of its configuration (C19, C21)."""
from .base import *  # noqa
from . import base

IS, SS, BS = z3.IntSort(), z3.StringSort(), z3.BoolSort()
TConf, TJC, TTask, TLoop, TDir, TSub, TEnt, TSem = [TOpq(x) for x in ("Config", "JobConf", "Task", "Loop", "BaseDir", "SubDir", "Entry", "Semaphore")]
TJobs, TDead, TJCs, TEnts, TSems = TDict(TStr, R("Job")), TDict(TStr, R("Repository")), TDict(TStr, TJC), TList(TEnt), TDict(TStr, TSem)
JOBS = z3.Function("configured_jobs", TConf.sort(), TJCs.sort())
SUB = z3.Function("sub_dir", TDir.sort(), SS, TSub.sort())
NAME, DIR = z3.Function("entry_name", TEnt.sort(), SS), z3.Function("entry_is_dir", TEnt.sort(), BS)
INVALID = z3.Function("no_repository", TSub.sort(), BS)
LIMIT = z3.Function("limit_of", TSem.sort(), IS)
OC, OT = TOpt(TJC), TOpt(TTask)
DAE, JOB = "daemon:BackyDaemon.", "daemon.scheduler:Job."


def setup(u):
    m = base.setup(u)
    o = m.opq_methods
    m.fields.update({("BackyDaemon", "config"): TConf, ("BackyDaemon", "jobs"): TJobs, ("BackyDaemon", "dead_repositories"): TDead, ("BackyDaemon", "base_dir"): TDir, ("BackyDaemon", "loop"): TOpt(TLoop),
                     ("BackyDaemon", "backup_semaphores"): TSems, ("BackyDaemon", "worker_limit"): TInt, ("Job", "name"): TStr, ("Job", "daemon"): R("BackyDaemon"), ("Job", "path"): TSub, ("Job", "status"): TStr,
                     ("Job", "last_config"): OC, ("Job", "_task"): OT, ("Repository", "dir"): TSub})
    m.ghosts["entries"] = TEnts
    me = lambda c: c.a("self")
    o[TConf.name, "__getitem__"] = lambda it, v, a, k: it.decode(JOBS(v.t), TJCs) if a[0] == "jobs" else Opaque("setting")
    o[TDir.name, "__truediv__"] = lambda it, v, a, k: Sym(TSub, SUB(v.t, it.encode(a[0], TStr)))
    o[TSub.name, "__truediv__"] = lambda it, v, a, k: Opaque("path")

    def create_task(it, v, a, k):
        return Sym(TTask, it.fresh("task", TTask.sort()))

    o[TLoop.name, "create_task"] = create_task
    o[TTask.name, "cancel"] = lambda it, v, a, k: None
    m.ext["asyncio.Event"] = lambda it, a, k: Opaque("event")
    o[TSem.name, "_bound_value"] = property(lambda it, v: Sym(TInt, LIMIT(v.t)))

    def sem(it, a, k):
        s = it.fresh("semaphore", TSem.sort())
        it.assume(LIMIT(s) == it.encode(a[0], TInt))
        return Sym(TSem, s)

    m.ext["asyncio.BoundedSemaphore"] = sem

    def scandir(it, a, k):
        if it.choose(2, "the directory cannot be read"):
            raise it.exc("OSError")
        t = it.fresh("entries", TEnts.sort())
        it.assume(TEnts.len(t) >= 0)
        it.set_ghost("entries", t)
        return it.decode(t, TEnts)

    m.ext["os.scandir"] = scandir
    o[TEnt.name, "name"] = property(lambda it, v: Sym(TStr, NAME(v.t)))
    o[TEnt.name, "is_dir"] = lambda it, v, a, k: Sym(TBool, DIR(v.t)) if it.force(k.get("follow_symlinks", True)) is False else Sym(TBool, it.fresh("is_dir", BS))

    def repository(it, a, k):
        d = it.encode(a[0], TSub)
        if it.branch(INVALID(d)):
            raise it.exc("Exception")
        r = it.alloc("Repository")
        it.heap_set("Repository", "dir", r.ref, d)
        return r

    m.stubs["daemon:Repository"] = repository
    m.stubs["daemon:Schedule"] = lambda it, a, k: Opaque("schedule")
    u.contract(JOB + "configure", [("self", R("Job")), ("config", TJC)], trusted=True, modifies=["alloc"] + [("heap", "Job", "last_config")],
               ensures=[("the job has this configuration", lambda c: c.post.arr("Job", "last_config") == z3.Store(c.pre.arr("Job", "last_config"), me(c), OC.some(c.a("config"))))],
               raises=[("Exception", None, [])])

    conf = lambda v, c: JOBS(v.f("BackyDaemon", "config", me(c)))
    jobs = lambda v, c: v.f("BackyDaemon", "jobs", me(c))
    dead = lambda v, c: v.f("BackyDaemon", "dead_repositories", me(c))
    lc = lambda v, j: v.f("Job", "last_config", j)
    task = lambda v, j: v.f("Job", "_task", j)
    has = lambda d, x: S(TJobs.dom(d), x)
    at = lambda d, x: S(TJobs.val(d), x)

    def well(c, v):
        """jobs by name, each an object of its own; those with a configuration run"""
        x, y = bound("x", SS), bound("y", SS)
        d = jobs(v, c)
        return And(FA([x], Imp(has(d, x), And(at(d, x) >= 0, at(d, x) < v.alloc, v.f("Job", "name", at(d, x)) == x, v.f("Job", "daemon", at(d, x)) == me(c), Not(OC.is_none(lc(v, at(d, x)))) == Not(OT.is_none(task(v, at(d, x)))))), [has(d, x), at(d, x)]))

    def runs(c, v, x):
        j = at(jobs(v, c), x)
        return And(has(jobs(v, c), x), lc(v, j) == OC.some(S(TJCs.val(conf(v, c)), x)), Not(OT.is_none(task(v, j))))

    def all_run(c):
        x = bound("x", SS)
        return FA([x], Imp(S(TJCs.dom(conf(c.pre, c)), x), runs(c, c.post, x)), [has(jobs(c.post, c), x), S(TJCs.dom(conf(c.pre, c)), x)])

    def only(c):
        x = bound("x", SS)
        return FA([x], has(jobs(c.post, c), x) == S(TJCs.dom(conf(c.pre, c)), x), [has(jobs(c.post, c), x)])

    def apart(c, v):
        x = bound("x", SS)
        d = dead(v, c)
        return FA([x], Imp(S(TDead.dom(d), x), And(Not(has(jobs(v, c), x)), S(TDead.val(d), x) >= 0, S(TDead.val(d), x) < v.alloc, v.f("Repository", "dir", S(TDead.val(d), x)) == SUB(v.f("BackyDaemon", "base_dir", me(c)), x))), [S(TDead.dom(d), x)])

    def found(c, v, n):
        """directories which belong to no job have been found"""
        i = bound("i", IS)
        t = v.g("entries")
        e = S(TEnts.arr(t), i)
        return FA([i], Imp(And(0 <= i, i < n, DIR(e), Not(has(jobs(v, c), NAME(e))), Not(INVALID(SUB(v.f("BackyDaemon", "base_dir", me(c)), NAME(e))))), S(TDead.dom(dead(v, c)), NAME(e))), [e])

    def stopped(c, v):
        """jobs which are no longer configured do not run"""
        x = bound("x", SS)
        j = at(jobs(c.pre, c), x)
        return FA([x], Imp(And(has(jobs(c.pre, c), x), Not(has(jobs(v, c), x))), OT.is_none(task(v, j))), [has(jobs(c.pre, c), x)])

    def kept(c, v):
        x = bound("x", SS)
        return FA([x], Imp(has(jobs(c.pre, c), x), And(has(jobs(v, c), x), at(jobs(v, c), x) == at(jobs(c.pre, c), x))), [has(jobs(c.pre, c), x)])

    def adding(L):
        c, v = L.vc.ctx, L.now
        x, i = bound("x", SS), bound("i", IS)
        d, cf = jobs(v, c), conf(v, c)
        nm = lambda i: L.seq0.get(i)[0].t if hasattr(L.seq0.get(i)[0], "t") else L.seq0.get(i)[0]
        return [("jobs by name", well(c, v)), ("former jobs are kept", kept(c, v)), ("those visited run", FA([i], Imp(And(0 <= i, i < L.k), runs(c, v, nm(i))), [nm(i)])), ("configuration", v.f("BackyDaemon", "config", me(c)) == c.pre.f("BackyDaemon", "config", me(c)))]

    def removing(L):
        c, v = L.vc.ctx, L.now
        x, i = bound("x", SS), bound("i", IS)
        d, cf = jobs(v, c), conf(v, c)
        nm = lambda i: L.seq0.get(i)[0].t if hasattr(L.seq0.get(i)[0], "t") else L.seq0.get(i)[0]
        return [("jobs by name", well(c, v)), ("no longer configured ones are stopped", stopped(c, v)), ("former jobs are kept", FA([x], Imp(And(has(jobs(c.pre, c), x), has(d, x)), at(d, x) == at(jobs(c.pre, c), x)), [has(jobs(c.pre, c), x), has(d, x)])), ("configured ones run", FA([x], Imp(S(TJCs.dom(cf), x), runs(c, v, x)), [has(d, x), S(TJCs.dom(cf), x)])),
                ("those visited have a configuration", FA([i], Imp(And(0 <= i, i < L.k), Or(Not(has(d, nm(i))), S(TJCs.dom(cf), nm(i)))), [nm(i)])),
                ("none is added", FA([x], Imp(has(d, x), has(jobs(L.entry, c), x)), [has(d, x)])), ("unvisited ones are still there", FA([i], Imp(And(L.k <= i, i < L.seq0.n), And(has(d, nm(i)), at(d, nm(i)) == at(jobs(L.entry, c), nm(i)))), [nm(i)])),
                ("configuration", v.f("BackyDaemon", "config", me(c)) == c.pre.f("BackyDaemon", "config", me(c)))]

    def finding(L):
        c, v = L.vc.ctx, L.now
        return [("dead ones are no jobs", apart(c, v)), ("all are found", found(c, v, L.k)), ("jobs stay", And(jobs(v, c) == jobs(L.entry, c), v.f("BackyDaemon", "config", me(c)) == c.pre.f("BackyDaemon", "config", me(c))))]

    def seen(v, c):
        s = v.f("BackyDaemon", "backup_semaphores", me(c))
        return And(S(TSems.dom(s), z3.StringVal("slow")), S(TSems.dom(s), z3.StringVal("fast")))

    u.contract(DAE + "_apply_config", [("self", R("BackyDaemon"))],
               requires=[("there is a loop", lambda c: Not(TOpt(TLoop).is_none(c.pre.f("BackyDaemon", "loop", me(c))))), ("jobs by name", lambda c: well(c, c.pre)), ("slots for both or none", lambda c: Or(seen(c.pre, c), TSems.dom(c.pre.f("BackyDaemon", "backup_semaphores", me(c))) == z3.K(SS, z3.BoolVal(False))))],
               modifies=["alloc"] + [("heap", "Job", x) for x in ("name", "daemon", "path", "status", "last_config", "_task")] + [("heap", "BackyDaemon", x) for x in ("jobs", "dead_repositories", "backup_semaphores")] + [("heap", "Repository", "dir"), ("ghost", "entries")],
               ensures=[("the jobs are those configured", only), ("every configured job runs with its configuration", all_run), ("no backup is both dead and of a job; dead ones are below the base directory", lambda c: apart(c, c.post)), ("jobs by name", lambda c: well(c, c.post)),
                        ("slots for fast and slow backups, as many as configured", lambda c: And(seen(c.post, c), LIMIT(S(TSems.val(c.post.f("BackyDaemon", "backup_semaphores", me(c))), z3.StringVal("slow"))) == c.pre.f("BackyDaemon", "worker_limit", me(c)))),
                        ("jobs which are no longer configured are stopped", lambda c: stopped(c, c.post)), ("all other directories are dead backups", lambda c: found(c, c.post, TEnts.len(c.post.g("entries"))))],
               raises=[("AssertionError", lambda c: z3.BoolVal(False), []), ("KeyError", lambda c: z3.BoolVal(False), []), ("OSError", None, []), ("Exception", None, [])], loops={0: adding, 1: removing, 2: finding})
    u.ns = {**getattr(u, "ns", {}), **locals()}
    return m
