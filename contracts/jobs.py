"""The loop of a backup job (C21, C23).

"stage" counts the steps of a run; every step requires its predecessor."""
from types import SimpleNamespace

from .base import *  # noqa
from . import base, world

IS, RS, SS = z3.IntSort(), z3.RealSort(), z3.StringSort()
TSem = TOpq("Semaphore")
TSems = TDict(TStr, TSem)
POW2 = z3.Function("pow2", IS, IS)
SCH = "daemon.scheduler:Job."
STEP = {"woken": 0, "cleaned": 1, "saved": 2, "scanned": 3, "cleaned again": 4, "pulled": 5, "expired": 6, "pushed": 7, "collected": 8, "done": 9,
        "leader": 10, "leader pulled": 11, "leader done": 12, "failed": 100, "start": -1}


def setup(u):
    m = base.setup(u)
    m.fields.update({("Job", "name"): TStr, ("Job", "source"): R("AsyncCmdLineSource"), ("Job", "daemon"): R("BackyDaemon"), ("Job", "status"): TStr, ("Job", "next_time"): TOpt(TDate),
                     ("Job", "next_tags"): TOpt(SetStr), ("Job", "errors"): TInt, ("Job", "backoff"): TInt, ("Job", "taskid"): TStr,
                     ("AsyncCmdLineSource", "repository"): R("Repository"), ("CmdLineSource", "repository"): R("Repository"), ("BackyDaemon", "backup_semaphores"): TSems})
    m.ghosts.update({"stage": TInt, "failures": TInt, "begun": TReal, "planned": TReal})
    me = lambda c: c.a("self")
    st = lambda v: v.g("stage")
    n = lambda x: z3.IntVal(STEP[x])
    repo = lambda v, j: v.f("AsyncCmdLineSource", "repository", v.f("Job", "source", j))

    # ------------------------------------------------------- the steps
    def step(qual, params, befores, ret=TUnit, mods=(), ens=(), raises=("Exception", "CancelledError")):
        """one of the steps: (required stage, following stage)"""
        ok = lambda c: Or(*[st(c.pre) == n(a) for a, _ in befores])
        nxt = lambda c: And(*[Imp(st(c.pre) == n(a), st(c.post) == n(b)) for a, b in befores])
        bad = ("the run has failed", lambda c: st(c.post) == n("failed"))
        return u.contract(qual, params, ret=ret, trusted=True, requires=[(f"{qual.split(':')[-1]} follows: " + " or ".join(a for a, _ in befores), ok)], modifies=[("ghost", "stage")] + list(mods),
                          ensures=[("next stage", nxt)] + list(ens), raises=[(r, None, [bad]) for r in raises])

    J = [("self", R("Job"))]
    HISTORY = [("heap", "Repository", "history"), ("heap", "Repository", "_by_uuid"), ("heap", "Revision", "tags"), ("heap", "Revision", "orig_tags"), ("heap", "Revision", "trust"), "alloc"]
    W = [("woken", "cleaned"), ("scanned", "cleaned again")]
    step("repository:Repository._clean", [("self", R("Repository"))], W, mods=HISTORY, raises=("Exception",))
    step("repository:Repository.scan", [("self", R("Repository"))], [("saved", "scanned")], mods=HISTORY, raises=("Exception",))
    step(SCH + "run_backup", J + [("tags", SetStr)], [("cleaned", "saved")], mods=HISTORY)
    step(SCH + "pull_metadata", J, [("cleaned again", "pulled"), ("leader", "leader pulled")], mods=HISTORY, ret=TInt)
    step(SCH + "run_expiry", J, [("pulled", "expired")], mods=HISTORY)
    step(SCH + "push_metadata", J, [("expired", "pushed")], mods=HISTORY, ret=TInt)
    step(SCH + "run_gc", J, [("pushed", "collected")])
    step(SCH + "run_callback", J, [("collected", "done"), ("leader pulled", "leader done")])
    u.contract(SCH + "_wait_for_leader", J + [("next_time", TDate)], ret=TBool, trusted=True, requires=[("before the backup", lambda c: st(c.pre) == n("woken")), ("the planned time", lambda c: wanted(c.pre, c.pre.g("failures"), c.a("next_time")))],
               modifies=[("ghost", "stage"), ("heap", "Job", "status"), ("ghost", "clock")], ensures=[("a leader has finished", lambda c: st(c.post) == z3.If(c.res, n("leader"), n("woken")))], raises=[("CancelledError", None, [])])
    u.contract("repository:Repository.connect", [("self", R("Repository"))], trusted=True, modifies=HISTORY + [("ghost", "begun")], ensures=[("a run begins", lambda c: c.post.g("begun") == c.post.g("clock"))],
               raises=[("OSError", None, [])])
    u.contract("schedule:Schedule.next", [("self", R("Schedule")), ("relative", TDate), ("spread", TInt), ("archive", R("Repository"))], ret=TTup(TDate, SetStr), trusted=True,
               modifies=[("ghost", "planned"), ("ghost", "clock")], ensures=[("the time of the schedule", lambda c: And(TTup(TDate, SetStr).get(c.res, 0) == c.post.g("planned"), c.post.g("clock") >= c.pre.g("clock")))])
    u.contract(SCH + "spread", J, ret=TInt, trusted=True)

    # ----------------------------------------------------------- the loop
    m2 = lambda e: z3.If(POW2(e) <= 360, POW2(e), 360) * 60

    def wanted(v, e, t):
        """the time a run is due after e failures"""
        b = z3.ToReal(m2(e))
        return And(e >= 0, Imp(e == 0, t == v.g("planned")), Imp(e > 0, And(v.g("begun") + b <= t, t <= v.g("clock") + b)))

    succeeded = lambda v: Or(*[st(v) == n(x) for x in ("start", "done", "leader done")])
    failing = lambda v: z3.If(succeeded(v), 0, v.g("failures") + 1)

    def count(ctx):
        it = ctx.it
        it.set_ghost("failures", z3.If(Or(*[it.get_ghost("stage") == n(x) for x in ("start", "done", "leader done")]), 0, it.get_ghost("failures") + 1))

    nt = lambda v, j: v.f("Job", "next_time", j)
    ot = TOpt(TDate)
    u.contract(SCH + "_wait_for_deadline", J, ret=TOpt(TBool), trusted=True,
               requires=[("the next run is due at the time of the schedule, after a failure after min(2^n, 360) minutes", lambda c: And(Not(ot.is_none(nt(c.pre, me(c)))), wanted(c.pre, failing(c.pre), ot.the(nt(c.pre, me(c))))))],
               modifies=[("ghost", "stage"), ("ghost", "clock"), ("heap", "Job", "status")], ensures=[("time has come", lambda c: And(st(c.post) == n("woken"), c.post.g("clock") >= c.pre.g("clock")))], raises=[("CancelledError", None, [])])

    def loop(L):
        c, v = L.vc.ctx, L.now
        e, b = v.f("Job", "errors", me(c)), v.f("Job", "backoff", me(c))
        return [("a run that went through its steps has not failed", Or(*[st(v) == n(x) for x in ("start", "done", "leader done", "failed")])), ("failures so far", And(v.g("failures") >= 0, e == failing(v))), ("time to wait", Imp(e > 0, b == m2(e)))]

    m.opq_methods[TSem.name, "__aenter__"] = lambda it, v, a, k: None
    m.opq_methods[TSem.name, "__aexit__"] = lambda it, v, a, k: None
    m.ext["inspect.iscoroutinefunction"] = lambda it, a, k: world.is_coro(a[0])
    m.stubs["utils:generate_taskid"] = lambda it, a, k: Sym(TStr, it.fresh("taskid", SS))
    m.stubs["utils:format_datetime_local"] = lambda it, a, k: (Sym(TStr, it.fresh("time", SS)), Sym(TStr, it.fresh("zone", SS)))
    u.contract(SCH + "run_forever", J, requires=[("nothing has been done", lambda c: And(st(c.pre) == n("start"), c.pre.g("failures") == 0)),
                                                 ("there are slots for fast and slow backups", lambda c: And(*[S(TSems.dom(c.pre.f("BackyDaemon", "backup_semaphores", c.pre.f("Job", "daemon", me(c)))), z3.StringVal(x)) for x in ("slow", "fast")]))],
               modifies=HISTORY + [("ghost", g) for g in ("stage", "failures", "begun", "planned", "clock")] + [("heap", "Job", f) for f in ("errors", "backoff", "taskid", "status", "next_time", "next_tags")],
               raises=[("CancelledError", None, []), ("OSError", None, [])], loops={0: loop}, ghost_before={SCH + "_wait_for_deadline": count}, allow_no_return=True)
    u.ns = {**getattr(u, "ns", {}), **locals()}
    return m
