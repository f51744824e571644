"""Commands and exit codes (C18, C23)."""
from types import SimpleNamespace

from .base import *  # noqa
from . import base, world

IS, SS, BS = z3.IntSort(), z3.StringSort(), z3.BoolSort()
CODE = z3.Function("code_of", IS, IS)  # what a command returns for a repository (or revision)
NOCODE = z3.Function("returns_no_code", IS, BS)
LRep = TList(R("Repository"))
TLStr = TList(TStr)
CMD = "cli:Command."


def setup(u):
    m = base.setup(u)
    m.fields.update({("Command", "source"): R("CmdLineSource"), ("Command", "jobs"): TOpt(TStr), ("CmdLineSource", "repository"): R("Repository"), ("Repository", "name"): TStr,
                     ("Repository", "path"): TOpq("Path"), ("Args", "revision"): TStr, ("Args", "func"): TStr, ("Args", "verbose"): TBool, ("Args", "taskid"): TStr, ("Source", "repository"): R("Repository")})
    m.ghosts.update({"rc": TInt, "done": TBool, "repos": LRep, "overdue": TReal, "found": LRev, "kind": TInt})
    me = lambda c: c.a("self")
    m.stubs["utils:generate_taskid"] = lambda it, a, k: Sym(TStr, it.fresh("taskid", SS))
    ab = lambda t: z3.If(t >= 0, t, -t)

    # --------------------------------------------------------- the source
    def run(it, a, k):
        if it.choose(2, "the command cannot be started"):
            raise it.exc("OSError")
        rc = it.fresh("returncode", IS)
        it.set_ghost("rc", rc)
        return Sym(TInt, rc)

    SRC = "source:CmdLineSource."
    m.methods["CmdLineSource", "run"] = run
    LR = ("OSError", None, [])
    for n, ps in (("backup", [("revision", R("Revision"))]), ("verify", [("revision", R("Revision"))]), ("gc", [])):
        u.contract(SRC + n, [("self", R("CmdLineSource"))] + ps, ret=TInt, modifies=[("ghost", "rc")], ensures=[("the code of the source command", lambda c: c.res == c.post.g("rc"))], raises=[LR])

    # ------------------------------------------------------------- verify
    m.ghosts["codes"] = TDict(R("Revision"), TInt)
    TC = m.ghosts["codes"]
    u.contract("repository:Repository.find_revisions", [("self", R("Repository")), ("spec", TStr)], ret=LRev, trusted=True, modifies=[("ghost", "found")], ensures=[("found", lambda c: And(c.res == c.post.g("found"), LRev.len(c.res) >= 0))],
               raises=[("KeyError", None, []), ("ValueError", None, [])])

    def noted(ctx):
        it = ctx.it
        t, r = it.get_ghost("codes"), ctx.a("revision")
        old = z3.If(S(TC.dom(t), r), S(TC.val(t), r), 0)
        it.set_ghost("codes", TC.mk(z3.Store(TC.dom(t), r, True), z3.Store(TC.val(t), r, z3.If(ab(old) > ab(it.get_ghost("rc")), old, it.get_ghost("rc")))))

    def ver_inv(L):
        c, v = L.vc.ctx, L.now
        t, f, ret = v.g("codes"), v.g("found"), L.local("ret", TInt)
        at = lambda k: S(LRev.arr(f), k)
        q = bound("q", IS)
        return [("the command has run for those passed", forall_int(lambda k: Imp(And(0 <= k, k < L.k), S(TC.dom(t), at(k))), pats=lambda k: [at(k)])),
                ("no code is lost", FA([q], Imp(S(TC.dom(t), q), ab(S(TC.val(t), q)) <= ab(ret)), [S(TC.dom(t), q)])), ("what is found", f == L.entry.g("found"))]

    def ver_post(c):
        t, f = c.post.g("codes"), c.post.g("found")
        return forall_int(lambda k: Imp(And(0 <= k, k < LRev.len(f)), And(S(TC.dom(t), S(LRev.arr(f), k)), ab(S(TC.val(t), S(LRev.arr(f), k))) <= ab(c.res))), pats=lambda k: [S(LRev.arr(f), k)])

    u.contract(CMD + "verify", [("self", R("Command")), ("revision", TStr)], ret=TInt, requires=[("no command has run", lambda c: TC.dom(c.pre.g("codes")) == z3.K(IS, z3.BoolVal(False)))],
               modifies=[("ghost", "rc"), ("ghost", "codes"), ("ghost", "found")], ensures=[("all selected revisions are verified, and no code is lost", ver_post)],
               raises=[LR, ("KeyError", None, []), ("ValueError", None, [])], loops={0: ver_inv}, ghost_code={SRC + "verify": noted})
    # -------------------------------------------------------------- check
    LATE = z3.Function("is_overdue", IS, BS)
    u.contract("repository:Repository.sla_overdue", [("self", R("Repository"))], ret=TReal, trusted=True, ensures=[("late", lambda c: And(c.res >= 0, (c.res > 0) == LATE(me(c))))])
    TIDS = TList(TStr)

    def code(c):
        r = c.a("repo")
        return c.res == z3.If(LATE(r), 2, z3.If(TIDS.len(c.pre.f("Repository", "report_ids", r)) > 0, 1, 0))

    u.contract(CMD + "check", [("self", R("Command")), ("repo", R("Repository"))], ret=TInt, ensures=[("2 if overdue, otherwise 1 if there are reports, otherwise 0", code)], loops={0: lambda L: []})
    # ------------------------------------------------------------ tags, gc
    u.contract("repository:Repository.tags", [("self", R("Repository")), ("action", TStr), ("revision", TStr), ("tags", SetStr), ("expect", TOpt(SetStr)), ("autoremove", TBool), ("force", TBool)], ret=TBool, trusted=True,
               modifies=[("ghost", "done")], ensures=[("whether it was done", lambda c: c.post.g("done") == c.res)], raises=[("KeyError", None, []), ("ValueError", None, []), ("RuntimeError", None, []), ("BlockingIOError", None, [])])
    u.contract(CMD + "tags", [("self", R("Command")), ("repo", R("Repository")), ("tag_action", TStr), ("autoremove", TBool), ("expect", TOpt(TStr)), ("revision", TStr), ("tags", TStr), ("force", TBool)], ret=TInt,
               modifies=[("ghost", "done")], ensures=[("0 exactly if the edit was made", lambda c: (c.res == 0) == c.post.g("done"))],
               raises=[("KeyError", None, []), ("ValueError", None, []), ("RuntimeError", None, []), ("BlockingIOError", None, [])])
    u.contract("repository:Repository.expire", [("self", R("Repository"))], trusted=True, raises=[("BlockingIOError", None, []), LR])
    u.contract(CMD + "gc", [("self", R("Command")), ("repo", R("Repository")), ("expire", TBool), ("local", TBool)], ret=TInt, modifies=[("ghost", "rc")],
               ensures=[("the code of the source command", lambda c: c.res == c.post.g("rc"))], raises=[("AssertionError", None, []), ("BlockingIOError", None, []), LR])

    # ------------------------------------------------------------ __call__
    # The method looked up by name takes one repository, all of them, or none.
    sig, par = NTClass("Signature", ["parameters"]), NTClass("Parameter", ["annotation"])
    KIND = {"repo": 0, "repos": 1, "none": 2}
    TOI = TOpt(TInt)
    kind = [None]

    def signature(it, a, k):
        ps = {"repo": {"repo": NTVal(par, [ClassVal(it.model.repo_class("Repository"))])}, "repos": {"repos": NTVal(par, [it.global_name(it.repo.module("backy.cli"), "List")])}, "none": {}}[kind[0]]
        return NTVal(sig, [it.new_box(HD(ps))])

    def command(it, a, k):
        """any command: returns a number or something else, or fails"""
        if it.choose(2, "the command fails"):
            it.set_ghost("done", z3.BoolVal(False))
            raise it.exc("Exception")
        r = k["repo"].ref if "repo" in k else z3.IntVal(-1)
        res = lambda: it.decode(z3.If(NOCODE(r), TOI.none(), TOI.some(CODE(r))), TOI)
        return CoroVal(res) if it.choose(2, "a coroutine function") else res()

    m.builtins["getattr"] = lambda it, a, k: Builtin("command", command)
    m.ext.update({"inspect.signature": signature, "inspect.iscoroutinefunction": lambda it, a, k: world.is_coro(a[0]),
                  "asyncio.iscoroutine": lambda it, a, k: isinstance(a[0], CoroVal)})
    u.contract(CMD + "get_repos", [("self", R("Command"))], ret=LRep, trusted=True, modifies=[("ghost", "repos"), ("ghost", "done")],
               ensures=[("the selected ones", lambda c: And(c.res == c.post.g("repos"), LRep.len(c.res) > 0, c.post.g("done") == c.pre.g("done")))], raises=[("Exception", None, [("failed", lambda c: Not(c.post.g("done")))])])
    eff = lambda r: z3.If(NOCODE(r), 0, CODE(r))

    def call_inv(L):
        f, ret = L.now.g("repos"), L.local("ret", TInt)
        at = lambda k: S(LRep.arr(f), k)
        return [("no code is lost", forall_int(lambda k: Imp(And(0 <= k, k < L.k), ab(eff(at(k))) <= ab(ret)), pats=lambda k: [at(k)])), ("nothing has failed", L.now.g("done")),
                ("a code of one of them", Or(ret == 0, exists_int(lambda k: And(0 <= k, k < L.k, eff(at(k)) == ret))))]

    def call_post(c):
        f = c.post.g("repos")
        at = lambda k: S(LRep.arr(f), k)
        ok = c.post.g("done")
        if kind[0] != "repo":
            return c.res == z3.If(ok, eff(z3.IntVal(-1)), 1)
        return And(Imp(ok, And(forall_int(lambda k: Imp(And(0 <= k, k < LRep.len(f)), ab(eff(at(k))) <= ab(c.res)), pats=lambda k: [at(k)]),
                               Or(c.res == 0, exists_int(lambda k: And(0 <= k, k < LRep.len(f), eff(at(k)) == c.res))))), Imp(Not(ok), c.res == 1))

    def of_kind(n):
        def before(it, ctx, vals):
            kind[0] = n
        return before

    for n, w in (("repo", "a command for each repository"), ("repos", "a command for all repositories"), ("none", "a command without repositories")):
        u.contract(CMD + "__call__" + ("" if n == "repo" else "#" + n), [("self", R("Command")), ("cmdname", TStr), ("kwargs", lambda it: it.new_box(HD({})))], ret=TInt, before=of_kind(n),
                   requires=[("nothing has failed", lambda c: c.pre.g("done")), ("--jobs is not given", lambda c: Imp(z3.BoolVal(kind[0] == "none"), TOpt(TStr).is_none(c.pre.f("Command", "jobs", me(c)))))],
                   modifies=[("ghost", "repos"), ("ghost", "done")], ensures=[("the code furthest from 0, and 1 after any error", call_post)], loops={0: call_inv}, locals={"ret": TInt})
    words = z3.Function("words", SS, SS, TLStr.sort())
    STRIP = z3.Function("strip", SS, SS)
    m.str_methods["split"] = lambda it, v, a, k: split(it, v, a)
    m.str_methods["strip"] = lambda it, v, a, k: Sym(TStr, STRIP(v.t))

    def split(it, v, a):
        t = words(v.t, it.encode(a[0], TStr))
        it.assume(TLStr.len(t) >= 1)
        return it.decode(t, TLStr)
    # ------------------------------------------------- the source command
    # Reading arguments, the configuration and setting up logging is left open.
    TP = TOpq("Path")
    m.opq_methods[TP.name, "__truediv__"] = lambda it, v, a, k: Opaque("path")
    m.stubs["logging:init_logging"] = lambda it, a, k: maybe(it)
    m.ext["structlog.stdlib.get_logger"] = lambda it, a, k: Opaque("log")
    m.stubs["source:Source.restore_type"] = Opaque("restore_type")
    m.stubs["source:SourceType"] = Opaque("Source")
    m.ghosts["given"] = TBool

    def maybe(it, name="Exception"):
        if it.choose(2, "fails"):
            raise it.exc(name)

    def parser(it, a, k):
        return NTVal(NTClass("Parser", ["parse_args", "print_usage"]), [Builtin("parse_args", parse), Builtin("print_usage", lambda it, a, k: None)])

    def parse(it, a, k):
        d = {"verbose": Sym(TBool, it.fresh("verbose", BS)), "workdir": Sym(TP, it.fresh("workdir", TP.sort())), "taskid": Sym(TStr, it.fresh("taskid", SS)),
             "_get_kwargs": Builtin("_get_kwargs", lambda it, a, k: it.new_box(HL([])))}
        given = it.choose(2, "a command is given") == 1
        it.set_ghost("given", z3.BoolVal(given))
        if given:
            f = it.fresh("func", SS)
            it.assume(f != z3.StringVal(""))
            it.set_ghost("command", f)
            d.update(func=Sym(TStr, f), revision=Sym(TStr, it.fresh("revision", SS)))
        return NTVal(NTClass("Namespace", list(d)), list(d.values()))

    m.ghosts["command"] = TStr
    m.stubs["source:Source.create_argparse"] = parser

    def load(it, a, k):
        maybe(it)
        return Obj("CmdLineSource", it.fresh("source", IS))

    def create(it, a, k):
        maybe(it)
        o = Obj("Source", it.fresh("source", IS))
        return o

    m.stubs["source:CmdLineSource.load"] = load
    m.stubs["source:CmdLineSource.create_source"] = create
    m.ghosts["opdone"] = TStr  # the operation which has succeeded

    def operation(n):
        def f(it, a, k):
            if it.choose(2, n + " fails"):
                raise it.exc("OSError") if it.choose(2, "kind") else it.exc("Exception")
            if n == "backup":
                ok = it.fresh("success", BS)
                it.set_ghost("opdone", z3.If(ok, z3.StringVal(n), it.get_ghost("opdone")))
                return it.mkbool(ok)
            it.set_ghost("opdone", z3.StringVal(n))
            return it.mkbool(it.fresh("result", BS)) if n == "verify" else None
        return f

    for n in ("backup", "restore", "gc", "verify"):
        m.methods["Source", n] = operation(n)
    u.contract("repository:Repository.find_by_uuid", [("self", R("Repository")), ("spec", TStr)], ret=R("Revision"), trusted=True, raises=[("IndexError", None, [])])

    def main_post(c):
        ok = c.post.g("opdone") == c.post.g("command")
        return And(Imp(Not(c.post.g("given")), c.res == 0), Imp(c.post.g("given"), c.res == z3.If(ok, 0, 1)))

    u.contract("source:Source.main", [], ret=TInt, requires=[("nothing is done", lambda c: And(c.pre.g("opdone") == z3.StringVal("")))], raises=[("SystemExit", None, []), ("Exception", None, [("nothing was done", lambda c: c.post.g("opdone") == z3.StringVal(""))])],
               modifies=[("ghost", g) for g in ("opdone", "given", "command")], before=lambda it, ctx, vals: None,
               ensures=[("0 exactly if the operation asked for has succeeded", main_post)])

    # ---------------------------------------------------- restore, backup
    TRA, TRT, TApi = TOpq("RestoreArgs"), TOpq("RestoreType"), TOpq("ApiClient")
    m.opq_methods[TRA.name, "to_cmdargs"] = lambda it, v, a, k: it.new_box(HL([Sym(TStr, it.fresh("arg", SS))]))
    m.opq_methods[TRT.name, "from_args"] = lambda it, v, a, k: Sym(TRA, it.fresh("args", TRA.sort()))
    u.contract(SRC + "restore_type", [("self", R("CmdLineSource"))], ret=TRT, trusted=True, raises=[("KeyError", None, [])])
    u.contract(SRC + "restore", [("self", R("CmdLineSource")), ("revision", R("Revision")), ("args", TRA)], ret=TInt, modifies=[("ghost", "rc")], ensures=[("the code of the source command", lambda c: c.res == c.post.g("rc"))], raises=[LR])
    SEL = [("KeyError", None, []), ("ValueError", None, [])]
    u.contract("repository:Repository.find", [("self", R("Repository")), ("spec", TStr)], ret=R("Revision"), trusted=True, raises=SEL)
    u.contract(CMD + "restore", [("self", R("Command")), ("revision", TStr), ("restore_args", lambda it: it.new_box(HD({})))], ret=TInt, modifies=[("ghost", "rc")],
               ensures=[("the code of the source command", lambda c: c.res == c.post.g("rc"))], raises=[LR] + SEL)
    SetName = TSet(TStr)
    m.ghosts.update({"triggered": SetName, "clean": TBool, "unknown": TBool})
    m.fields["Command", "api"] = TApi
    m.ext["HTTPNotFound.status_code"] = 404
    m.ext["aiohttp.web_exceptions.HTTPNotFound.status_code"] = 404

    def run_job(it, v, a, k):
        how = it.choose(3, "triggering a job")
        if how == 1:
            s = it.fresh("status", IS)
            it.set_ghost("unknown", s == 404)
            raise PyRaise(ExcVal(m.exc_class("ClientResponseError"), [], {"status": Sym(TInt, s)}))
        if how == 2:
            raise it.exc("ClientError")
        it.set_ghost("triggered", z3.Store(it.get_ghost("triggered"), it.encode(a[0], TStr), True))

    m.opq_methods[TApi.name, "run_job"] = run_job
    BLK = ("BlockingIOError", None, [])
    u.contract("repository:Repository._clean", [("self", R("Repository"))], trusted=True, modifies=[("ghost", "clean")], ensures=[("clean", lambda c: c.post.g("clean"))], raises=[BLK, LR])
    m.ghosts.update({"valid": TBool, "first": TBool})
    u.contract("repository:Repository.validate_tags", [("self", R("Repository")), ("tags", SetStr)], trusted=True, modifies=[("ghost", "valid")], ensures=[("valid", lambda c: c.post.g("valid"))], raises=[("ValueError", None, [])])

    def before_backup(ctx):
        it = ctx.it
        c = it.vc.ctx
        it.vc.prove(it, "the revision is on disk, and its tags are valid or forced", And(Not(it.get_ghost("clean")), Or(c.a("force"), it.get_ghost("valid"))))
        f = c.a("repos")
        r = S(LRep.arr(f), 0)
        it.vc.prove(it, "it is the repository of the source", c.pre.f("Repository", "path", c.pre.f("CmdLineSource", "repository", c.pre.f("Command", "source", me(c)))) == c.pre.f("Repository", "path", r))

    m.stubs["cli:Revision.create"] = m.stubs["revision:Revision.create"] = lambda it, a, k: it.alloc("Revision")

    def materialized(c):
        return Not(c.post.g("clean"))

    u.contract("revision:Revision.materialize", [("self", R("Revision"))], trusted=True, modifies=[("ghost", "clean")], ensures=[("an incomplete revision", materialized)], raises=[("OSError", None, [])])
    one = lambda c: And(Not(c.a("bg")), LRep.len(c.a("repos")) == 1)
    rname = lambda v, r: v.f("Repository", "name", r)

    def backup_post(c):
        f = c.a("repos")
        at = lambda k: S(LRep.arr(f), k)
        all_ = forall_int(lambda k: Imp(And(0 <= k, k < LRep.len(f)), S(c.post.g("triggered"), rname(c.pre, at(k)))), pats=lambda k: [at(k)])
        return z3.If(one(c), And(c.res == c.post.g("rc"), c.post.g("clean")), z3.If(c.res == 0, all_, c.post.g("unknown")))

    def trig(L):
        c, f = L.vc.ctx, L.args["repos"]
        at = lambda k: S(LRep.arr(f), k)
        return [("those passed have been triggered", forall_int(lambda k: Imp(And(0 <= k, k < L.k), S(L.now.g("triggered"), rname(L.now, at(k)))), pats=lambda k: [at(k)]))]

    u.contract(CMD + "backup", [("self", R("Command")), ("repos", LRep), ("bg", TBool), ("tags", TStr), ("force", TBool)], ret=TInt,
               requires=[("some repository", lambda c: LRep.len(c.a("repos")) > 0), ("nothing is unknown", lambda c: And(Not(c.pre.g("unknown")), Not(c.pre.g("valid"))))], modifies=["alloc"] + [("ghost", x) for x in ("rc", "triggered", "clean", "unknown", "valid")],
               ensures=[("the code of the source command, and nothing incomplete is left; in the background: 0 only if all have been triggered", backup_post)],
               raises=[("AssertionError", lambda c: one(c), []), ("ValueError", None, []), BLK, LR, ("ClientError", lambda c: Not(one(c)), [])], loops={0: trig}, ghost_before={SRC + "backup": before_backup})
    u.ns = {**getattr(u, "ns", {}), **locals()}
    return m
