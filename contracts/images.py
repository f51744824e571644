"""Images of revisions as streams: restoring and reading sources (C05, C06).

An open image (chunked.File) is taken for the stream of its bytes, as which it
behaves according to the contracts of C01 and C02."""
from .streams import *  # noqa
from . import revs, streams
from .chunked import STROFP
from .revs import exists_file, content

IMAGE = z3.Function("image", TCont.sort(), BB)  # the bytes of the image with this map
TEx = TTup(TStr, TStr, TInt)  # map, target, return code


def setup(u, m=None):
    m = m or revs.setup(u)
    streams.contracts(u, m)
    N = SimpleNamespace(**u.ns)
    con, pos, copied, STREAMS = N.con, N.pos, N.copied, N.STREAMS
    m.fields.update({("RBDSource", "repository"): R("Repository"), ("RBDSource", "ceph_rbd"): R("CephRBD"), ("RBDSource", "store"): R("Store"),
                     ("RBDRestoreArgs", "target"): TStr, ("RBDRestoreArgs", "backend"): m.enum("RestoreBackend")})
    m.ghosts["extracted"] = TEx
    SRC = "rbd:RBDSource."
    me = lambda c: c.a("self")
    repo = lambda v, c: v.f("RBDSource", "repository", me(c))
    plock = lambda v, c: lockfile(v.f("Repository", "path", repo(v, c)), ".purge")
    # an image is a stream with a name and a size
    m.fields.update({("Stream", "name"): TStr, ("Stream", "size"): TInt})

    def fdopen_(it, a, k):
        fails(it)
        o = new_stream(it, EMPTYB)
        it.set_ghost("out", o.ref)
        it.set_ghost("outpath", PATHOF(sv_("-")))
        return o

    m.ext.update({"os.dup": lambda it, a, k: Opaque("fd"), "os.fdopen": fdopen_})
    imgpath = lambda v, c: JOIN(v.f("Repository", "path", repo(v, c)), v.f("Revision", "uuid", c.a("revision")))
    # ------------------------------------------------------------ restore
    FRESH = ("a new stream", lambda c: And(c.res == c.pre.alloc, c.post.alloc > c.res))
    m.fields["Revision", "uuid"] = TStr
    u.contract(SRC + "open", [("self", R("RBDSource")), ("revision", R("Revision"))], ret=TStream, trusted=True,
               modifies=["alloc"] + STREAMS + [("heap", "Stream", "size")],
               ensures=[FRESH, ("the image of the revision, at its beginning", lambda c: And(exists_file(c.pre, imgpath(c.pre, c)), con(c.post, c.res) == IMAGE(content(c.pre, imgpath(c.pre, c))), N.wf(c.post, c.res), pos(c.post, c.res) == 0, c.post.f("Stream", "size", c.res) == LEN(con(c.post, c.res)))),
                        ("other streams are unchanged", lambda c: N.others(c, c.res))],
               raises=[("OSError", None, []), ("ValueError", None, [])])

    def locked_during(ctx):
        it = ctx.it
        v = View(it, it.st)
        c = it.vc.ctx
        it.vc.prove(it, "copied while nothing can be purged", holds(v, repo(v, c), ".purge", SH))

    out = lambda c: c.post.g("out")
    outp = lambda c: c.post.g("outpath")
    regular = lambda v, o: v.f("Stream", "regular", o)
    OUT = STREAMS + ["alloc", ("heap", "Stream", "regular"), ("ghost", "out"), ("ghost", "outpath"), ("ghost", "files"), ("ghost", "locks"), ("ghost", "lockfd"), ("heap", "Repository", "_lock_fds")]
    SOURCE = [("the source is at its beginning", lambda c: And(N.wf(c.pre, c.a("source")), pos(c.pre, c.a("source")) == 0, c.a("source") < c.pre.alloc))]
    LOCKED = [("RuntimeError", None, []), ("BlockingIOError", None, []), ("OSError", None, [])]
    u.contract(SRC + "restore_file", [("self", R("RBDSource")), ("source", TStream), ("target_name", TStr)], requires=SOURCE, modifies=OUT,
               ensures=[("the target was written", lambda c: And(outp(c) == PATHOF(c.a("target_name")), copied(con(c.pre, c.a("source")), con(c.post, out(c)), LEN(con(c.pre, c.a("source")))))),
                        ("a file has nothing else", lambda c: Imp(regular(c.post, out(c)), con(c.post, out(c)) == con(c.pre, c.a("source"))))],
               raises=LOCKED, ghost_code={"utils:copy": locked_during})

    def stdout_inv(L):
        c = L.vc.ctx
        s, v = c.a("source"), L.now
        A, t = con(v, s), v.g("out")
        i = bound("i", z3.IntSort())
        B = con(v, t)
        p = pos(v, s)
        return [("the source is unchanged", A == con(L.pre, s)), ("positions", And(p >= 0, p <= LEN(A), pos(v, t) == p, t != s)),
                ("what has been read has been written", And(ISB(B), LEN(B) == p, copied(A, B, p), FA([i], Imp(Or(i < 0, i >= p), at(B, i) == 0), [at(B, i)])))]

    u.contract(SRC + "restore_stdout", [("self", R("RBDSource")), ("source", TStream)], requires=SOURCE, modifies=OUT,
               ensures=[("the output is the image", lambda c: And(outp(c) == PATHOF(sv_("-")), con(c.post, out(c)) == con(c.pre, c.a("source"))))],
               raises=LOCKED, loops={0: stdout_inv})
    # the backend
    def check_output(it, a, k):
        if it.choose(2, "the program fails"):
            raise it.exc("OSError")
        return Sym(TStr, it.fresh("output", z3.StringSort()))

    def popen(it, a, k):
        """the program runs; what it is given is recorded"""
        cmd = it.host_list(a[0])
        fails(it)
        if len(cmd) != 3 or not isinstance(it.force(cmd[0]), Opaque) and it.force(cmd[0]) != "backy-extract":
            raise Unsupported("another program")
        o = it.alloc("Process")
        it.heap_set("Process", "cmd", o.ref, TCmd.mk(it.encode(cmd[1], TStr), it.encode(cmd[2], TStr)))
        return o

    def p_wait(it, a, k):
        rc = it.fresh("rc", z3.IntSort())
        t = S(it.heap_arr("Process", "cmd"), a[0].ref)
        it.set_ghost("extracted", TEx.mk(TCmd.get(t, 0), TCmd.get(t, 1), rc))
        return Sym(TInt, rc)

    TCmd = TTup(TStr, TStr)
    m.fields.update({("Process", "cmd"): TCmd, ("Process", "pid"): TInt})
    m.methods["Process", "wait"] = p_wait
    m.ext.update({"os.environ.get": lambda it, a, k: a[1] if len(a) > 1 else None, "subprocess.check_output": check_output, "subprocess.Popen": popen})
    u.contract(SRC + "backy_extract_supported", [("self", R("RBDSource")), ("file", TStream)], ret=TBool,
               ensures=[("only for whole chunks", lambda c: Imp(c.res, c.pre.f("Stream", "size", c.a("file")) % CS == 0))], raises=[])
    extracted = lambda v, mp, target: And(TEx.get(v.g("extracted"), 0) == mp, TEx.get(v.g("extracted"), 1) == target, TEx.get(v.g("extracted"), 2) == 0)
    rpath = lambda c, r: STROFP(JOIN(c.pre.f("Repository", "path", repo(c.pre, c)), c.pre.f("Revision", "uuid", r)))
    u.contract(SRC + "restore_backy_extract", [("self", R("RBDSource")), ("rev", R("Revision")), ("target", TStr)], modifies=["alloc", ("ghost", "extracted"), ("heap", "Process", "cmd")],
               ensures=[("backy-extract has restored this revision to the target", lambda c: extracted(c.post, rpath(c, c.a("rev")), c.a("target")))],
               raises=[("RuntimeError", None, []), ("OSError", None, [])])

    BACK = m.enum("RestoreBackend")
    back = lambda n: m.enum_term("RestoreBackend", n)

    def restored(c):
        rev, tg, b = c.a("revision"), c.pre.f("RBDRestoreArgs", "target", c.a("args")), c.pre.f("RBDRestoreArgs", "backend", c.a("args"))
        img = IMAGE(content(c.pre, imgpath(c.pre, c)))
        stdout = tg == sv_("-")
        o = c.post.g("out")
        here = And(outp(c) == PATHOF(z3.If(stdout, sv_("-"), tg)), z3.If(stdout, con(c.post, o) == img, And(copied(img, con(c.post, o), LEN(img)), Imp(regular(c.post, o), con(c.post, o) == img))))
        there = extracted(c.post, rpath(c, rev), tg)
        return z3.If(b == back("PYTHON"), here, z3.If(b == back("RUST"), there, Or(here, And(there, LEN(img) % CS == 0))))

    u.contract(SRC + "restore", [("self", R("RBDSource")), ("revision", R("Revision")), ("args", R("RBDRestoreArgs"))],
               modifies=OUT + [("ghost", "extracted"), ("heap", "Process", "cmd"), ("heap", "Stream", "size")],
               ensures=[("the target has the image of the revision", restored)],
               raises=LOCKED + [("ValueError", None, [])])

    u.ns = {**u.ns, **locals()}
    return m
