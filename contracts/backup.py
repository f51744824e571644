"""Backups as a whole (C05, C17).

An open image (chunked.File) is taken for the stream of its bytes; leaving it
publishes them as the image of the revision (contracts of C01, C03)."""
from types import SimpleNamespace

from . import diffs, specs
from .diffs import *  # noqa
from .revs import exists_file, content, saved, rev_path
from .hist import IS_REV
from pyvc.verify import View

SRC, CE = "rbd:RBDSource.", "rbd:CephRBD."
IS, SS, BS = z3.IntSort(), z3.StringSort(), z3.BoolSort()


def setup(u):
    m = specs.setup(u)
    H = SimpleNamespace(**u.ns)
    m = diffs.setup(u, m)
    N = SimpleNamespace(**u.ns)
    con, image, has, SPEC = N.con, N.image, N.has, SPECF
    m.fields.update({("Stream", "of"): TPath, ("Stream", "writing"): TBool})
    m.ghosts.update({"compared": TInt, "broken": TBool, "recorded": TBool})
    me, rv = (lambda c: c.a("self")), (lambda c: c.a("revision"))
    repo = lambda v, c: v.f("RBDSource", "repository", me(c))
    ceph = lambda v, c: v.f("RBDSource", "ceph_rbd", me(c))
    path = lambda c: c.pre.f("Repository", "path", repo(c.pre, c))
    uid = lambda c, r: c.pre.f("Revision", "uuid", r)
    imgp = lambda c, x: JOIN(path(c), x)
    revp = lambda c: REVP(path(c), uid(c, rv(c)))
    IMG = lambda v, p: IMAGE(content(v, p))
    bex = lambda it: PyRaise(ExcVal(m.exc_class("BackendException"), []))

    # -------------------------------------------------------------- images
    def leave(it, a, k):
        """the image is written, unless this fails"""
        s = a[0].ref
        if not it.branch(S(it.heap_arr("Stream", "writing"), s)):
            return
        p, f = S(it.heap_arr("Stream", "of"), s), it.get_ghost("files")
        how = it.choose(3, "writing the image")
        c = it.fresh("image_map", TCont.sort())
        it.set_ghost("files", TFiles.mk(z3.Store(TFiles.dom(f), p, True if how == 0 else it.fresh("there", BS)), z3.Store(TFiles.val(f), p, c)))
        if how == 1:
            raise it.exc("OSError")
        if how == 2:
            raise bex(it)
        it.assume(IMAGE(c) == S(it.heap_arr("Stream", "content"), s))

    m.methods["Stream", "__exit__"] = leave
    wr = lambda c: c.a("mode") == sv_("wb")
    OP = TOpt(R("Revision"))

    def opened(c):
        p = imgp(c, uid(c, rv(c)))
        q = imgp(c, uid(c, OP.the(c.a("parent"))))
        here = con(c.post, c.res)
        return And(N.wf(c.post, c.res), N.pos(c.post, c.res) == 0, c.res == c.pre.alloc, c.post.alloc > c.res, c.post.f("Stream", "of", c.res) == p, c.post.f("Stream", "writing", c.res) == wr(c), N.others(c, c.res),
                   z3.If(exists_file(c.pre, p), here == IMG(c.pre, p), And(wr(c), z3.If(OP.is_none(c.a("parent")), LEN(here) == 0, And(exists_file(c.pre, q), here == IMG(c.pre, q))))))

    only_image = lambda c: files_but(c, c.pre, c.post, [imgp(c, uid(c, rv(c)))])

    def files_but(c, a, b, ps, cond=None):
        q = bound("q", P)
        x, y = a.g("files"), b.g("files")
        return FA([q], Imp(And(*[q != p for p in ps]), And(S(TFiles.dom(y), q) == S(TFiles.dom(x), q), Imp(S(TFiles.dom(x), q), S(TFiles.val(y), q) == S(TFiles.val(x), q)))), [S(TFiles.dom(y), q), S(TFiles.val(y), q)])

    u.contracts.pop(SRC + "open")
    u.contract(SRC + "open", [("self", R("RBDSource")), ("revision", R("Revision")), ("mode", TStr), ("parent", OP)], ret=TStream, defaults={"mode": "rb", "parent": None}, trusted=True,
               requires=[("for reading or writing", lambda c: Or(wr(c), c.a("mode") == sv_("rb")))],
               modifies=["alloc", ("ghost", "files")] + N.STREAMS + [("heap", "Stream", x) for x in ("size", "of", "writing")],
               ensures=[("the image of the revision, or a copy of its parent's to be overwritten", opened), ("no other file changes", only_image), ("files stay if only read", lambda c: Imp(Not(wr(c)), files_but(c, c.pre, c.post, [])))],
               raises=[("BackendException", None, [("no other file changes", only_image)]), ("OSError", None, [("no other file changes", only_image)])])
    # Accessing an image may fail. All other errors are represented by two.
    for n in ("diff", "full", "verify"):
        u.contracts[CE + n].raises = [(x, None, [N.NOTED] if n == "verify" else []) for x in ("BackendException", "OSError")] + ([("CalledProcessError", None, [])] if n == "diff" else [])
    u.contracts[CE + "create_snapshot"].raises = [("CalledProcessError", None, [])]
    u.contract(CE + "ready", [("self", R("CephRBD"))], ret=TBool, trusted=True)
    m.ext["time.time"] = lambda it, a, k: Sym(TReal, it.fresh("time", z3.RealSort()))
    m.ext["os.sync"] = lambda it, a, k: None

    # the verification of a revision (contracts of C08, in contracts.garbage)
    def apart(c):
        """nothing but this revision, and what belongs to no revision, changes"""
        x = bound("x", SS)
        g = c.post.g("files")
        a, b = REVP(path(c), x), JOIN(path(c), x)
        same = lambda p: And(exists_file(c.post, p) == exists_file(c.pre, p), Imp(exists_file(c.pre, p), content(c.post, p) == content(c.pre, p)))
        return FA([x], Imp(x != uid(c, rv(c)), And(same(a), Imp(exists_file(c.pre, a), same(b)))), [S(TFiles.dom(g), a), S(TFiles.val(g), a), S(TFiles.val(g), b)])

    VMOD = [("ghost", "files"), "alloc"] + [("heap", "Revision", n) for n in ("trust", "tags")] + [("heap", "Repository", n) for n in ("history", "_by_uuid")]
    u.contract(SRC + "verify", [("self", R("RBDSource")), ("revision", R("Revision")), ("skip_lock", TBool)], trusted=True, defaults={"skip_lock": False}, modifies=VMOD,
               requires=[("a distrusted revision", lambda c: c.pre.f("Revision", "trust", rv(c)) == 1), ("locks are held", lambda c: And(c.a("skip_lock"), holds(c.pre, repo(c.pre, c), ".backup")))], ensures=[("other revisions are left alone", apart)],
               raises=[("OSError", None, [("other revisions are left alone", apart)])])

    # -------------------------------------------------------------- backup
    hist = lambda v, c: Hist(v, repo(v, c))
    snapn = lambda c, x: SPECF(z3.Concat(c.pre.f("CephRBD", "pool", ceph(c.pre, c)), sv_("/"), c.pre.f("CephRBD", "image", ceph(c.pre, c))), CORE(x))
    LOCKS = (".backup", ".purge")
    lockp = lambda c: [lockfile(path(c), t) for t in LOCKS]
    links = lambda c: [JOIN(path(c), sv_(x)) for x in ("last", "last.rev")]
    dur = lambda d: TStats.has(D_["stats"](d), "duration")

    def sound(c):
        """images of complete local revisions which are not distrusted are what their snapshots were"""
        h = hist(c.pre, c)
        k = bound("k", IS)
        x = h.f("uuid", k)
        return FA([k], Imp(And(h.rng(k), h.complete(k), h.f("server", k) == sv_(""), h.f("trust", k) != 1), And(exists_file(c.pre, imgp(c, x)), IMG(c.pre, imgp(c, x)) == EXPORT(snapn(c, x)))), [h.at(k)])

    def names(c):
        """links, locks, images and metadata files differ"""
        x = bound("x", SS)
        ps = lockp(c) + links(c)
        return And(FA([x], And(*[REVP(path(c), x) != p for p in ps]), [REVP(path(c), x)]), FA([x], REVP(path(c), x) != JOIN(path(c), x), [REVP(path(c), x)]),
                   Not(IS_REV(imgp(c, uid(c, rv(c))))), *[Not(IS_REV(p)) for p in lockp(c)], *[x_ != sv_(t) for t in LOCKS + ("last", "last.rev") for x_ in [uid(c, rv(c))]], hnames(c))

    def hnames(c):
        h = hist(c.pre, c)
        k = bound("k", IS)
        return FA([k], Imp(h.rng(k), And(*[h.f("uuid", k) != sv_(t) for t in LOCKS + ("last", "last.rev", "")])), [h.at(k)])

    def cleaned(c):
        h = hist(c.pre, c)
        k = bound("k", IS)
        return FA([k], Imp(And(h.rng(k), h.f("server", k) == sv_("")), h.complete(k) == (h.f("uuid", k) != uid(c, rv(c)))), [h.at(k)])

    class Of:
        """the context of a callee"""
        def __init__(this, c, /, **args):
            this.it, this.model, this.pre, this.post, this.args = c.it, c.model, c.pre, c.post, args

        def a(this, n):
            return this.args[n]

    def same_repo(c):
        h = hist(c.pre, c)
        k = bound("k", IS)
        return FA([k], Imp(h.rng(k), c.pre.f("Revision", "repository", h.at(k)) == h.repo), [h.at(k)])

    REQ = [("locks are free, and their files exist", lambda c: And(*[unlocked(c.pre, repo(c.pre, c), t) for t in LOCKS], *[exists_file(c.pre, p) for p in lockp(c)])),
           ("a new local revision of this repository", lambda c: And(c.pre.f("Revision", "server", rv(c)) == sv_(""), c.pre.f("Revision", "repository", rv(c)) == repo(c.pre, c), rv(c) < c.pre.alloc, uid(c, rv(c)) != sv_(""), c.pre.f("Revision", "trust", rv(c)) == 0, Not(exists_file(c.pre, imgp(c, uid(c, rv(c))))),
                                                                    Not(TStats.has(c.pre.f("Revision", "stats", rv(c)), "duration")), exists_file(c.pre, revp(c)), Not(dur(content(c.pre, revp(c)))))),
           ("history well-formed", lambda c: And(H.wf_hist(c.pre, repo(c.pre, c)), same_repo(c))), ("complete and trusted local revisions are sound", sound), ("incomplete ones have been cleaned", cleaned),
           ("names of files differ", names), ("metadata files are well-formed and named by their UUID", lambda c: H.NORMAL[1][1](Of(c, self=repo(c.pre, c)))), ("nothing has been compared", lambda c: And(c.pre.g("compared") == 0, Not(c.pre.g("broken")), Not(c.pre.g("recorded")))),
           ("names of snapshots can be read", lambda c: readable(c))]

    def readable(c):
        h = hist(c.pre, c)
        k = bound("k", IS)
        return FA([k], Imp(h.rng(k), And(Not(z3.Contains(h.f("uuid", k), sv_("backy-"))), CORE(h.f("uuid", k)) == z3.Concat(sv_("backy-"), h.f("uuid", k)))), [h.at(k)])

    def compared(ctx):
        ctx.it.set_ghost("compared", z3.If(ctx.res, z3.IntVal(1), z3.IntVal(2)))

    def broken(ctx):
        it = ctx.it
        c, v = it.vc.ctx, View(it, it.st)
        it.set_ghost("broken", z3.BoolVal(True))
        t = ctx.a("revs")
        k = bound("k", IS)
        el = S(LRev.arr(t), k)
        f = FA([k], Imp(And(0 <= k, k < LRev.len(t)), And(v.f("Revision", "repository", el) == repo(c.pre, c), Or(v.f("Revision", "uuid", el) != uid(c, rv(c)), Not(TStats.has(v.f("Revision", "stats", el), "duration"))))), [el])
        it.vc.prove(it, "the new revision is not among them as a complete one", f)
        it.assume(f)

    def before_info(ctx):
        """a revision is only ever recorded as complete when all is well"""
        it = ctx.it
        c, v = it.vc.ctx, View(it, it.st)
        it.vc.prove(it, "recorded as complete only after the comparison has found no difference", And(v.g("compared") == 1, Not(v.g("broken"))))
        it.vc.prove(it, "recorded as complete only when its image is that of the snapshot", good(c, v))
        it.set_ghost("recorded", z3.BoolVal(True))

    def good(c, v):
        p = imgp(c, uid(c, rv(c)))
        return And(exists_file(v, p), IMG(v, p) == EXPORT(snapn(c, uid(c, rv(c)))))

    def not_complete(c, v):
        return Or(Not(exists_file(v, revp(c))), Not(dur(content(v, revp(c)))))

    MOD = N.NEWS + H.SCANMOD + VMOD + [("heap", "Stream", x) for x in ("size", "of", "writing")] + [("heap", "CephRBD", "revision"), ("heap", "RBDDiffV1", "f")] + [("heap", "RBDDiffV1", x) for x in ("phase", "record_type", "_streaming")] \
        + [("ghost", x) for x in ("compared", "broken", "recorded", "end", "stop", "keep", "snaps", "tried", "listed", "kv", "requests", "clock", "reports", "reported", "sampled", "mapped")] + [("heap", "Consul", "kv")] \
        + [("heap", "TimeOut", f) for f in ("remaining", "cutoff", "interval", "timed_out", "first", "raise_on_timeout")]
    for f in ("remaining", "cutoff", "interval", "timed_out", "first", "raise_on_timeout"):
        m.fields.setdefault(("TimeOut", f), TReal)
    m.fields.setdefault(("Consul", "kv"), TStr)
    m.ghosts.setdefault("requests", TInt)
    seen, MOD2 = set(), []
    for x in MOD:
        if str(x) not in seen:
            seen.add(str(x))
            MOD2.append(x)
    RAISED = [("the revision is not complete, unless everything has been done", lambda c: Or(not_complete(c, c.post), And(c.post.g("recorded"), c.post.g("compared") == 1, Not(c.post.g("broken")))))]

    def last_inv(L):
        return []

    u.contract(SRC + "backup", [("self", R("RBDSource")), ("revision", R("Revision"))], ret=TBool, requires=REQ, modifies=MOD2,
               ensures=[("success only if the comparison has found no difference and no access failed", lambda c: Imp(c.res, And(c.post.g("compared") == 1, Not(c.post.g("broken"))))),
                        ("success: the revision is complete", lambda c: Imp(c.res, And(exists_file(c.post, revp(c)), dur(content(c.post, revp(c))), D_["uuid"](content(c.post, revp(c))) == uid(c, rv(c))))),
                        ("success: its image is that of the snapshot", lambda c: Imp(c.res, good(c, c.post))),
                        ("failure: the revision is gone", lambda c: Imp(Not(c.res), Not(exists_file(c.post, revp(c)))))],
               raises=[(n, None, RAISED) for n in ("BlockingIOError", "OSError", "RuntimeError", "CalledProcessError", "AssertionError")],
               loops={0: last_inv}, ghost_code={CE + "verify": compared}, ghost_before={"repository:Repository.distrust": broken, "revision:Revision.write_info": before_info})
    u.ns = {**u.ns, **locals()}
    return m
