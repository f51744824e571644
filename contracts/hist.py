"""Reading the history from the repository, and operations on it (C12, C15, C21)."""
from types import SimpleNamespace

from .revs import *  # noqa
from . import revs

IS_REV = z3.Function("is_rev_name", P, z3.BoolSort())
REVFIELDS = ["repository", "uuid", "timestamp", "stats", "tags", "orig_tags", "trust", "server"]


def name_axioms(it, pre):
    p = z3.Const("np", P)
    return [FA([p], IS_REV(ADD(p, z3.StringVal(".rev"))), [ADD(p, z3.StringVal(".rev"))])]


def glob(it, v, a, k):
    pat = it.force(a[0])
    if pat != "*.rev":
        raise Unsupported(f"glob {pat!r}")
    f = it.get_ghost("files")
    g = it.fresh("glob", TSet(TPath).sort())
    p = bound("p", P)
    it.assume(FA([p], S(g, p) == And(S(TFiles.dom(f), p), PARENT(p) == v.t, IS_REV(p)), [S(g, p)]))
    it.assume(FA([p], Imp(And(S(TFiles.dom(f), p), PARENT(p) == v.t, IS_REV(p)), S(g, p)), [S(TFiles.dom(f), p)]))
    return it.new_box(SV(TSet(TPath), g))


def trust_of(s):
    return z3.If(s == z3.StringVal("trusted"), z3.IntVal(0), z3.If(s == z3.StringVal("distrusted"), z3.IntVal(1), z3.IntVal(2)))


def wf_doc(c):
    return And(D_["uuid"](c) != z3.StringVal(""), Or(*[D_["trust"](c) == z3.StringVal(x) for x in ("trusted", "distrusted", "verified")]))


def rev_file(view, repo, p):
    """a metadata file of the repository"""
    return And(exists_file(view, p), PARENT(p) == view.f("Repository", "path", repo), IS_REV(p), Not(ISLINK(p)))


def wf_dir(view, repo):
    """metadata files are well-formed documents and named by their UUID"""
    p = bound("p", P)
    c = content(view, p)
    return FA([p], Imp(rev_file(view, repo, p), And(wf_doc(c), p == REVP(view.f("Repository", "path", repo), D_["uuid"](c)))), [S(TFiles.dom(view.g("files")), p)])


def loaded(view, rev, cont):
    f = lambda n: view.f("Revision", n, rev)
    return And(f("uuid") == D_["uuid"](cont), f("timestamp") == D_["timestamp"](cont), f("stats") == D_["stats"](cont), f("tags") == D_["tags"](cont),
               f("orig_tags") == D_["orig_tags"](cont), f("trust") == trust_of(D_["trust"](cont)), f("server") == D_["server"](cont))


LOG = lambda it: Opaque("log")


def setup(u):
    m = revs.setup(u)
    N = SimpleNamespace(**u.ns)
    m.opq_methods[TPath.name, "glob"] = glob
    u.axioms.append(name_axioms)

    # --------------------------------------------------------------- load
    def ld(c):
        f = content(c.pre, c.a("file"))
        st = lambda n, v: c.post.arr("Revision", n) == z3.Store(c.pre.arr("Revision", n), c.res, v)
        return And(*[st(n, D_[n](f)) for n in REVFIELDS if n not in ("repository", "trust")], st("trust", trust_of(D_["trust"](f))), st("repository", c.a("backup")))

    u.contract("revision:Revision.load", [("file", TPath), ("backup", R("Repository")), ("log", LOG)], ret=R("Revision"),
               requires=[("well-formed document", lambda c: Imp(exists_file(c.pre, c.a("file")), wf_doc(content(c.pre, c.a("file")))))],
               modifies=["alloc"] + [("heap", "Revision", n) for n in REVFIELDS],
               ensures=[("a new revision with the fields of the document", lambda c: And(c.res == c.pre.alloc, c.post.alloc == c.pre.alloc + 1, exists_file(c.pre, c.a("file")), ld(c)))],
               raises=[("OSError", None, [("no revision has changed", lambda c: And(c.post.alloc == c.pre.alloc, *[c.post.arr("Revision", n) == c.pre.arr("Revision", n) for n in REVFIELDS]))])])

    # --------------------------------------------------------------- scan
    TBY = N.TBY
    RV = lambda q: q  # noqa

    def wf_index(v, r):
        """the index leads to revisions of the history only"""
        h = Hist(v, r)
        by = v.f("Repository", "_by_uuid", r)
        x = bound("x", z3.StringSort())
        return FA([x], Imp(S(TBY.dom(by), x), exists_int(lambda i: And(h.rng(i), h.at(i) == S(TBY.val(by), x), h.f("uuid", i) == x))), [S(TBY.dom(by), x)])

    def from_disk(v0, v, r):
        """each revision is new and holds what its metadata file says"""
        h = Hist(v, r)
        p = lambda i: REVP(v0.f("Repository", "path", r), h.f("uuid", i))
        return forall_int(lambda i: Imp(h.rng(i), And(v0.alloc <= h.at(i), h.at(i) < v.alloc, rev_file(v0, r, p(i)), loaded(v, h.at(i), content(v0, p(i))))), pats=lambda i: [h.at(i)])

    def complete_scan(v0, v, r):
        by = v.f("Repository", "_by_uuid", r)
        p = bound("p", P)
        return FA([p], Imp(rev_file(v0, r, p), S(TBY.dom(by), D_["uuid"](content(v0, p)))), [S(TFiles.dom(v0.g("files")), p)])

    def old_same(v0, v, fields=REVFIELDS):
        q = bound("q", z3.IntSort())
        return And(*[FA([q], Imp(And(0 <= q, q < v0.alloc), S(v.arr("Revision", n), q) == S(v0.arr("Revision", n), q)), [S(v.arr("Revision", n), q)]) for n in fields])

    def in_order(v, r):
        h = Hist(v, r)
        i, j = bound("i", z3.IntSort()), bound("j", z3.IntSort())
        return FA([i, j], Imp(And(h.rng(i), h.rng(j), i < j), h.f("timestamp", i) <= h.f("timestamp", j)), [z3.MultiPattern(h.at(i), h.at(j))])

    def other_repos(v0, v, r):
        q = bound("q", z3.IntSort())
        return And(*[FA([q], Imp(q != r, S(v.arr("Repository", f), q) == S(v0.arr("Repository", f), q)), [S(v.arr("Repository", f), q)]) for f in ("history", "_by_uuid")])

    def scan_inv(L):
        c = L.vc.ctx
        r, v0, v = c.a("self"), L.pre, L.now
        by = v.f("Repository", "_by_uuid", r)
        s = L.seq0
        p = bound("p", P)
        seen = FA([p], Imp(And(S(s.dom, p), s.idx(p) < L.k, Not(ISLINK(p))), S(TBY.dom(by), D_["uuid"](content(v0, p)))), [s.idx(p)])
        return [("history well-formed", N.wf_hist(v, r)), ("index well-formed", wf_index(v, r)),
                ("revisions are new and loaded from their files", from_disk(v0, v, r)), ("files passed are represented", seen),
                ("existing revisions are unchanged", old_same(v0, v)), ("other repositories are unchanged", other_repos(v0, v, r)), ("allocation grows", v.alloc >= v0.alloc)]

    SCANMOD = ["alloc", ("heap", "Repository", "history"), ("heap", "Repository", "_by_uuid")] + [("heap", "Revision", n) for n in REVFIELDS]
    me = lambda c: c.a("self")
    SCAN_ENS = [("history well-formed", lambda c: N.wf_hist(c.post, me(c))), ("index well-formed", lambda c: wf_index(c.post, me(c))),
                ("each revision is what its metadata file says", lambda c: from_disk(c.pre, c.post, me(c))), ("each metadata file is represented", lambda c: complete_scan(c.pre, c.post, me(c))),
                ("sorted by time", lambda c: in_order(c.post, me(c))),
                ("existing revisions are unchanged", lambda c: old_same(c.pre, c.post)), ("other repositories are unchanged", lambda c: other_repos(c.pre, c.post, me(c))), ("allocation grows", lambda c: c.post.alloc >= c.pre.alloc)]
    u.contract("repository:Repository.scan", [("self", R("Repository"))],
               requires=[("metadata files are well-formed and named by their UUID", lambda c: wf_dir(c.pre, me(c)))],
               modifies=SCANMOD, ensures=SCAN_ENS, raises=[("OSError", None, [("existing revisions are unchanged", lambda c: old_same(c.pre, c.post)), ("other repositories are unchanged", lambda c: other_repos(c.pre, c.post, me(c)))])],
               loops={0: scan_inv})

    # ------------------------------------------------------------- _clean
    sv_ = z3.StringVal
    incomplete_doc = lambda c: And(D_["server"](c) == sv_(""), Not(TStats.has(D_["stats"](c), "duration")))
    incomplete = lambda v, q: And(v.f("Revision", "server", q) == sv_(""), Not(TStats.has(v.f("Revision", "stats", q), "duration")))
    lockf = lambda c: lockfile(c.pre.f("Repository", "path", me(c)), ".backup")

    def same_file(a, b, q):
        a, b = a.g("files"), b.g("files")
        return And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), Imp(S(TFiles.dom(a), q), S(TFiles.val(b), q) == S(TFiles.val(a), q)))

    def clean_files(c, v):
        p = bound("p", P)
        f = v.g("files")
        bad = And(rev_file(c.pre, me(c), p), incomplete_doc(content(c.pre, p)))
        return FA([p], Imp(p != lockf(c), z3.If(bad, Not(exists_file(v, p)), same_file(c.pre, v, p))), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])

    def clean_only_bad(c, v):
        """whatever happens, only incomplete local revisions' files are missing"""
        p = bound("p", P)
        f = v.g("files")
        bad = And(rev_file(c.pre, me(c), p), incomplete_doc(content(c.pre, p)))
        return FA([p], Imp(And(p != lockf(c), exists_file(c.pre, p), Not(bad)), And(exists_file(v, p), content(v, p) == content(c.pre, p))), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])

    def clean_hist(c):
        """the history holds exactly the revisions which are left"""
        p = bound("p", P)
        by = c.post.f("Repository", "_by_uuid", me(c))
        d = content(c.pre, p)
        return FA([p], Imp(rev_file(c.pre, me(c), p), S(TBY.dom(by), D_["uuid"](d)) == Not(incomplete_doc(d))), [S(TFiles.dom(c.pre.g("files")), p)])

    def clean_inv(L):
        c = L.vc.ctx
        r, e, v = me(c), L.entry, L.now
        s = L.seq0
        el = lambda k: s.get(k).ref
        by0, by = e.f("Repository", "_by_uuid", r), v.f("Repository", "_by_uuid", r)
        x, q, p = bound("x", z3.StringSort()), bound("q", z3.IntSort()), bound("p", P)
        path = e.f("Repository", "path", r)
        done = lambda k: And(0 <= k, k < L.k, incomplete(e, el(k)))
        ids = lambda x: exists_int(lambda k: And(done(k), e.f("Revision", "uuid", el(k)) == x))
        gone = lambda p: exists_int(lambda k: And(done(k), REVP(path, e.f("Revision", "uuid", el(k))) == p))
        f = v.g("files")
        return [("history well-formed", N.wf_hist(v, r)), ("index well-formed", wf_index(v, r)),
                ("tags are unchanged", FA([q], S(v.arr("Revision", "tags"), q) == S(e.arr("Revision", "tags"), q), [S(v.arr("Revision", "tags"), q)])),
                ("other repositories are unchanged", other_repos(e, v, r)),
                ("the index loses the incomplete ones passed", FA([x], S(TBY.dom(by), x) == And(S(TBY.dom(by0), x), Not(ids(x))), [S(TBY.dom(by), x)])),
                ("index values are unchanged", TBY.val(by) == TBY.val(by0)),
                ("incomplete ones passed are gone", forall_int(lambda k: Imp(done(k), Not(exists_file(v, REVP(path, e.f("Revision", "uuid", el(k)))))), pats=lambda k: [el(k)])),
                ("other files are unchanged", FA([p], Imp(Not(gone(p)), same_file(e, v, p)), [S(TFiles.dom(f), p), S(TFiles.val(f), p)])),
                ("allocation grows", v.alloc >= e.alloc)]

    NORMAL = [N.free, ("metadata files are well-formed and named by their UUID", lambda c: wf_dir(c.pre, me(c))),
              ("lock files are no metadata files", lambda c: Not(IS_REV(lockf(c))))]
    u.contract("repository:Repository._clean", [("self", R("Repository"))], requires=NORMAL,
               modifies=[("ghost", "files")] + SCANMOD,
               ensures=[("incomplete local revisions are gone, all other files are unchanged", lambda c: clean_files(c, c.post)),
                        ("the history holds exactly the others", clean_hist), ("history well-formed", lambda c: N.wf_hist(c.post, me(c)))],
               raises=[("OSError", None, [("complete and remote revisions are unchanged", lambda c: clean_only_bad(c, c.post))])],
               loops={0: clean_inv}, always=[N.held_clause()])

    u.ns.update(locals())
    return m
