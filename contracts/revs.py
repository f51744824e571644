"""Revisions, their metadata files, tags and trust (C08-C10, C12, C14-C16, C21)."""
from .world import *  # noqa
from . import base

LOpt = TOpt(R("Revision"))


def saved(view, rev, cont):
    """the file's document holds the revision's fields"""
    f = lambda n: view.f("Revision", n, rev)
    return And(D_["uuid"](cont) == f("uuid"), D_["timestamp"](cont) == f("timestamp"), D_["stats"](cont) == f("stats"),
               D_["tags"](cont) == f("tags"), D_["orig_tags"](cont) == f("orig_tags"), D_["trust"](cont) == trust_value(f("trust")), D_["server"](cont) == f("server"))


def trust_value(t):
    return z3.If(t == 0, z3.StringVal("trusted"), z3.If(t == 1, z3.StringVal("distrusted"), z3.StringVal("verified")))


def rev_path(view, rev):
    return REVP(view.f("Repository", "path", view.f("Revision", "repository", rev)), view.f("Revision", "uuid", rev))


def other_files_same(pre, post, p):
    a, b = pre.g("files"), post.g("files")
    q = bound("q", P)
    return FA([q], Imp(q != p, And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), Imp(S(TFiles.dom(a), q), S(TFiles.val(b), q) == S(TFiles.val(a), q)))), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])


def existing_same(pre, post):
    """every file which existed is still there, unchanged"""
    a, b = pre.g("files"), post.g("files")
    q = bound("q", P)
    return FA([q], Imp(S(TFiles.dom(a), q), And(S(TFiles.dom(b), q), S(TFiles.val(b), q) == S(TFiles.val(a), q))), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])


def files_same(pre, post):
    q = bound("q", P)
    a, b = pre.g("files"), post.g("files")
    return FA([q], And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), Imp(S(TFiles.dom(a), q), S(TFiles.val(b), q) == S(TFiles.val(a), q))), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])


def exists_file(view, p):
    return S(TFiles.dom(view.g("files")), p)


def content(view, p):
    return S(TFiles.val(view.g("files")), p)


def setup(u):
    m = base.setup(u)
    setup_world(u)
    setup_files(u)
    setup_locks(u)
    TTrust = m.enum("Trust")
    assert [n for n, _ in TTrust.members] == ["TRUSTED", "DISTRUSTED", "VERIFIED"], TTrust.members
    DIS = z3.IntVal(1)

    # -------------------------------------------------------- small ones
    local = lambda c: c.pre.f("Revision", "server", c.a("self")) == z3.StringVal("")
    set_to = lambda n: [(f"trust state is {n}", lambda c: c.post.arr("Revision", "trust") == z3.Store(c.pre.arr("Revision", "trust"), c.a("self"), m.enum_term("Trust", n)))]
    for fn, st in (("distrust", "DISTRUSTED"), ("verify", "VERIFIED")):
        u.contract(f"revision:Revision.{fn}", [("self", R("Revision"))], modifies=[("heap", "Revision", "trust")],
                   ensures=set_to(st) + [("only local revisions", local)],
                   raises=[("AssertionError", lambda c: Not(local(c)), [("trust states are unchanged", lambda c: c.post.arr("Revision", "trust") == c.pre.arr("Revision", "trust"))])])

    # --------------------------------------------------------- get_parent
    def hist(c):
        return Hist(c.pre, c.pre.f("Revision", "repository", c.a("self")))

    def candidate(c, h, k):
        me = c.a("self")
        return And(h.rng(k), h.f("server", k) == c.pre.f("Revision", "server", me), Or(c.a("ignore_trust"), h.f("trust", k) != DIS))

    def stop(c, h, k):
        """the revision itself, where it takes part"""
        return And(candidate(c, h, k), h.f("uuid", k) == c.pre.f("Revision", "uuid", c.a("self")))

    def first_stop(c, h, s):
        """s: position at which the search ends (len if it is not found)"""
        return And(0 <= s, s <= h.n, Or(s == h.n, stop(c, h, s)), forall_int(lambda k: Imp(And(0 <= k, k < s), Not(stop(c, h, k))), pats=lambda k: [h.at(k)]))

    m.ghosts["stop"] = TInt  # where the search ends
    m.scratch.add("stop")

    def set_stop(it, ctx, vals):
        """there is a first position with a property, or it is not found"""
        s = it.fresh("stop", z3.IntSort())
        it.assume(first_stop(ctx, hist(ctx), s))
        it.set_ghost("stop", s)

    def gp_post(c):
        h = hist(c)
        none = LOpt.is_none(c.res)
        r = LOpt.the(c.res)
        s = c.post.g("stop")
        no = lambda j: forall_int(lambda k: Imp(And(j < k, k < s), Not(candidate(c, h, k))), pats=lambda k: [h.at(k)])
        return And(Imp(none, no(z3.IntVal(-1))), Imp(Not(none), exists_int(lambda j: And(0 <= j, j < s, candidate(c, h, j), h.at(j) == r, no(j)))))

    def gp_inv(L):
        c = L.vc.ctx
        h = hist(c)
        prev = L.local("prev", LOpt)
        none = LOpt.is_none(prev)
        r = LOpt.the(prev)
        return [
            ("the revision itself has not been met", forall_int(lambda k: Imp(And(0 <= k, k < L.k), Not(stop(c, h, k))), pats=lambda k: [h.at(k)])),
            ("nothing found: no candidate so far", Imp(none, forall_int(lambda k: Imp(And(0 <= k, k < L.k), Not(candidate(c, h, k))), pats=lambda k: [h.at(k)]))),
            ("the latest candidate so far", Imp(Not(none), exists_int(lambda j: And(0 <= j, j < L.k, candidate(c, h, j), h.at(j) == r, forall_int(lambda k: Imp(And(j < k, k < L.k), Not(candidate(c, h, k))), pats=lambda k: [h.at(k)]))))),
        ]

    def gp_never(c):
        r = LOpt.the(c.res)
        return Imp(Not(LOpt.is_none(c.res)), And(c.pre.f("Revision", "server", r) == c.pre.f("Revision", "server", c.a("self")),
                                                 Or(c.a("ignore_trust"), c.pre.f("Revision", "trust", r) != DIS),
                                                 c.pre.f("Revision", "uuid", r) != c.pre.f("Revision", "uuid", c.a("self"))))

    u.contract("revision:Revision.get_parent", [("self", R("Revision")), ("ignore_trust", TBool)], ret=LOpt,
               ensures=[("the last revision before it, from the same server and (unless asked) not distrusted", gp_post),
                        ("up to the revision itself", lambda c: first_stop(c, hist(c), c.post.g("stop"))),
                        ("never distrusted, from elsewhere or the revision itself", gp_never)],
               modifies=[("ghost", "stop")], before=set_stop, loops={0: gp_inv}, locals={"prev": LOpt})

    # --------------------------------------------------------- write_info
    def wi(c):
        p = rev_path(c.pre, c.a("self"))
        return And(exists_file(c.post, p), saved(c.pre, c.a("self"), content(c.post, p)))

    u.contract("revision:Revision.write_info", [("self", R("Revision"))], modifies=[("ghost", "files"), "alloc"],
               ensures=[("the metadata file holds the fields", wi), ("no other file has changed", lambda c: other_files_same(c.pre, c.post, rev_path(c.pre, c.a("self"))))],
               raises=[("OSError", None, [("existing files are unchanged", lambda c: existing_same(c.pre, c.post))])])

    # ------------------------------------------------------------- remove
    # The history and the index of the repository follow.
    TBY = TDict(TStr, R("Revision"))

    def repo_of(c):
        return c.pre.f("Revision", "repository", c.a("self"))

    def remote_kept(c):
        return And(Not(c.a("force")), Not(local(c)))

    def wf_hist(v, r):
        """revisions of the history: pairwise different, with different UUIDs, indexed by them, of this repository"""
        h = Hist(v, r)
        by = v.f("Repository", "_by_uuid", r)
        i, j, x = bound("i", z3.IntSort()), bound("j", z3.IntSort()), bound("x", z3.StringSort())
        return And(h.n >= 0,
                   FA([i], Imp(h.rng(i), And(S(TBY.dom(by), h.f("uuid", i)), S(TBY.val(by), h.f("uuid", i)) == h.at(i), h.f("repository", i) == r)), [h.at(i)]),
                   FA([i, j], Imp(And(h.rng(i), h.rng(j), i != j), h.at(i) != h.at(j)), [z3.MultiPattern(h.at(i), h.at(j))]))

    def rm_files(c):
        p = rev_path(c.pre, c.a("self"))
        return z3.If(remote_kept(c),
                     And(exists_file(c.post, p), D_["tags"](content(c.post, p)) == SetStr.empty(), D_["uuid"](content(c.post, p)) == c.pre.f("Revision", "uuid", c.a("self")),
                         D_["server"](content(c.post, p)) == c.pre.f("Revision", "server", c.a("self")), D_["orig_tags"](content(c.post, p)) == c.pre.f("Revision", "orig_tags", c.a("self")),
                         D_["timestamp"](content(c.post, p)) == c.pre.f("Revision", "timestamp", c.a("self")), D_["stats"](content(c.post, p)) == c.pre.f("Revision", "stats", c.a("self")),
                         D_["trust"](content(c.post, p)) == trust_value(c.pre.f("Revision", "trust", c.a("self")))),
                     Not(exists_file(c.post, p)))

    def rm_hist(c):
        """exactly this revision leaves the history; the order of the others stays"""
        r = repo_of(c)
        a, b = Hist(c.pre, r), Hist(c.post, r)
        me = c.a("self")
        k, j = bound("k", z3.IntSort()), bound("j", z3.IntSort())
        gone = And(b.n == a.n - 1, exists_int(lambda i: And(a.rng(i), a.at(i) == me,
                   FA([k], Imp(And(0 <= k, k < i), b.at(k) == a.at(k)), [b.at(k)]),
                   FA([j], Imp(And(i <= j, j < b.n), b.at(j) == a.at(j + 1)), [b.at(j)]),
                   # the same, seen from the positions before
                   FA([k], Imp(And(0 <= k, k < i), b.at(k) == a.at(k)), [a.at(k)]),
                   FA([j], Imp(And(i < j, j < a.n), b.at(j - 1) == a.at(j)), [a.at(j)]))))
        inh = exists_int(lambda i: And(a.rng(i), a.at(i) == me))
        same = c.post.f("Repository", "history", r) == c.pre.f("Repository", "history", r)
        return z3.If(Or(remote_kept(c), Not(inh)), same, gone)

    def rm_by(c):
        r = repo_of(c)
        a, b = c.pre.f("Repository", "_by_uuid", r), c.post.f("Repository", "_by_uuid", r)
        h = Hist(c.pre, r)
        inh = exists_int(lambda i: And(h.rng(i), h.at(i) == c.a("self")))
        x = bound("x", z3.StringSort())
        return z3.If(And(Not(remote_kept(c)), inh),
                     And(TBY.val(b) == TBY.val(a), FA([x], S(TBY.dom(b), x) == And(S(TBY.dom(a), x), x != c.pre.f("Revision", "uuid", c.a("self"))), [S(TBY.dom(b), x)])), b == a)

    def other_repos(c, field):
        r = repo_of(c)
        q = bound("q", z3.IntSort())
        return FA([q], Imp(q != r, S(c.post.arr("Repository", field), q) == S(c.pre.arr("Repository", field), q)), [S(c.post.arr("Repository", field), q)])

    def tags_frame(c):
        q = bound("q", z3.IntSort())
        me = c.a("self")
        a, b = c.pre.arr("Revision", "tags"), c.post.arr("Revision", "tags")
        return And(FA([q], Imp(q != me, S(b, q) == S(a, q)), [S(b, q)]), S(b, me) == z3.If(remote_kept(c), SetStr.empty(), S(a, me)))

    u.contract("revision:Revision.remove", [("self", R("Revision")), ("force", TBool)],
               requires=[("history well-formed", lambda c: wf_hist(c.pre, repo_of(c)))],
               modifies=[("ghost", "files"), "alloc", ("heap", "Repository", "history"), ("heap", "Repository", "_by_uuid"), ("heap", "Revision", "tags")],
               ensures=[("local (or forced): the file is gone; remote: it stays, without tags", rm_files),
                        ("no other file has changed", lambda c: other_files_same(c.pre, c.post, rev_path(c.pre, c.a("self")))),
                        ("the history loses exactly this revision", rm_hist), ("so does the index", rm_by),
                        ("other repositories' histories are unchanged", lambda c: And(other_repos(c, "history"), other_repos(c, "_by_uuid"))),
                        ("tags of other revisions are unchanged", tags_frame)],
               raises=[("OSError", None, [("existing files are unchanged", lambda c: existing_same(c.pre, c.post)),
                                          ("the history is unchanged", lambda c: And(c.post.arr("Repository", "history") == c.pre.arr("Repository", "history"), c.post.arr("Repository", "_by_uuid") == c.pre.arr("Repository", "_by_uuid")))])])

    # --------------------------------------------------------- Repository
    dis = lambda h, k: And(h.rng(k), h.complete(k), h.f("server", k) == z3.StringVal(""), h.f("trust", k) == DIS)
    hs = lambda c: Hist(c.pre, c.a("self"))
    u.contract("repository:Repository.contains_distrusted", [("self", R("Repository"))], ret=TBool,
               ensures=[("whether a complete local revision is distrusted", lambda c: c.res == exists_int(lambda k: dis(hs(c), k)))])

    LR = LRev
    OLR = TOpt(LR)

    def revs_arg(c):
        return z3.If(OLR.is_none(c.a("revs")), c.pre.f("Repository", "history", c.a("self")), OLR.the(c.a("revs")))

    def has_remote(c):
        t = revs_arg(c)
        return exists_int(lambda k: And(0 <= k, k < LR.len(t), c.pre.f("Revision", "server", S(LR.arr(t), k)) != z3.StringVal("")))

    u.contract("repository:Repository.prevent_remote_rev", [("self", R("Repository")), ("revs", OLR)],
               ensures=[("no remote revision is among them", lambda c: Not(has_remote(c)))],
               raises=[("RuntimeError", has_remote, [])])

    # --------------------------------------------------------- validate_tags
    def unknown_tags(c):
        t = c.pre.f("Schedule", "schedule", c.pre.f("Repository", "schedule", c.a("self")))
        return exists(z3.StringSort(), lambda x: And(S(c.a("tags"), x), Not(is_manual(x)), Not(S(TSched.dom(t), x))))

    u.contract("repository:Repository.validate_tags", [("self", R("Repository")), ("tags", SetStr)],
               ensures=[("all tags are in the schedule or manual", lambda c: Not(unknown_tags(c)))],
               raises=[("RuntimeError", unknown_tags, [])])

    # ------------------------------------------------------------- lookups
    u.contract("repository:Repository.find_by_number", [("self", R("Repository")), ("_spec", TStr)], ret=R("Revision"),
               ensures=[("the specifier is a number", lambda c: lib.ISINT(c.a("_spec"))), ("counted from the newest", lambda c: exists_int(lambda n: And(0 <= n, n < hs(c).n, c.res == hs(c).at(hs(c).n - 1 - n), lib.INTOF(c.a("_spec")) == n)))],
               raises=[("ValueError", lambda c: Not(lib.ISINT(c.a("_spec"))), []), ("IndexError", lambda c: And(lib.ISINT(c.a("_spec")), lib.INTOF(c.a("_spec")) >= hs(c).n), []),
                       ("KeyError", lambda c: And(lib.ISINT(c.a("_spec")), lib.INTOF(c.a("_spec")) < 0), [])])

    def by(c):
        return c.pre.f("Repository", "_by_uuid", c.a("self"))

    u.contract("repository:Repository.find_by_uuid", [("self", R("Repository")), ("spec", TStr)], ret=R("Revision"),
               ensures=[("the revision indexed by it", lambda c: And(S(TBY.dom(by(c)), c.a("spec")), c.res == S(TBY.val(by(c)), c.a("spec"))))],
               raises=[("IndexError", lambda c: Not(S(TBY.dom(by(c)), c.a("spec"))), [])])

    sv_ = z3.StringVal
    newest = lambda c: Or(c.a("spec") == sv_("last"), c.a("spec") == sv_("latest"))
    u.contract("repository:Repository.find_by_tag", [("self", R("Repository")), ("spec", TStr)], ret=R("Revision"),
               ensures=[("the newest or the oldest", lambda c: And(hs(c).n > 0, Or(And(newest(c), c.res == hs(c).at(hs(c).n - 1)), And(c.a("spec") == sv_("first"), c.res == hs(c).at(0)))))],
               raises=[("ValueError", lambda c: Not(Or(newest(c), c.a("spec") == sv_("first"))), []), ("IndexError", lambda c: hs(c).n <= 0, [])])

    # --------------------------------------------------- locked operations
    free = ("the lock is not held already", lambda c: unlocked(c.pre, c.a("self"), ".backup"))
    LREVS = LRev

    def held_clause(target=".backup", who=lambda c: c.a("self"), skip=lambda c: z3.BoolVal(False)):
        """files other than lock files change only while the lock is held"""
        def f(c, v):
            p = bound("p", P)
            r = who(c)
            a, b = c.pre.g("files"), v.g("files")
            lf = lockfile(c.pre.f("Repository", "path", r), target)
            same = FA([p], Imp(p != lf, And(S(TFiles.dom(b), p) == S(TFiles.dom(a), p), Imp(S(TFiles.dom(a), p), S(TFiles.val(b), p) == S(TFiles.val(a), p)))), [S(TFiles.dom(b), p)])
            return Or(skip(c), And(holds(v, r, target), v.f("Repository", "path", r) == c.pre.f("Repository", "path", r)), same)
        return ("files", f"metadata changes only while {target} is locked exclusively", f)

    def own(c, t):
        """revisions of this repository"""
        return forall_int(lambda k: Imp(And(0 <= k, k < LREVS.len(t)), c.pre.f("Revision", "repository", S(LREVS.arr(t), k)) == c.a("self")), pats=lambda k: [S(LREVS.arr(t), k)])

    def path_of(v, r):
        return rev_path(v, r)

    def in_list(t, r):
        return exists_int(lambda k: And(0 <= k, k < LREVS.len(t), S(LREVS.arr(t), k) == r))

    DIS_INV = lambda L: ("only metadata of the revisions passed changes", dis_files(L.vc.ctx, L.now, L.vc.ctx.a("revs"), L.k))

    def dis_inv(L):
        c = L.vc.ctx
        t = c.a("revs")
        el = lambda k: S(LREVS.arr(t), k)
        v0, v = L.pre, L.now
        q = bound("q", z3.IntSort())
        done = lambda r: exists_int(lambda k: And(0 <= k, k < L.k, el(k) == r))
        return [DIS_INV(L), ("revisions passed are local, distrusted and saved", forall_int(lambda k: Imp(And(0 <= k, k < L.k), And(
                    v0.f("Revision", "server", el(k)) == z3.StringVal(""), v.f("Revision", "trust", el(k)) == DIS,
                    exists_file(v, rev_path(v0, el(k))), D_["trust"](content(v, rev_path(v0, el(k)))) == z3.StringVal("distrusted"))), pats=lambda k: [el(k)])),
                ("others keep their trust state", FA([q], Imp(Not(done(q)), v.f("Revision", "trust", q) == v0.f("Revision", "trust", q)), [v.f("Revision", "trust", q)]))]

    def dis_post(c):
        t = c.a("revs")
        el = lambda k: S(LREVS.arr(t), k)
        return forall_int(lambda k: Imp(And(0 <= k, k < LREVS.len(t)), And(c.post.f("Revision", "trust", el(k)) == DIS, c.pre.f("Revision", "server", el(k)) == z3.StringVal(""),
                          exists_file(c.post, rev_path(c.pre, el(k))), D_["trust"](content(c.post, rev_path(c.pre, el(k)))) == z3.StringVal("distrusted"))), pats=lambda k: [el(k)])

    def dis_others(c):
        t = c.a("revs")
        q = bound("q", z3.IntSort())
        return FA([q], Imp(Not(in_list(t, q)), c.post.f("Revision", "trust", q) == c.pre.f("Revision", "trust", q)), [c.post.f("Revision", "trust", q)])

    def trust_only_down(c):
        q = bound("q", z3.IntSort())
        return FA([q], Or(c.post.f("Revision", "trust", q) == DIS, c.post.f("Revision", "trust", q) == c.pre.f("Revision", "trust", q)), [c.post.f("Revision", "trust", q)])

    def noted_doc(c, r, d):
        """the document says what is known of the revision, and that it is distrusted"""
        f = lambda n: c.pre.f("Revision", n, r)
        return And(*[D_[n](d) == f(n) for n in ("uuid", "timestamp", "stats", "tags", "orig_tags", "server")], D_["trust"](d) == z3.StringVal("distrusted"))

    def dis_files(c, v, t, n, strict=True):
        """metadata of these revisions is saved anew, no other file changes"""
        q = bound("q", P)
        k = bound("k", z3.IntSort())
        el = lambda k: S(LREVS.arr(t), k)
        a, b = c.pre.g("files"), v.g("files")
        new = z3.Exists([k], And(0 <= k, k < n, rev_path(c.pre, el(k)) == q, noted_doc(c, el(k), S(TFiles.val(b), q))))
        same = And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), Imp(S(TFiles.dom(a), q), S(TFiles.val(b), q) == S(TFiles.val(a), q)))
        lf = lockfile(c.pre.f("Repository", "path", c.a("self")), ".backup")
        skip = And(Not(c.a("skip_lock")), q == lf)
        if strict:
            return FA([q], Or(skip, same, And(S(TFiles.dom(b), q), new)), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])
        return FA([q], Imp(And(S(TFiles.dom(a), q), Not(skip)), And(S(TFiles.dom(b), q), Or(S(TFiles.val(b), q) == S(TFiles.val(a), q), new))), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])

    DIS_RAISED = ("metadata of these revisions may be saved anew, all other files are there", lambda c: dis_files(c, c.post, c.a("revs"), LREVS.len(c.a("revs")), False))
    DIS_MOD = ("metadata of these revisions is saved anew, no other file changes", lambda c: dis_files(c, c.post, c.a("revs"), LREVS.len(c.a("revs"))))
    u.contract("repository:Repository.distrust", [("self", R("Repository")), ("revs", LREVS), ("skip_lock", TBool)], defaults={"skip_lock": False},
               requires=[("revisions of this repository", lambda c: own(c, c.a("revs"))), ("the lock is not held already", lambda c: Or(c.a("skip_lock"), unlocked(c.pre, c.a("self"), ".backup")))],
               modifies=[("ghost", "files"), "alloc", ("heap", "Revision", "trust")],
               ensures=[("all of them are local, distrusted, and saved as such", dis_post), ("no other trust state has changed", dis_others), DIS_MOD],
               raises=[("OSError", None, [("trust is only ever lost", trust_only_down), DIS_RAISED]), ("AssertionError", lambda c: exists_int(lambda k: And(0 <= k, k < LREVS.len(c.a("revs")), c.pre.f("Revision", "server", S(LREVS.arr(c.a("revs")), k)) != z3.StringVal(""))), [("trust is only ever lost", trust_only_down)])],
               loops={0: dis_inv}, always=[held_clause(skip=lambda c: c.a("skip_lock"))])

    # ------------------------------------------------------------------ rm
    def from_hist(c, t):
        """revisions of the history (as it was)"""
        h = Hist(c.pre, c.a("self"))
        return forall_int(lambda k: Imp(And(0 <= k, k < LREVS.len(t)), exists_int(lambda i: And(h.rng(i), h.at(i) == S(LREVS.arr(t), k)))), pats=lambda k: [S(LREVS.arr(t), k)])

    def gone(pre, post, r):
        """local: no metadata file; remote: a file without tags"""
        p = rev_path(pre, r)
        return z3.If(pre.f("Revision", "server", r) == z3.StringVal(""), Not(exists_file(post, p)), And(exists_file(post, p), D_["tags"](content(post, p)) == SetStr.empty()))

    def rm_post(c, v, t, n, force=False):
        el = lambda k: S(LREVS.arr(t), k)
        return forall_int(lambda k: Imp(And(0 <= k, k < n), gone(c.pre, v, el(k))), pats=lambda k: [el(k)])

    def untouched(c, v, t, n):
        """files of other revisions are unchanged"""
        el = lambda k: S(LREVS.arr(t), k)
        a, b = c.pre.g("files"), v.g("files")
        q = bound("q", P)
        touched = exists_int(lambda k: And(0 <= k, k < n, rev_path(c.pre, el(k)) == q))
        return FA([q], Imp(And(Not(touched), q != lockfile(c.pre.f("Repository", "path", c.a("self")), ".backup")), And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), Imp(S(TFiles.dom(a), q), S(TFiles.val(b), q) == S(TFiles.val(a), q)))), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])

    def kept(c, v, t, n):
        """files of other revisions which existed are unchanged (a temporary file may be left)"""
        el = lambda k: S(LREVS.arr(t), k)
        a, b = c.pre.g("files"), v.g("files")
        q = bound("q", P)
        touched = exists_int(lambda k: And(0 <= k, k < n, rev_path(c.pre, el(k)) == q))
        return FA([q], Imp(And(Not(touched), q != lockfile(c.pre.f("Repository", "path", c.a("self")), ".backup"), S(TFiles.dom(a), q)), And(S(TFiles.dom(b), q), S(TFiles.val(b), q) == S(TFiles.val(a), q))), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])

    def only_lost(c):
        """histories of other repositories are unchanged"""
        q = bound("q", z3.IntSort())
        return And(*[FA([q], Imp(q != c.a("self"), S(c.post.arr("Repository", f), q) == S(c.pre.arr("Repository", f), q)), [S(c.post.arr("Repository", f), q)]) for f in ("history", "_by_uuid")])

    def others_inv(L):
        c = L.vc.ctx
        q = bound("q", z3.IntSort())
        return And(*[FA([q], Imp(q != c.a("self"), S(L.now.arr("Repository", f), q) == S(L.pre.arr("Repository", f), q)), [S(L.now.arr("Repository", f), q)]) for f in ("history", "_by_uuid")])

    def rm_inv(L):
        c = L.vc.ctx
        t = c.a("revs")
        return [("history well-formed", wf_hist(L.now, c.a("self"))),
                ("revisions passed are gone", rm_post(c, L.now, t, L.k)),
                ("files of others are unchanged", untouched(c, L.now, t, L.k)),
                ("other repositories are unchanged", others_inv(L))]

    RMMOD = [("ghost", "files"), "alloc", ("heap", "Repository", "history"), ("heap", "Repository", "_by_uuid"), ("heap", "Revision", "tags")]
    u.contract("repository:Repository.rm", [("self", R("Repository")), ("revs", LREVS)],
               requires=[free, ("history well-formed", lambda c: wf_hist(c.pre, c.a("self"))), ("revisions of the history", lambda c: from_hist(c, c.a("revs"))), ("revisions of this repository", lambda c: own(c, c.a("revs")))],
               modifies=RMMOD,
               ensures=[("local ones are gone, remote ones lose their tags", lambda c: rm_post(c, c.post, c.a("revs"), LREVS.len(c.a("revs")))),
                        ("no other metadata has changed", lambda c: untouched(c, c.post, c.a("revs"), LREVS.len(c.a("revs")))), ("history well-formed", lambda c: wf_hist(c.post, c.a("self")))],
               raises=[("OSError", None, [("files of other revisions are unchanged", lambda c: kept(c, c.post, c.a("revs"), LREVS.len(c.a("revs"))))])],
               loops={0: rm_inv}, always=[held_clause()])

    u.ns = dict(locals())
    return m
