"""Expiry of revisions (C12)."""
from types import SimpleNamespace

from .specs import *  # noqa
from . import specs
from pyvc.ty import TMap

TT0 = TMap(TInt, SetStr)
TTL = TMap(TStr, LRev)
TEN = TMap(TStr, TMap(TInt, TInt))


def setup(u):
    m = specs.setup(u)
    N = SimpleNamespace(**u.ns)
    # What expire() sees: the history and its tags as read from disk, and for
    # each tag of the schedule the list of revisions with this tag, with its
    # enumeration (position in the list -> position in the history and back).
    m.ghosts.update({"scanned": LRev, "tags0": TT0, "taglist": TTL, "tag_e": TEN, "tag_i": TEN})
    at_repo = lambda c: "repository" not in c.args
    repo = lambda c: c.a("self") if at_repo(c) else c.a("repository")
    sched = lambda c: c.pre.f("Schedule", "schedule", c.pre.f("Repository", "schedule", c.a("self")) if at_repo(c) else c.a("self"))
    lockf = lambda c: lockfile(c.pre.f("Repository", "path", repo(c)), ".backup")
    not_lock = lambda c, p: p != lockf(c) if at_repo(c) else z3.BoolVal(True)
    dom = lambda t, x: S(TSched.dom(t), x)
    keep = lambda t, x: TSpec.val(S(TSched.val(t), x), "keep")
    iv = lambda t, x: TSpec.val(S(TSched.val(t), x), "interval")
    STR, INT = z3.StringSort(), z3.IntSort()
    n, at = LR.len, lambda t, k: S(LR.arr(t), k)

    def wf_schedule(c):
        t = sched(c)
        return forall(STR, lambda x: Imp(dom(t, x), And(TSpec.has(S(TSched.val(t), x), "interval"), TSpec.has(S(TSched.val(t), x), "keep"), iv(t, x) > 0, keep(t, x) >= 1)), pats=lambda x: [S(TSched.dom(t), x)])

    def plain_tags(c):
        t = sched(c)
        return forall(STR, lambda x: Imp(dom(t, x), plain(z3.Concat(sv_("tag:"), x))), pats=lambda x: [S(TSched.dom(t), x)])

    # ------------------------------------------------------------ pieces
    def rng(v, i):
        return And(0 <= i, i < n(v.g("scanned")))

    def rev(v, i):
        return at(v.g("scanned"), i)

    def tags0(v, i):
        return S(v.g("tags0"), rev(v, i))

    def had(v, i, x):
        return S(tags0(v, i), x)

    def tags(v, i):
        return v.f("Revision", "tags", rev(v, i))

    def has(v, i, x):
        return S(tags(v, i), x)

    def tl_n(v, x):
        return n(S(v.g("taglist"), x))

    def tl_at(v, x, k):
        return at(S(v.g("taglist"), x), k)

    def te(v, x, k):
        return S(S(v.g("tag_e"), x), k)

    def ti(v, x, i):
        return S(S(v.g("tag_i"), x), i)

    def enumerated(v, x):
        """taglist[x] is the list of the scanned revisions which had the tag, in order"""
        i, j = bound("i", INT), bound("j", INT)
        N_ = n(v.g("scanned"))
        return And(tl_n(v, x) >= 0,
                   FA([i], Imp(And(0 <= i, i < tl_n(v, x)), And(0 <= te(v, x, i), te(v, x, i) < N_, tl_at(v, x, i) == rev(v, te(v, x, i)), had(v, te(v, x, i), x), ti(v, x, te(v, x, i)) == i)), [tl_at(v, x, i), te(v, x, i)]),
                   FA([i, j], Imp(And(0 <= i, i < j, j < tl_n(v, x)), te(v, x, i) < te(v, x, j)), [z3.MultiPattern(te(v, x, i), te(v, x, j))]),
                   FA([j], Imp(And(0 <= j, j < N_, had(v, j, x)), And(0 <= ti(v, x, j), ti(v, x, j) < tl_n(v, x), te(v, x, ti(v, x, j)) == j)), [ti(v, x, j), rev(v, j)]))

    def surplus(v, t, x, i):
        """there are at least keep newer revisions with this tag"""
        return ti(v, x, i) < tl_n(v, x) - keep(t, x)

    def decided(c, v, t, x, i):
        """a tag is dropped exactly if it is surplus and older than keep intervals (when looked at)"""
        ts = v.f("Revision", "timestamp", rev(v, i))
        age = lambda clock: clock - z3.ToReal(keep(t, x)) * iv(t, x)
        return Imp(had(v, i, x), And(Imp(Not(has(v, i, x)), And(surplus(v, t, x, i), ts < age(v.g("clock")))),
                                     Imp(has(v, i, x), Not(And(surplus(v, t, x, i), ts < age(c.pre.g("clock")))))))

    def saved_all(v, upto=None, skip=lambda i: z3.BoolVal(False)):
        return forall_int(lambda i: Imp(And(rng(v, i), Not(skip(i))), And(exists_file(v, rev_path(v, rev(v, i))), saved(v, rev(v, i), content(v, rev_path(v, rev(v, i)))))), pats=lambda i: [rev(v, i)])

    def other_files(c, v):
        p = bound("p", P)
        f, g = c.pre.g("files"), v.g("files")
        ours = exists_int(lambda i: And(rng(v, i), rev_path(v, rev(v, i)) == p))
        return FA([p], Imp(And(not_lock(c, p), Not(ours)), N.same_file(c.pre, v, p)), [S(TFiles.dom(g), p), S(TFiles.val(g), p)])

    def faithful(c, v):
        """each scanned revision is what its metadata file said"""
        def f(i):
            r = rev(v, i)
            p = REVP(c.pre.f("Repository", "path", repo(c)), v.f("Revision", "uuid", r))
            d = content(c.pre, p)
            g = lambda a: v.f("Revision", a, r)
            return Imp(rng(v, i), And(rev_file(c.pre, repo(c), p), g("uuid") == D_["uuid"](d), g("timestamp") == D_["timestamp"](d), tags0(v, i) == D_["tags"](d),
                                      g("stats") == D_["stats"](d), g("orig_tags") == D_["orig_tags"](d), trust_value(g("trust")) == D_["trust"](d), g("server") == D_["server"](d), g("repository") == repo(c)))
        return forall_int(f, pats=lambda i: [rev(v, i)])

    def represented(c, v):
        p = bound("p", P)
        return FA([p], Imp(rev_file(c.pre, repo(c), p), exists_int(lambda i: And(rng(v, i), v.f("Revision", "uuid", rev(v, i)) == D_["uuid"](content(c.pre, p))))), [S(TFiles.dom(c.pre.g("files")), p)])

    def distinct(v):
        i, j = bound("i", INT), bound("j", INT)
        return FA([i, j], Imp(And(rng(v, i), rng(v, j), i != j), And(rev(v, i) != rev(v, j), v.f("Revision", "uuid", rev(v, i)) != v.f("Revision", "uuid", rev(v, j)))), [z3.MultiPattern(rev(v, i), rev(v, j))])

    def in_time(v):
        i, j = bound("i", INT), bound("j", INT)
        ts = lambda i: v.f("Revision", "timestamp", rev(v, i))
        return FA([i, j], Imp(And(rng(v, i), rng(v, j), i < j), ts(i) <= ts(j)), [z3.MultiPattern(rev(v, i), rev(v, j))])

    BASE = lambda c, v: [
        ("scanned revisions are as on disk", faithful(c, v)), ("scanned revisions differ", distinct(v)), ("scanned in order of time", in_time(v)),
        ("no tag appears", (lambda i, x: FA([i, x], Imp(And(rng(v, i), has(v, i, x)), had(v, i, x)), [has(v, i, x)]))(bound("i", INT), bound("x", STR))),
        ("no other file changes", other_files(c, v))]

    # ------------------------------------------------------- ghost code
    def at_scan(x):
        it = x.it
        it.set_ghost("scanned", x.post.f("Repository", "history", x.a("self")))
        it.set_ghost("tags0", x.post.arr("Revision", "tags"))

    def at_find(x):
        it = x.it
        l, tag = specs.lit_prefix(x.a("spec"))
        if l != "tag:" or tag is None:
            raise Unsupported("expected a search for a tag")
        e, i = enumeration(x, x.res, H(x))
        it.fresh_n += 1
        A = [z3.Const(f"ghost_{n_}!{it.fresh_n}", z3.ArraySort(INT, INT)) for n_ in "ei"]
        k = bound("k", INT)
        for a, f in zip(A, (e, i)):
            it.assume(FA([k], S(a, k) == f(k), [S(a, k), f(k)]))
        it.set_ghost("taglist", z3.Store(it.get_ghost("taglist"), tag, x.res))
        it.set_ghost("tag_e", z3.Store(it.get_ghost("tag_e"), tag, A[0]))
        it.set_ghost("tag_i", z3.Store(it.get_ghost("tag_i"), tag, A[1]))

    H = lambda c: c.pre.f("Repository", "history", c.a("self"))

    # ------------------------------------------------------- invariants
    def hist_same(c, v):
        return And(v.f("Repository", "history", repo(c)) == v.g("scanned"), N.wf_hist(v, repo(c)))

    def p1_inv(L):
        c, v = L.vc.ctx, L.now
        t = sched(c)
        done = lambda x: And(dom(t, x), L.seq0.keys.idx(x) < L.k)
        i, x = bound("i", INT), bound("x", STR)
        return BASE(c, v) + [
            ("saved", saved_all(v)), ("history unchanged", hist_same(c, v)),
            ("lists of tags passed", FA([x], Imp(done(x), enumerated(v, x)), [L.seq0.keys.idx(x)]), lambda x: [L.seq0.keys.idx(x) == L.k - 1, L.seq0.keys.idx(x) < L.k - 1]),
            ("other tags stay", FA([i, x], Imp(And(rng(v, i), had(v, i, x), Not(done(x))), has(v, i, x)), [had(v, i, x)])),
            ("tags passed are decided", FA([i, x], Imp(And(rng(v, i), done(x)), decided(c, v, t, x, i)), [z3.MultiPattern(rev(v, i), L.seq0.keys.idx(x))])),
            ("time passes", v.g("clock") >= c.pre.g("clock"))]

    def p1_inner(L):
        c, v, e = L.vc.ctx, L.now, L.entry
        x0, thr = L.local("tag", TStr), L.local("keep_threshold", TDate)
        i, x = bound("i", INT), bound("x", STR)
        ts = lambda i: v.f("Revision", "timestamp", rev(v, i))
        dropped = lambda i: And(had(v, i, x0), ti(v, x0, i) < L.k, ts(i) < thr)
        return BASE(c, v) + [
            ("saved", saved_all(v)), ("history unchanged", hist_same(c, v)),
            ("other tags stay", FA([i, x], Imp(And(rng(v, i), x != x0), has(v, i, x) == has(e, i, x)), [has(v, i, x)])),
            ("the tag is dropped from those passed", FA([i], Imp(And(rng(v, i), had(v, i, x0)), has(v, i, x0) == Not(dropped(i))), [rev(v, i)]))]

    def p2_inv(L):
        c, v, e = L.vc.ctx, L.now, L.entry
        t = sched(c)
        i, x = bound("i", INT), bound("x", STR)
        gone = lambda x: And(Not(is_manual(x)), Not(dom(t, x)))
        return BASE(c, v) + [
            ("saved", saved_all(v)), ("history unchanged", hist_same(c, v)),
            ("revisions passed", FA([i, x], Imp(And(rng(v, i), i < L.k), has(v, i, x) == And(has(e, i, x), Not(gone(x)))), [has(v, i, x)])),
            ("others", FA([i, x], Imp(And(rng(v, i), i >= L.k), has(v, i, x) == has(e, i, x)), [has(v, i, x)]))]

    empty = lambda v, i: tags(v, i) == SetStr.empty()
    is_local = lambda v, i: v.f("Revision", "server", rev(v, i)) == sv_("")

    def gone_file(v, i):
        return Not(exists_file(v, rev_path(v, rev(v, i))))

    def res_is(v, t, hi):
        """the list holds the revisions without tags, in order"""
        r, k, l = bound("r", INT), bound("k", INT), bound("l", INT)
        return (n(t) >= 0,
                   FA([k], Imp(And(0 <= k, k < n(t)), exists_int(lambda i: And(0 <= i, i < hi, rev(v, i) == at(t, k), empty(v, i)))), [at(t, k)]),
                   FA([r], Imp(And(0 <= r, r < hi, empty(v, r)), exists_int(lambda k: And(0 <= k, k < n(t), at(t, k) == rev(v, r)))), [rev(v, r)]))

    def p3_inv(L):
        c, v, e = L.vc.ctx, L.now, L.entry
        i = bound("i", INT)
        skip = lambda i: And(i < L.k, empty(v, i), is_local(v, i))
        return BASE(c, v) + [
            ("tags stay", FA([i], Imp(rng(v, i), tags(v, i) == tags(e, i)), [tags(v, i)])),
            ("saved", saved_all(v, skip=skip)), ("history well-formed", N.wf_hist(v, repo(c))),
            ("removed ones are gone", FA([i], Imp(And(rng(v, i), skip(i)), gone_file(v, i)), [rev(v, i)])),
            ("only removed ones are returned", And(*res_is(v, L.local("removed", LR), L.k)[:2])),
            ("removed ones are returned", res_is(v, L.local("removed", LR), L.k)[2], lambda r: [r == L.k - 1, r < L.k - 1])]

    def tag_post(c):
        v, t = c.post, sched(c)
        i, x = bound("i", INT), bound("x", STR)
        return And(FA([i, x], Imp(And(rng(v, i), dom(t, x)), decided(c, v, t, x, i)), [z3.MultiPattern(rev(v, i), dom(t, x))]),
                   FA([i, x], Imp(And(rng(v, i), had(v, i, x), Not(dom(t, x)), is_manual(x)), has(v, i, x)), [had(v, i, x)]),
                   FA([i, x], Imp(And(rng(v, i), Not(dom(t, x)), has(v, i, x)), is_manual(x)), [has(v, i, x)]))

    def file_post(c):
        v = c.post
        i = bound("i", INT)
        p = lambda i: rev_path(v, rev(v, i))
        return FA([i], Imp(rng(v, i), z3.If(And(empty(v, i), is_local(v, i)), gone_file(v, i), And(exists_file(v, p(i)), saved(v, rev(v, i), content(v, p(i)))))), [rev(v, i)])

    def lists_post(c):
        v, x = c.post, bound("x", STR)
        return FA([x], Imp(dom(sched(c), x), enumerated(v, x)), [dom(sched(c), x)])

    B = ["scanned revisions are as on disk", "scanned revisions differ", "scanned in order of time", "no tag appears", "no other file changes"]
    ENS = [(b, lambda c, k=k: BASE(c, c.post)[k][1]) for k, b in enumerate(B)] + [
        ("each metadata file is represented", lambda c: represented(c, c.post)),
        ("lists of revisions by tag", lists_post),
        ("a tag of the schedule is dropped exactly from surplus old revisions, other tags exactly if they are not manual", tag_post),
        ("local revisions without tags are gone, all others are saved", file_post),
        ("history well-formed", lambda c: N.wf_hist(c.post, repo(c)))]
    REQ = [("schedule well-formed", wf_schedule), ("tags are plain names", plain_tags), ("metadata files are well-formed and named by their UUID", lambda c: wf_dir(c.pre, repo(c)))]
    MOD = [("ghost", x) for x in ("files", "clock", "scanned", "tags0", "taglist", "tag_e", "tag_i")] + N.SCANMOD
    u.contract("schedule:Schedule.expire", [("self", R("Schedule")), ("repository", R("Repository"))], ret=LR,
               requires=REQ, modifies=MOD,
               ensures=ENS + [("revisions without tags are returned", lambda c: And(*res_is(c.post, c.res, n(c.post.g("scanned")))))],
               raises=[("OSError", None, [])],
               ghost_code={"repository:Repository.scan": at_scan, "repository:Repository.find_revisions": at_find},
               loops={0: p1_inv, 1: p1_inner, 2: p2_inv, 3: p3_inv}, locals={"removed": LR})
    u.contract("repository:Repository.expire", [("self", R("Repository"))], requires=REQ + N.NORMAL[:1] + N.NORMAL[2:], modifies=MOD, ensures=ENS, raises=[("OSError", None, [])],
               always=[N.held_clause()])

    # --------------------------------------------------------------- tags
    m.ghosts["selected"] = LRev
    OSet = TOpt(SetStr)
    ACTIONS = ("set", "add", "remove")

    def at_select(x):
        x.it.set_ghost("selected", x.res)

    sel = lambda v, k: at(v.g("selected"), k)
    seln = lambda v: n(v.g("selected"))
    old = lambda v, r: S(v.g("tags0"), r)
    cur = lambda v, r: v.f("Revision", "tags", r)

    def picked(c, v, r):
        """the specifier's condition, on the revisions as read from disk"""
        s = c.a("revision")
        f = lambda name, r: S(v.g("tags0"), r) if name == "tags" else v.f("Revision", name, r)
        t = z3.BoolVal(False)
        for k, p in reversed(N.leaf_of(s, f)):
            t = z3.If(k, p(r), t)
        return t

    def selection(c, v):
        """exactly the revisions which match the specifier"""
        s = c.a("revision")
        many = Or(*[k for k, _ in N.leaf_of(s, lambda name, r: v.f("Revision", name, r))])
        k, i = bound("k", INT), bound("i", INT)
        return Imp(many, And(seln(v) >= 0, FA([k], Imp(And(0 <= k, k < seln(v)), And(picked(c, v, sel(v, k)), exists_int(lambda i: And(rng(v, i), rev(v, i) == sel(v, k))))), [sel(v, k)]),
                             FA([i], Imp(And(rng(v, i), picked(c, v, rev(v, i))), exists_int(lambda k: And(0 <= k, k < seln(v), sel(v, k) == rev(v, i)))), [rev(v, i)])))

    def one(c, v):
        """or the single revision named by it"""
        s = c.a("revision")
        many = Or(*[k for k, _ in N.leaf_of(s, lambda name, r: v.f("Revision", name, r))])
        return Imp(Not(many), And(seln(v) == 1, exists_int(lambda i: And(rng(v, i), rev(v, i) == sel(v, z3.IntVal(0))))))

    def edited(c, v, r, x):
        """whether a tag is there after the edit"""
        a, t = c.a("action"), S(c.a("tags"), x)
        return z3.If(a == sv_("set"), t, z3.If(a == sv_("add"), Or(S(old(v, r), x), t), And(S(old(v, r), x), Not(t))))

    def chosen(v, r, upto):
        return exists_int(lambda k: And(0 <= k, k < upto, sel(v, k) == r))

    def expected(c, v, upto):
        k = bound("k", INT)
        return Or(OSet.is_none(c.a("expect")), FA([k], Imp(And(0 <= k, k < upto), old(v, sel(v, k)) == OSet.the(c.a("expect"))), [sel(v, k)]))

    def dropped(c, v, r):
        return And(c.a("autoremove"), cur(v, r) == SetStr.empty(), v.f("Revision", "server", r) == sv_(""))

    def on_disk(c, v, r):
        p = rev_path(v, r)
        return z3.If(dropped(c, v, r), Not(exists_file(v, p)), And(exists_file(v, p), saved(v, r, content(v, p))))

    def edits(c, v, upto):
        """tags of the revisions passed, in memory and on disk"""
        k, x = bound("k", INT), bound("x", STR)
        return (FA([k, x], Imp(And(0 <= k, k < upto), S(cur(v, sel(v, k)), x) == edited(c, v, sel(v, k), x)), [S(cur(v, sel(v, k)), x)]),
                   FA([k], Imp(And(0 <= k, k < upto), on_disk(c, v, sel(v, k))), [sel(v, k)]))

    def to_edit(v, done):
        k = bound("k", INT)
        return FA([k], Imp(And(done <= k, k < seln(v)), cur(v, sel(v, k)) == old(v, sel(v, k))), [sel(v, k)])

    def no_edits(c, v, upto):
        i = bound("i", INT)
        p = bound("p", P)
        touched = exists_int(lambda k: And(0 <= k, k < upto, rev_path(v, sel(v, k)) == p))
        f, g = c.pre.g("files"), v.g("files")
        return And(FA([i], Imp(And(rng(v, i), Not(chosen(v, rev(v, i), upto))), cur(v, rev(v, i)) == old(v, rev(v, i))), [rev(v, i)]),
                   FA([p], Imp(And(p != lockf(c), Not(touched)), N.same_file(c.pre, v, p)), [S(TFiles.dom(g), p), S(TFiles.val(g), p)]))

    def nothing(c, v):
        p = bound("p", P)
        return FA([p], Imp(p != lockf(c), N.same_file(c.pre, v, p)), [S(TFiles.dom(v.g("files")), p), S(TFiles.val(v.g("files")), p)])

    SEL = lambda c, v: [("scanned revisions are as on disk", faithful(c, v)), ("scanned revisions differ", distinct(v)), ("exactly the revisions matching", selection(c, v)), ("the single revision", one(c, v)), ("selected revisions differ", differ(v))]

    def differ(v):
        i, j = bound("i", INT), bound("j", INT)
        return FA([i, j], Imp(And(0 <= i, i < j, j < seln(v)), sel(v, i) != sel(v, j)), [z3.MultiPattern(sel(v, i), sel(v, j))])

    def t_expect(L):
        c, v = L.vc.ctx, L.now
        return [("as expected so far", expected(c, v, L.k))]

    def t_edit(L):
        c, v = L.vc.ctx, L.now
        return SEL(c, v) + [("the tags given stay", L.local("tags", SetStr) == c.a("tags")), ("all as expected", expected(c, v, seln(v))), ("history well-formed", N.wf_hist(v, repo(c))),
                            ("a valid action", Or(L.k == 0, *[c.a("action") == sv_(x) for x in ACTIONS])), ("to be edited", to_edit(v, L.k)),
                            ("edited", edits(c, v, L.k)[0], lambda k, x: [And(k == L.k - 1, x == x), k < L.k - 1]), ("edits are on disk", edits(c, v, L.k)[1], lambda k: [k == L.k - 1, k < L.k - 1]), ("others unchanged", no_edits(c, v, L.k))]

    def unknown(c):
        t = sched(c)
        return exists(STR, lambda x: And(S(c.a("tags"), x), Not(is_manual(x)), Not(dom(t, x))))

    TAGMOD = [("ghost", x) for x in ("files", "scanned", "tags0", "selected")] + N.SCANMOD
    unchanged = ("no metadata has changed", lambda c: nothing(c, c.post))
    u.contract("repository:Repository.tags", [("self", R("Repository")), ("action", TStr), ("revision", TStr), ("tags", SetStr), ("expect", OSet), ("autoremove", TBool), ("force", TBool)], ret=TBool,
               defaults={"expect": None, "autoremove": False, "force": False},
               requires=REQ[2:] + N.NORMAL[:1] + N.NORMAL[2:] + [("a single specifier", lambda c: plain(c.a("revision")))], modifies=TAGMOD,
               ensures=[(b, lambda c, k=k: SEL(c, c.post)[k][1]) for k, b in enumerate(["scanned revisions are as on disk", "scanned revisions differ", "exactly the revisions matching", "the single revision", "selected revisions differ"])] + [
                   ("refused exactly if the tags are not as expected", lambda c: c.res == expected(c, c.post, seln(c.post))),
                   ("refused: nothing changes", lambda c: Imp(Not(c.res), nothing(c, c.post))),
                   ("unknown tags are not accepted", lambda c: Or(c.a("force"), c.a("action") == sv_("remove"), Not(unknown(c)))),
                   ("the selected revisions have the tags asked for, on disk, or are gone", lambda c: Imp(c.res, And(*edits(c, c.post, seln(c.post))))),
                   ("nothing else changes", lambda c: Imp(c.res, no_edits(c, c.post, seln(c.post))))],
               raises=[("RuntimeError", lambda c: And(Not(c.a("force")), c.a("action") != sv_("remove"), unknown(c)), [unchanged]),
                       ("ValueError", None, [unchanged]), ("KeyError", None, [unchanged]), ("IndexError", None, [unchanged]), ("BlockingIOError", None, [unchanged]), ("OSError", None, [])],
               ghost_code={"repository:Repository.scan": at_scan, "repository:Repository.find_revisions": at_select},
               loops={0: t_expect, 1: t_edit}, always=[N.held_clause()])
    u.ns.update(locals())
    return m
