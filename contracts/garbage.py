"""Collecting garbage and verifying revisions (C07, C08, C09)."""
from pyvc.verify import View

from .hist import *  # noqa
from . import chunked, hist
from .chunked import HASH, ISH, TMapI, chunkp, HOFP

sv_ = z3.StringVal
MAPD = z3.Function("map_of_image", TCont.sort(), TMapI.sort())  # what File.__init__ makes of a map file
OREV = TOpt(R("Revision"))


def setup(u, m=None):
    m = m or hist.setup(u)
    keep = {n: dict(getattr(m, n)) for n in ("ext", "builtins", "stubs", "opq_methods")}
    chunked.setup(u, m)
    for n, d in keep.items():
        getattr(m, n).update(d)
    N = SimpleNamespace(**u.ns)
    m.fields.update({("RBDSource", "repository"): R("Repository"), ("RBDSource", "ceph_rbd"): R("CephRBD"), ("RBDSource", "store"): R("Store")})
    SRC = "rbd:RBDSource."
    me = lambda c: c.a("self")
    repo = lambda v, c: v.f("RBDSource", "repository", me(c))
    rpath = lambda v, c: v.f("Repository", "path", repo(v, c))
    store = lambda v, c: v.f("RBDSource", "store", me(c))
    imgpath = lambda v, c, r: JOIN(rpath(v, c), v.f("Revision", "uuid", r))
    FIELDS = ["name", "store", "stats", "closed", "_position", "_access_stats", "mode", "_mapping", "size", "_chunks"]
    FMOD = [("heap", "File", f) for f in FIELDS]

    # the map loaded is a function of the contents of the file
    fi = u.contracts["rbd.chunked.file:File.__init__"]
    fi.trusted = True
    fi.ensures = list(fi.ensures) + [("the map is what the file says", lambda c: Imp(exists_file(c.pre, c.a("name")), c.post.f("File", "_mapping", me(c)) == MAPD(content(c.pre, c.a("name")))))]

    # --------------------------------------------------------------- open
    writes = lambda c: Or(z3.Contains(c.a("mode"), sv_("w")), z3.Contains(c.a("mode"), sv_("+")), z3.Contains(c.a("mode"), sv_("a")))
    old_files = lambda c: And(*[N_same(c, f) for f in FIELDS])

    def N_same(c, f):
        q = bound("q", z3.IntSort())
        return FA([q], Imp(And(0 <= q, q < c.pre.alloc), S(c.post.arr("File", f), q) == S(c.pre.arr("File", f), q)), [S(c.post.arr("File", f), q)])

    def distrusted(c):
        h = Hist(c.pre, repo(c.pre, c))
        return exists_int(lambda k: And(h.rng(k), h.complete(k), h.f("server", k) == sv_(""), h.f("trust", k) == 1))

    def op_force(c):
        a, b = c.pre.arr("Store", "force_writes"), c.post.arr("Store", "force_writes")
        s = store(c.pre, c)
        return b == z3.If(And(writes(c), distrusted(c)), z3.Store(a, s, True), a)

    RONLY = ("opened for reading", lambda c: And(c.a("mode") == sv_("rb"), OREV.is_none(c.a("parent"))))
    u.contract(SRC + "open", [("self", R("RBDSource")), ("revision", R("Revision")), ("mode", TStr), ("parent", OREV)], ret=R("File"), defaults={"mode": "rb", "parent": None},
               requires=[RONLY],
               modifies=["alloc", ("heap", "Store", "force_writes")] + FMOD,
               ensures=[("a new file object", lambda c: And(c.res == c.pre.alloc, c.post.alloc == c.res + 1)),
                        ("with the map of the revision", lambda c: And(exists_file(c.pre, imgpath(c.pre, c, c.a("revision"))), c.post.f("File", "_mapping", c.res) == MAPD(content(c.pre, imgpath(c.pre, c, c.a("revision")))))),
                        ("writes are forced if a complete local revision is distrusted", op_force), ("other file objects are unchanged", old_files)],
               raises=[(e, None, [("writes are as before", lambda c: c.post.arr("Store", "force_writes") == c.pre.arr("Store", "force_writes"))]) for e in ("OSError", "FileNotFoundError", "ValueError")])

    # for writing: the image of the parent, if there is one, is where it begins
    p_open0 = m.opq_methods[TPath.name, "open"]
    m.opq_methods[TPath.name, "open"] = lambda it, v, a, k: chunked.open_(it, [v] + list(a), k) if a and it.force(a[0]) in ("rb", "wb") else p_open0(it, v, a, k)
    cc = z3.Const("gc_c", TCont.sort())
    copy_of = lambda x: APP(EMPTY, chunked.ENCB(chunked.RAWB(x)))
    # a file with the same bytes has the same map
    u.axioms.append(lambda it, pre: [FA([cc], MAPD(copy_of(cc)) == MAPD(cc), [copy_of(cc)])])

    def begins(c):
        v, f = c.pre, imgpath(c.pre, c, c.a("revision"))
        mp = c.post.f("File", "_mapping", c.res)
        i = bound("i", z3.IntSort())
        par = OREV.the(c.a("parent"))
        pf = imgpath(v, c, par)
        return z3.If(exists_file(v, f), mp == MAPD(content(v, f)), z3.If(OREV.is_none(c.a("parent")), FA([i], Not(S(TMapI.dom(mp), i)), [S(TMapI.dom(mp), i)]), And(exists_file(v, pf), mp == MAPD(content(v, pf)))))

    def others_open(c):
        return other_files_same(c.pre, c.post, imgpath(c.pre, c, c.a("revision")))

    u.contract(SRC + "open#write", [("self", R("RBDSource")), ("revision", R("Revision")), ("mode", TStr), ("parent", OREV)], ret=R("File"), defaults={"mode": "rb", "parent": None},
               requires=[("opened for writing", lambda c: c.a("mode") == sv_("wb")), ("the parent is another revision", lambda c: Or(OREV.is_none(c.a("parent")), imgpath(c.pre, c, OREV.the(c.a("parent"))) != imgpath(c.pre, c, c.a("revision"))))],
               modifies=["alloc", ("ghost", "files"), ("heap", "Store", "force_writes")] + FMOD,
               ensures=[("a new file object", lambda c: And(c.res == c.pre.alloc, c.post.alloc == c.res + 1)), ("it begins with the image of the parent", begins),
                        ("writes are forced if a complete local revision is distrusted", op_force), ("other file objects are unchanged", old_files), ("no other file changes", others_open)],
               raises=[(e, None, [("writes are as before", lambda c: c.post.arr("Store", "force_writes") == c.pre.arr("Store", "force_writes")), ("no other file changes", others_open)]) for e in ("OSError", "FileNotFoundError", "ValueError")])

    # ----------------------------------------------------------------- gc
    # A repository of this source: its metadata files are well-formed, the
    # lock file and the note that garbage awaits collection are none of them,
    # and no image or chunk.
    purgelock = lambda v, c: lockfile(rpath(v, c), ".purge")
    SCANMOD = N.SCANMOD

    pending = lambda v, c: JOIN(rpath(v, c), sv_(".purge_pending"))

    def images_apart(c):
        x = bound("x", z3.StringSort())
        img = JOIN(rpath(c.pre, c), x)
        return And(Not(IS_REV(purgelock(c.pre, c))), Not(IS_REV(pending(c.pre, c))), Not(chunked.IS_CHN(purgelock(c.pre, c))), FA([x], Imp(exists_file(c.pre, REVP(rpath(c.pre, c), x)), And(img != purgelock(c.pre, c), Not(IS_REV(img)), Not(chunked.IS_CHN(img)))), [REVP(rpath(c.pre, c), x)]))

    PRE = [("metadata files are well-formed and named by their UUID", lambda c: wf_dir(c.pre, repo(c.pre, c))),
           ("lock files are neither metadata nor images", images_apart),
           ("files of chunks have the names of their hashes", lambda c: N.wf_store(c.pre, store(c.pre, c))),
           ("the store is the repository's", lambda c: c.pre.f("Store", "path", store(c.pre, c)) == JOIN(rpath(c.pre, c), sv_("chunks"))),
           ("the lock is not held already", lambda c: unlocked(c.pre, repo(c.pre, c), ".purge"))]

    def refers(cont, h):
        """the map in this file refers to the chunk"""
        i = bound("i", z3.IntSort())
        mp = MAPD(cont)
        return z3.Exists([i], And(S(TMapI.dom(mp), i), S(TMapI.val(mp), i) == h))

    def needed(v, c, h):
        """a local revision on the disk refers to it"""
        p = bound("p", P)
        d = content(v, p)
        return z3.Exists([p], And(rev_file(v, repo(v, c), p), D_["server"](d) == sv_(""), refers(content(v, JOIN(rpath(v, c), D_["uuid"](d))), h)))

    def has_chunk(v, c, h):
        return exists_file(v, chunkp(c.pre.f("Store", "path", store(c.pre, c)), h))

    def gc_keeps(c):
        """no chunk which a local revision refers to vanishes"""
        p, i = bound("p", P), bound("i", z3.IntSort())
        v = c.pre
        d = content(v, p)
        mp = MAPD(content(v, JOIN(rpath(v, c), D_["uuid"](d))))
        h = S(TMapI.val(mp), i)
        return FA([p, i], Imp(And(rev_file(v, repo(v, c), p), D_["server"](d) == sv_(""), S(TMapI.dom(mp), i), ISH(h), has_chunk(v, c, h)), has_chunk(c.post, c, h)), [z3.MultiPattern(S(TFiles.dom(v.g("files")), p), S(TMapI.dom(mp), i))])

    def gc_removes(c):
        """all others have vanished"""
        h = bound("h", z3.StringSort())
        return FA([h], Imp(And(ISH(h), has_chunk(c.post, c, h)), And(has_chunk(c.pre, c, h), needed(c.pre, c, h))), [ISH(h)])

    def gc_inv(L):
        c = L.vc.ctx
        v = L.now
        TS = TSet(TStr)
        used = L.local("used_chunks", TS)
        s = L.seq0
        el = lambda k: s.get(k).ref
        k, i, h = bound("k", z3.IntSort()), bound("i", z3.IntSort()), bound("h", z3.StringSort())
        mp = lambda k: MAPD(content(L.entry, imgpath(L.entry, c, el(k))))
        return [("chunks of the revisions passed are in use", FA([k, i], Imp(And(0 <= k, k < L.k, S(TMapI.dom(mp(k)), i)), S(used, S(TMapI.val(mp(k)), i))), [z3.MultiPattern(el(k), S(TMapI.dom(mp(k)), i))])),
                ("only these are", FA([h], Imp(S(used, h), z3.Exists([k, i], And(0 <= k, k < L.k, S(TMapI.dom(mp(k)), i), S(TMapI.val(mp(k)), i) == h))), [S(used, h)])),
                ("files are unchanged", v.g("files") == L.entry.g("files")), ("no writes are forced", v.arr("Store", "force_writes") == L.entry.arr("Store", "force_writes")), ("allocation grows", v.alloc >= L.entry.alloc)]

    GCMOD = SCANMOD + FMOD + [("ghost", "files"), ("heap", "Store", "seen"), ("heap", "Repository", "_lock_fds"), ("ghost", "locks"), ("ghost", "lockfd")]
    def only_chunks(c):
        """apart from lock and note, chunks which no local revision refers to are all that vanishes"""
        q = bound("q", P)
        a, b = c.pre.g("files"), c.post.g("files")
        same = And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), S(TFiles.val(b), q) == S(TFiles.val(a), q))
        gone = And(S(TFiles.dom(a), q), Not(S(TFiles.dom(b), q)), chunked.IS_CHN(q))
        return FA([q], Or(q == purgelock(c.pre, c), q == pending(c.pre, c), same, gone), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])

    REST = [("nothing else changes but the lock file and the note", only_chunks), ("existing revisions are unchanged", lambda c: N.old_same(c.pre, c.post))]
    KEEPS = ("no chunk which a local revision refers to vanishes", gc_keeps)
    PRE[-1] = ("the lock is not held already", lambda c: Or(c.a("skip_lock"), unlocked(c.pre, repo(c.pre, c), ".purge")))
    held = N.held_clause(".purge", who=lambda c: repo(c.pre, c))[2]

    def same_locks(c, v):
        """the caller's locks are left alone"""
        q = bound("q", z3.IntSort())
        return And(v.g("locks") == c.pre.g("locks"), v.g("lockfd") == c.pre.g("lockfd"), v.arr("Repository", "_lock_fds") == c.pre.arr("Repository", "_lock_fds"))

    LOCKED = ("files", "files change only while .purge is locked exclusively", lambda c, v: z3.If(c.a("skip_lock"), same_locks(c, v), held(c, v)))
    LEFT = ("the caller's locks are left alone", lambda c: Imp(c.a("skip_lock"), same_locks(c, c.post)))
    u.contract(SRC + "gc", [("self", R("RBDSource")), ("skip_lock", TBool)], defaults={"skip_lock": False}, requires=PRE, always=[LOCKED], modifies=GCMOD,
               ensures=[KEEPS, ("all other chunks have vanished", gc_removes), LEFT] + REST,
               raises=[(e, None, [KEEPS, LEFT] + REST) for e in ("OSError", "RuntimeError", "BlockingIOError", "ValueError", "FileNotFoundError")], loops={0: gc_inv})

    # ------------------------------------------------------------- verify
    rev = lambda c: c.a("revision")
    TS = TSet(TStr)
    VER = m.enum_term("Trust", "VERIFIED")
    u.axioms.append(lambda it, pre: [FA([P1, X1], Not(chunked.IS_CHN(REVP(P1, X1))), [REVP(P1, X1)]), FA([P1], Imp(chunked.IS_CHN(P1), Not(IS_REV(P1))), [chunked.IS_CHN(P1)])])
    P1, X1 = bound("p", P), bound("x", z3.StringSort())
    img = lambda v, c: content(v, imgpath(v, c, rev(c)))

    def trusted_hash(c, h):
        """a complete local revision which has been verified refers to it"""
        v = c.pre
        H = Hist(v, repo(v, c))
        k = bound("k", z3.IntSort())
        return z3.Exists([k], And(H.rng(k), H.complete(k), H.f("server", k) == sv_(""), H.f("trust", k) == VER, refers(content(v, imgpath(v, c, H.at(k))), h)))

    def each_good(c):
        i = bound("i", z3.IntSort())
        mp = MAPD(img(c.pre, c))
        h = S(TMapI.val(mp), i)
        return FA([i], Imp(S(TMapI.dom(mp), i), Or(N.good(c.pre, store(c.pre, c), h), trusted_hash(c, h))), [S(TMapI.dom(mp), i)])

    def found_good(ctx):
        it = ctx.it
        c = it.vc.ctx
        it.vc.prove(it, "only marked as verified if all chunks are intact", each_good(c))
        it.assume(each_good(c))

    def all_good(c):
        """verified: each chunk was read and found intact, or is part of a verified revision"""
        f = rev_path(c.pre, rev(c))
        return Imp(And(exists_file(c.post, f), D_["trust"](content(c.post, f)) == sv_("verified")), Or(And(exists_file(c.pre, f), D_["trust"](content(c.pre, f)) == sv_("verified")), each_good(c)))

    def proper(cn):
        i = bound("i", z3.IntSort())
        return FA([i], Imp(S(TMapI.dom(MAPD(cn)), i), ISH(S(TMapI.val(MAPD(cn)), i))), [S(TMapI.dom(MAPD(cn)), i)])

    def v_chunks(L):
        c = L.vc.ctx
        e, v = L.entry, L.now
        s = L.seq0
        el = lambda k: s.get(k).ref
        k, i, h = bound("k", z3.IntSort()), bound("i", z3.IntSort()), bound("h", z3.StringSort())
        mp = lambda k: MAPD(content(e, imgpath(e, c, el(k))))
        return [("chunks noted belong to verified revisions", FA([h], Imp(S(L.local("verified_chunks", TS), h), z3.Exists([k, i], And(0 <= k, k < L.k, e.f("Revision", "trust", el(k)) == VER, S(TMapI.dom(mp(k)), i), S(TMapI.val(mp(k)), i) == h))), [S(L.local("verified_chunks", TS), h)])),
                ("files are unchanged", v.g("files") == e.g("files")), ("no writes are forced", v.arr("Store", "force_writes") == e.arr("Store", "force_writes")), ("allocation grows", v.alloc >= e.alloc)]

    def v_each(L):
        c = L.vc.ctx
        e, v = L.entry, L.now
        s = L.seq0
        el = lambda k: it_str(L, s.get(k))
        k = bound("k", z3.IntSort())
        i, h = bound("i", z3.IntSort()), bound("h", z3.StringSort())
        mp = MAPD(img(c.pre, c))
        x = S(TMapI.val(mp), i)
        known = L.local("verified_chunks", TS)
        return [("the map has not changed", img(e, c) == img(c.pre, c)),
                ("chunks are known to be intact, have been found intact, or are to be checked", FA([i], Imp(S(TMapI.dom(mp), i), Or(trusted_hash(c, x), N.good(c.pre, store(c.pre, c), x), And(S(s.dom, x), s.idx(x) >= L.k))), [S(TMapI.dom(mp), i)])),
                ("those noted belong to verified revisions", FA([h], Imp(S(known, h), trusted_hash(c, h)), [S(known, h)])),
                ("no errors", Not(L.local("errors", TBool))), ("files are unchanged", v.g("files") == e.g("files")), ("allocation grows", v.alloc >= e.alloc)]

    def it_str(L, x):
        return L.vc.ctx.it.encode(x, TStr)

    def settled(c):
        """afterwards it is verified or gone"""
        f = rev_path(c.pre, rev(c))
        return Or(Not(exists_file(c.post, f)), D_["trust"](content(c.post, f)) == sv_("verified"))

    def stays(c, q):
        """neither the metadata of the revision nor a chunk, lock or note"""
        return And(q != rev_path(c.pre, rev(c)), Not(chunked.IS_CHN(q)), q != purgelock(c.pre, c), q != pending(c.pre, c))

    def others_same(c):
        """no metadata or image of another revision changes"""
        q = bound("q", P)
        a, b = c.pre.g("files"), c.post.g("files")
        return FA([q], Imp(stays(c, q), And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), Imp(S(TFiles.dom(b), q), S(TFiles.val(b), q) == S(TFiles.val(a), q)))), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])

    def before_gc(ctx):
        it = ctx.it
        c, v = it.vc.ctx, View(it, it.st)
        p, h = bound("p", P), bound("h", z3.StringSort())
        d, d1 = content(c.pre, p), content(v, p)
        ip = lambda d: JOIN(rpath(c.pre, c), D_["uuid"](d))
        l1 = FA([p], Imp(And(rev_file(c.pre, repo(c.pre, c), p), p != rev_path(c.pre, rev(c))), And(rev_file(v, repo(c.pre, c), p), d1 == d)), [S(TFiles.dom(c.pre.g("files")), p)])
        l2 = FA([p], Imp(And(rev_file(c.pre, repo(c.pre, c), p), p != rev_path(c.pre, rev(c)), exists_file(c.pre, ip(d))), content(v, ip(d1)) == content(c.pre, ip(d))), [S(TFiles.dom(c.pre.g("files")), p)])
        o = v.g("bad")
        l3 = FA([h], Imp(And(ISH(h), has_chunk(c.pre, c, h)), Or(has_chunk(v, c, h), o == OStr.some(h))), [S(TFiles.dom(c.pre.g("files")), chunkp(c.pre.f("Store", "path", store(c.pre, c)), h))])
        for n, f in (("other metadata is unchanged", l1), ("other maps are unchanged", l2), ("only a damaged chunk has been removed", l3)):
            it.vc.prove(it, n, f)
            it.assume(f)

    def set_bad(ctx):
        ctx.it.set_ghost("bad", LStr1(ctx.a("hash")))

    def v_keeps(c):
        """a chunk which another local revision refers to vanishes only if it has been found damaged; """
        p, i = bound("p", P), bound("i", z3.IntSort())
        v = c.pre
        d = content(v, p)
        mp = MAPD(content(v, JOIN(rpath(v, c), D_["uuid"](d))))
        h = S(TMapI.val(mp), i)
        return FA([p, i], Imp(And(rev_file(v, repo(v, c), p), p != rev_path(v, rev(c)), D_["server"](d) == sv_(""), exists_file(v, JOIN(rpath(v, c), D_["uuid"](d))), S(TMapI.dom(mp), i), ISH(h), has_chunk(v, c, h)), Or(has_chunk(c.post, c, h), is_bad(c, h))), [z3.MultiPattern(S(TFiles.dom(v.g("files")), p), S(TMapI.dom(mp), i))])

    OStr = TOpt(TStr)
    LStr1 = OStr.some
    m.ghosts["bad"] = OStr  # the chunk found damaged
    is_bad = lambda c, h: c.post.g("bad") == OStr.some(h)
    no_bad = ("no chunk has been found damaged", lambda c: OStr.is_none(c.pre.g("bad")))
    def others_kept(c):
        q = bound("q", P)
        a, b = c.pre.g("files"), c.post.g("files")
        return FA([q], Imp(And(stays(c, q), S(TFiles.dom(a), q)), And(S(TFiles.dom(b), q), S(TFiles.val(b), q) == S(TFiles.val(a), q))), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])

    saved_before = ("its metadata is saved", lambda c: exists_file(c.pre, rev_path(c.pre, rev(c))))
    OKEPT = ("no metadata or image of another revision changes", others_kept)
    VKEEPS = [("chunks of other local revisions vanish only if found damaged", v_keeps), ("no metadata or image of another revision changes", others_same)]
    VPRE = PRE + [("history well-formed", lambda c: N.wf_hist(c.pre, repo(c.pre, c))),
                  no_bad, saved_before, ("a local revision of the repository", lambda c: And(c.pre.f("Revision", "server", rev(c)) == sv_(""), c.pre.f("Revision", "uuid", rev(c)) != sv_(""), c.pre.f("Revision", "repository", rev(c)) == repo(c.pre, c), imgpath(c.pre, c, rev(c)) != purgelock(c.pre, c))),
                  ("no image of the history is the lock file", lambda c: forall_int(lambda k: Imp(Hist(c.pre, repo(c.pre, c)).rng(k), imgpath(c.pre, c, Hist(c.pre, repo(c.pre, c)).at(k)) != purgelock(c.pre, c)), pats=lambda k: [Hist(c.pre, repo(c.pre, c)).at(k)])),
                  ("its map refers to proper hashes", lambda c: proper(img(c.pre, c)))]
    u.contract(SRC + "verify", [("self", R("RBDSource")), ("revision", R("Revision")), ("skip_lock", TBool)], defaults={"skip_lock": False}, requires=VPRE,
               modifies=GCMOD + [("ghost", "bad"), ] + [("heap", "Chunk", f) for f in ("hash", "store", "clean", "data", "stats")] + [("heap", "BytesIO", "content"), ("heap", "BytesIO", "pos")],
               ensures=[("verified: all chunks have been found intact", all_good), ("it is verified or gone", settled)] + VKEEPS,
               raises=[(e, None, [("verified: all chunks have been found intact", all_good), VKEEPS[0], OKEPT]) for e in ("OSError", "RuntimeError", "BlockingIOError", "ValueError", "FileNotFoundError")],
               loops={0: v_chunks, 1: v_each}, ghost_code={"revision:Revision.verify": found_good, "rbd.chunked.store:Store.chunk_path": set_bad}, ghost_before={SRC + "gc": before_gc}, always=[LOCKED])

    u.ns = {**u.ns, **locals()}
    return m
