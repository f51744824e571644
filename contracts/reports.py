"""Problem reports (C24)."""
from types import SimpleNamespace

from .revs import *  # noqa
from . import revs

IS, SS = z3.IntSort(), z3.StringSort()
REP = "report:"
sv_ = z3.StringVal
HASHED = z3.Function("md5_of", TData.sort(), SS)
RTEXT = {n: z3.Function("report_" + n, TCont.sort(), s) for n, s in (("uuid", SS), ("timestamp", z3.RealSort()), ("source_hash", SS), ("target_hash", SS), ("offset", IS))}
LS = TList(TStr)


def setup(u):
    m = revs.setup(u)
    N = SimpleNamespace(**u.ns)
    me = lambda c: c.a("self")
    CM = "ChunkMismatchReport"
    m.fields.update({(CM, "uuid"): TStr, (CM, "timestamp"): TDate, (CM, "source_hash"): TStr, (CM, "target_hash"): TStr, (CM, "offset"): TInt, (CM, "traceback"): TStr,
                     (CM, "source_chunk"): TData, (CM, "target_chunk"): TData, ("Repository", "report_ids"): LS, ("Repository", "report_path"): TPath})
    o = m.opq_methods

    def mkdir(it, v, a, k):
        """quarantine/chunks; directories are not among the files"""
        if it.choose(2, "mkdir"):
            raise it.exc("OSError")
        it.set_ghost("made", z3.Store(it.get_ghost("made"), v.t, z3.BoolVal(True)))

    m.ghosts["made"] = TSet(TPath)
    o[TPath.name, "mkdir"] = mkdir
    m.ext["yaml.add_representer"] = lambda it, a, k: None

    def dump(it, a, k):
        d = it.content(a[0]) if isinstance(a[0], Box) else None
        if not isinstance(d, HD):
            raise Unsupported(f"dump {a[0]!r} {d!r}")
        t = it.fresh("report", TText.sort())
        c = APP(EMPTY, ENCT(t))
        for n, f in RTEXT.items():
            if n in d.v:
                it.assume(f(c) == it.encode(d.v[n], TDate if n == "timestamp" else TInt if n == "offset" else TStr))
        it.call(it.getattr(a[1], "write"), [Sym(TText, t)], {})

    m.ext["yaml.dump"] = dump
    LOGP = ("log", lambda it: Opaque("log"))
    hashed = lambda v, d, h: And(exists_file(v, JOIN(d, h)))

    def same_existing(c, v):
        p = bound("p", P)
        f, g = c.pre.g("files"), v.g("files")
        return FA([p], Imp(S(TFiles.dom(f), p), And(S(TFiles.dom(g), p), S(TFiles.val(g), p) == S(TFiles.val(f), p))), [S(TFiles.dom(g), p), S(TFiles.val(g), p)])

    def only(c, v, ps):
        p = bound("p", P)
        f, g = c.pre.g("files"), v.g("files")
        return FA([p], Imp(Not(Or(*[p == x for x in ps])), S(TFiles.dom(g), p) == S(TFiles.dom(f), p)), [S(TFiles.dom(g), p)])

    def holds_chunk(c, v, d, h, chunk):
        p = JOIN(d, h)
        return And(exists_file(v, p), Imp(Not(exists_file(c.pre, p)), content(v, p) == APP(EMPTY, chunk)))

    KEPT = ("existing files are unchanged", lambda c: same_existing(c, c.post))
    F = [("ghost", "files"), "alloc", ("ghost", "made")]
    u.contract(REP + CM + "._store_chunk", [("dir", TPath), ("chunk", TData), ("hash", TStr), LOGP], modifies=F[:2], requires=[("its directory has been made", lambda c: S(c.pre.g("made"), c.a("dir")))],
               ensures=[("the file named by the hash is there, and if it is new it holds the chunk", lambda c: holds_chunk(c, c.post, c.a("dir"), c.a("hash"), c.a("chunk"))), KEPT,
                        ("no other file appears", lambda c: only(c, c.post, [JOIN(c.a("dir"), c.a("hash"))]))],
               raises=[("OSError", None, [KEPT])])

    repf = lambda c: JOIN(c.a("dir"), z3.Concat(c.pre.f(CM, "uuid", me(c)), sv_(".report")))

    def stored(c):
        p = repf(c)
        d = content(c.post, p)
        return And(exists_file(c.post, p), Imp(Not(exists_file(c.pre, p)), And(*[RTEXT[n](d) == c.pre.f(CM, n, me(c)) for n in RTEXT])))

    STORED = ("the report is there, and if it is new it says which chunks differ, and where", stored)
    u.contract(REP + "ProblemReport.store", [("self", R(CM)), ("dir", TPath), LOGP], modifies=F, ensures=[STORED, KEPT, ("no other file appears", lambda c: only(c, c.post, [repf(c)]))],
               raises=[("OSError", None, [KEPT])])
    cdir = lambda c: JOIN(c.a("dir"), sv_("chunks"))
    fld = lambda c, n: c.pre.f(CM, n, me(c))
    chf = lambda c, x: JOIN(cdir(c), fld(c, x + "_hash"))
    apart = [("files of reports and chunks are different ones", lambda c: And(*[repf(c) != chf(c, x) for x in ("source", "target")])),
             ("different chunks have different hashes", lambda c: Imp(fld(c, "source_hash") == fld(c, "target_hash"), fld(c, "source_chunk") == fld(c, "target_chunk")))]
    full = [("both chunks are kept", lambda c: And(*[holds_chunk(c, c.post, cdir(c), fld(c, x + "_hash"), fld(c, x + "_chunk")) for x in ("source", "target")])), STORED, KEPT]
    u.contract(REP + CM + ".store", [("self", R(CM)), ("dir", TPath), LOGP], modifies=F, requires=apart, ensures=full, raises=[("OSError", None, [KEPT])])
    # ---------------------------------------------------------- repository
    rp = lambda c: c.pre.f("Repository", "report_path", me(c))
    q = lambda c: c.a("report")
    g = lambda c, n: c.pre.f(CM, n, q(c))
    arep = lambda c: JOIN(rp(c), z3.Concat(g(c, "uuid"), sv_(".report")))
    ach = lambda c, x: JOIN(JOIN(rp(c), sv_("chunks")), g(c, x + "_hash"))
    ids = lambda v, r: v.f("Repository", "report_ids", r)
    u.contract("repository:Repository.add_report", [("self", R("Repository")), ("report", R(CM))], modifies=F + [("heap", "Repository", "report_ids")],
               requires=[("files of reports and chunks are different ones", lambda c: And(*[arep(c) != ach(c, x) for x in ("source", "target")])),
                         ("different chunks have different hashes", lambda c: Imp(g(c, "source_hash") == g(c, "target_hash"), g(c, "source_chunk") == g(c, "target_chunk"))),
                         ("the list of reports", lambda c: LS.len(ids(c.pre, me(c))) >= 0)],
               ensures=[("the report and both chunks are there", lambda c: And(exists_file(c.post, arep(c)), *[exists_file(c.post, ach(c, x)) for x in ("source", "target")])), KEPT,
                        ("it is listed", lambda c: And(LS.len(ids(c.post, me(c))) == LS.len(ids(c.pre, me(c))) + 1, S(LS.arr(ids(c.post, me(c))), LS.len(ids(c.pre, me(c)))) == g(c, "uuid")))],
               raises=[("OSError", None, [KEPT])])

    # -------------------------------------------------------------- a report
    TDigest = TOpq("Digest")
    DIG = z3.Function("digest", TData.sort(), TDigest.sort())
    HEX = z3.Function("hexdigest", TDigest.sort(), SS)

    def md5(it, a, k):
        x = it.encode(it.force(a[0]), TData)
        it.assume(HEX(DIG(x)) == HASHED(x))
        return Sym(TDigest, DIG(x))

    m.ext["hashlib.md5"] = md5

    def new_uuid(it, a, k):
        x = it.fresh("uuid", SS)
        it.assume(x != sv_(""))
        return Sym(TStr, x)

    m.stubs["report:shortuuid.uuid"] = m.ext["shortuuid.uuid"] = new_uuid
    o[TDigest.name, "hexdigest"] = lambda it, v, a, k: Sym(TStr, HEX(v.t))
    m.ext["traceback.format_stack"] = lambda it, a, k: it.new_box(HL([Sym(TStr, it.fresh("frame", SS))]))
    new = lambda c, n: c.post.f(CM, n, me(c))
    u.contract(REP + CM + ".__init__", [("self", R(CM)), ("source_chunk", TData), ("target_chunk", TData), ("offset", TInt)], modifies=["alloc", ("ghost", "clock")] + [("heap", CM, n) for n in ("uuid", "timestamp", "source_chunk", "target_chunk", "offset", "source_hash", "target_hash", "traceback")],
               ensures=[("the blocks, their hashes and where they are", lambda c: And(*[new(c, n) == c.a(n) for n in ("source_chunk", "target_chunk", "offset")], *[new(c, x + "_hash") == HASHED(c.a(x + "_chunk")) for x in ("source", "target")])),
                        ("it has a name", lambda c: new(c, "uuid") != sv_("")), ("other reports are unchanged", lambda c: And(*[c.post.arr(CM, n) == z3.Store(c.pre.arr(CM, n), me(c), c.post.f(CM, n, me(c))) for n in ("uuid", "source_chunk", "target_chunk", "offset", "source_hash", "target_hash")]))])
    # ---------------------------------------------------------- the command
    OS = TOpt(TStr)
    repo = lambda c: c.a("repo")

    asked = lambda c: z3.If(OS.is_none(c.a("reports")), ids(c.pre, repo(c)), lib.SPLIT(OS.the(c.a("reports")), sv_(",")))

    def plain(c):
        """names without dots: either way of appending the suffix gives the same path"""
        i, d = bound("i", IS), c.pre.f("Repository", "report_path", repo(c))
        x = S(LS.arr(asked(c)), i)
        return FA([i], WSUF(JOIN(d, x), sv_(".report")) == JOIN(d, z3.Concat(x, sv_(".report"))), [x])

    def named(c, p, n=None):
        """one of the reports asked for (all, if none is named)"""
        t = asked(c)
        i = bound("i", IS)
        f = lambda i: WSUF(JOIN(c.pre.f("Repository", "report_path", repo(c)), S(LS.arr(t), i)), sv_(".report"))
        return z3.Exists([i], And(0 <= i, i < (LS.len(t) if n is None else n), p == f(i)))

    def deleted(c, v, n=None, weak=False):
        p = bound("p", P)
        f, g = c.pre.g("files"), v.g("files")
        same = And(S(TFiles.dom(g), p) == S(TFiles.dom(f), p), S(TFiles.val(g), p) == S(TFiles.val(f), p))
        return FA([p], Or(same, named(c, p)) if weak else z3.If(named(c, p, n), Not(S(TFiles.dom(g), p)), same), [S(TFiles.dom(g), p), S(TFiles.val(g), p)])

    def del_inv(L):
        return [("those passed are gone, others are unchanged", deleted(L.vc.ctx, L.now, L.k))]

    u.contract("cli:Command.reports_delete", [("self", R("Command")), ("repo", R("Repository")), ("reports", OS)], modifies=F,
               requires=[("the list of reports", lambda c: LS.len(ids(c.pre, repo(c))) >= 0), ("names of reports contain no dots", plain)],
               ensures=[("exactly the reports asked for are gone", lambda c: deleted(c, c.post))], raises=[("OSError", None, [("nothing else is gone", lambda c: deleted(c, c.post, weak=True))])], loops={0: del_inv})
    u.ns = {**u.ns, **locals()}
    return m
