"""Chunked images: Chunk, Store and File (C01-C03, C07).

What a chunk holds is determined by its hash: `UNHASH(h)` is the data with hash
h (two different chunks do not have the same hash: assumed). An image is then a
function of its map and its buffers, whatever is on the disk; reading yields
these bytes or fails."""
from types import SimpleNamespace

from .world import *  # noqa
from . import base

CS = 4 * 1024 * 1024
BB = TBytes.sort()
LEN, ARR = BB.blen, BB.barr
TBio = R("BytesIO")
OBio = TOpt(TBio)
OHash = TOpt(TStr)
TDigest, THex = TOpq("Digest"), TOpq("Hex")
DIG = z3.Function("mmh3_hash_bytes", BB, TDigest.sort())
HEX = z3.Function("hexlify", TDigest.sort(), THex.sort())
ASC = z3.Function("ascii", THex.sort(), z3.StringSort())
UNHASH = z3.Function("data_with_hash", z3.StringSort(), BB)
ISH = z3.Function("is_hash", z3.StringSort(), z3.BoolSort())
LZ = z3.Function("lzo_compress", BB, BB)
UNLZ = z3.Function("lzo_decompress", BB, BB)
LZOK = z3.Function("lzo_valid", BB, z3.BoolSort())
ENCB = z3.Function("encode_bytes", BB, TData.sort())
RAWB = z3.Function("file_bytes", TCont.sort(), BB)
STROFP = z3.Function("str_of_Opq_Path", P, z3.StringSort())
PATHOF = z3.Function("path_of_string", z3.StringSort(), P)
EMPTYB = BB.mkbytes(z3.IntVal(0), z3.K(z3.IntSort(), z3.IntVal(0)))
TStatsC = TDict(TStr, TInt)
TMapI = TDict(TInt, TStr)
sv_ = z3.StringVal
EXT = ".chunk.lzo"


def HASH(b):
    return ASC(HEX(DIG(b)))


def at(b, i):
    return S(ARR(b), i)


def chunk_axioms(it, pre):
    b, h, p, s = z3.Const("cb", BB), z3.String("ch"), z3.Const("cp", P), z3.String("cs")
    c = APP(EMPTY, ENCB(b))
    i = z3.Int("ci")
    d2 = z3.String("cd")
    cp = ADD(JOIN(JOIN(p, d2), h), sv_(EXT))
    return [
        FA([p, d2, h], Imp(ISH(h), HOFP(cp) == h), [cp]),
        FA([p, d2, h], And(IS_CHN(cp), NAME(cp) == z3.Concat(h, sv_(EXT))), [cp]),
        FA([p], Imp(IS_TMP(p), Not(IS_CHN(p))), [IS_TMP(p)]),
        # hashes: no collisions; hexadecimal digits only
        FA([b], And(Imp(ISB(b), UNHASH(HASH(b)) == b), ISH(HASH(b))), [HASH(b)]),
        ISB(EMPTYB),
        FA([h], Imp(ISH(h), And(h != sv_(""), Not(z3.Contains(h, sv_("."))))), [ISH(h)]),
        # bytes: zero outside their length
        FA([h], And(ISB(UNHASH(h)), LEN(UNHASH(h)) >= 0, FA([i], Imp(Or(i < 0, i >= LEN(UNHASH(h))), at(UNHASH(h), i) == 0), [at(UNHASH(h), i)])), [UNHASH(h)]),
        FA([b], And(LZOK(LZ(b)), UNLZ(LZ(b)) == b), [LZ(b)]),
        FA([b], RAWB(c) == b, [c]),
        FA([p, s], Imp(Not(z3.Contains(NAME(p), sv_("."))), WSUF(p, s) == ADD(p, s)), [WSUF(p, s)]),
        FA([p], PATHOF(PSTR(p)) == p, [PSTR(p)]),
        FA([p], PATHOF(STROFP(p)) == p, [STROFP(p)]),
    ]


def chunkp(store_path, h):
    return ADD(JOIN(JOIN(store_path, z3.SubString(h, 0, 2)), h), sv_(EXT))


# -------------------------------------------------------------- BytesIO
IS_CHN = z3.Function("is_chunk_name", P, z3.BoolSort())


def glob_chunks(it, v, a, k):
    """the files of chunks (as they are when the iteration begins)"""
    if it.force(a[0]) != "*/*" + EXT:
        raise Unsupported(f"glob {a[0]!r}")
    fails(it)
    f = it.get_ghost("files")
    g = it.fresh("glob", TSet(TPath).sort())
    p = bound("p", P)
    it.assume(FA([p], S(g, p) == And(S(TFiles.dom(f), p), PARENT(PARENT(p)) == v.t, IS_CHN(p)), [S(g, p), S(TFiles.dom(f), p)]))
    return it.new_box(SV(TSet(TPath), g))


def bio(it, o):
    return z3.simplify(S(it.heap_arr("BytesIO", "content"), o.ref)), z3.simplify(S(it.heap_arr("BytesIO", "pos"), o.ref))


def bio_new(it, a, k):
    o = it.alloc("BytesIO")
    d = it.encode(a[0], TBytes) if a else EMPTYB
    it.heap_set("BytesIO", "content", o.ref, d)
    it.heap_set("BytesIO", "pos", o.ref, z3.IntVal(0))
    return o


def bio_seek(it, a, k):
    o, p = a[0], it.encode(a[1], TInt)
    if len(a) > 2:
        raise Unsupported("BytesIO.seek with whence")
    it.raise_if(p < 0, "ValueError")
    it.heap_set("BytesIO", "pos", o.ref, p)
    return Sym(TInt, p)


def bio_read(it, a, k):
    o = a[0]
    b, p = bio(it, o)
    n = LEN(b)
    size = it.force(a[1]) if len(a) > 1 else -1
    lo = z3.If(p > n, n, p)
    if size is None or size == -1:
        hi = n
    else:
        s = it.encode(size, TInt)
        hi = z3.If(Or(s < 0, lo + s > n), n, lo + s)
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    it.assume_bytes(b)
    r = it.bytes_slice(Sym(TBytes, b), lo, hi)
    it.heap_set("BytesIO", "pos", o.ref, z3.simplify(z3.If(p > n, p, hi)))
    return r


def patch(it, b, off, d):
    """the bytes b with d put at the offset (zeroes fill a gap)"""
    n = LEN(d)
    end = off + n
    return it.named_bytes("patch", z3.If(And(n > 0, end > LEN(b)), end, LEN(b)), lambda i: z3.If(And(off <= i, i < end), at(d, i - off), at(b, i)), lambda i: [at(b, i)] if not z3.is_app_of(ARR(b), z3.Z3_OP_CONST_ARRAY) else [])


def bio_write(it, a, k):
    o = a[0]
    d = it.encode(a[1], TBytes)
    b, p = bio(it, o)
    it.assume_bytes(b)
    r = patch(it, b, p, d)
    it.heap_set("BytesIO", "content", o.ref, it.encode(r, TBytes))
    it.heap_set("BytesIO", "pos", o.ref, z3.simplify(p + LEN(d)))
    return Sym(TInt, LEN(d))


def bio_getvalue(it, a, k):
    b, p = bio(it, a[0])
    return it.decode(b, TBytes)


# ------------------------------------------------------- files with bytes
class BFile(FileH):
    """a file read or written as bytes (one write at the end)"""

    def method(self, it, name):
        f = {"read": self.read, "write": self.write_bytes, "seek": self.seek}.get(name)
        if f:
            return Builtin("file." + name, f)
        return super().method(it, name)

    def read(self, it, a, k):
        if a and it.force(a[0]) == 2 and self.at == 0 and "b" not in self.mode:
            fails(it)
            self.at = 2
            return Sym(TStr, FIRST2(S(TFiles.val(it.get_ghost("files")), self.p)))
        if a or self.at or "b" not in self.mode:
            raise Unsupported("read of a part")
        fails(it)
        c = S(TFiles.val(it.get_ghost("files")), self.p)
        return it.decode(RAWB(c), TBytes)

    at = 0

    def seek(self, it, a, k):
        if len(a) != 1 or it.force(a[0]) != 0:
            raise Unsupported("seek")
        self.at = 0
        return 0

    def write_bytes(self, it, a, k):
        if "b" not in self.mode:
            return self.write(it, a, k)
        d = it.encode(a[0], TBytes)
        return self.write(it, [Sym(TData, ENCB(d))], {})


def open_(it, a, k):
    mode = it.force(a[1] if len(a) > 1 else k.get("mode", "r"))
    t = it.force(a[0])
    p = PATHOF(t.t) if isinstance(t, Sym) and t.ty == TStr else as_path(it, t)
    p = z3.simplify(p)
    fails(it)
    f = it.get_ghost("files")
    if mode in ("r", "rb"):
        it.raise_if(Not(S(TFiles.dom(f), p)), "FileNotFoundError")
    elif mode in ("w", "wb"):
        it.set_ghost("files", TFiles.mk(z3.Store(TFiles.dom(f), p, True), z3.Store(TFiles.val(f), p, EMPTY)))
    else:
        raise Unsupported(f"open for {mode!r}")
    return BFile(p, mode)


def mkstemp(it, a, k):
    h = named_temporary(it, [], {"delete": False})
    return (BFile(h.p, "wb"), path(h.p))


def fdopen(it, a, k):
    f = it.force(a[0])
    if not isinstance(f, BFile):
        raise Unsupported("fdopen")
    return f


TJson = TOpq("Json")
TSM = TDict(TStr, TStr)
ENCJ = z3.Function("json_text", TMapI.sort(), z3.IntSort(), TData.sort())
J_MAP = z3.Function("json_mapping", TCont.sort(), TSM.sort())
J_SIZE = z3.Function("json_size", TCont.sort(), z3.IntSort())
J_OK = z3.Function("json_is_map", TCont.sort(), z3.BoolSort())
FIRST2 = z3.Function("first_two_characters", TCont.sort(), z3.StringSort())
KEYOF = z3.Function("json_key", z3.IntSort(), z3.StringSort())
HOFP = z3.Function("hash_of_path", P, z3.StringSort())


def json_axioms(it, pre):
    mp, n, k = z3.Const("jm", TMapI.sort()), z3.Int("jn"), z3.String("jk")
    c = APP(EMPTY, ENCJ(mp, n))
    i = z3.Int("ji")
    return [
        # what has been written is read: the keys are the numbers as strings
        FA([mp, n], And(J_OK(c), J_SIZE(c) == n, FIRST2(c) == sv_('{"')), [c]),
        FA([mp, n, k], And(S(TSM.dom(J_MAP(c)), k) == And(lib.ISINT(k), k == KEYOF(lib.INTOF(k)), S(TMapI.dom(mp), lib.INTOF(k))), Imp(S(TSM.dom(J_MAP(c)), k), S(TSM.val(J_MAP(c)), k) == S(TMapI.val(mp), lib.INTOF(k)))), [S(TSM.dom(J_MAP(c)), k)]),
        FA([mp, n, i], Imp(And(i >= 0, S(TMapI.dom(mp), i)), S(TSM.dom(J_MAP(c)), KEYOF(i))), [z3.MultiPattern(c, S(TMapI.dom(mp), i))]),
        FA([i], Imp(i >= 0, And(lib.ISINT(KEYOF(i)), lib.INTOF(KEYOF(i)) == i)), [KEYOF(i)]),
        Not(J_OK(EMPTY)),
    ]


def json_dump(it, a, k):
    """the document is written in pieces; a part of it is none"""
    d, h = it.content(a[0]) if isinstance(a[0], Box) else None, it.force(a[1])
    if not isinstance(d, HD) or set(d.v) != {"mapping", "size"} or not isinstance(h, FileH):
        raise Unsupported("json.dump of something else than a map")
    f = it.get_ghost("files")
    part = it.fresh("partial", TCont.sort())
    it.assume(Not(J_OK(part)))
    it.set_ghost("files", TFiles.mk(TFiles.dom(f), z3.Store(TFiles.val(f), h.p, part)))
    fails(it)
    new = APP(S(TFiles.val(f), h.p), ENCJ(it.encode(d.v["mapping"], TMapI), it.encode(d.v["size"], TInt)))
    it.set_ghost("files", TFiles.mk(TFiles.dom(f), z3.Store(TFiles.val(f), h.p, new)))


def json_load(it, a, k):
    h = it.force(a[0])
    if not isinstance(h, BFile):
        raise Unsupported("json.load")
    fails(it)
    c = S(TFiles.val(it.get_ghost("files")), h.p)
    it.raise_if(Not(And(J_OK(c), h.at == 0)), "ValueError", "JSONDecodeError")
    h.at = None
    return it.new_box(HD({"mapping": it.decode(J_MAP(c), TSM), "size": Sym(TInt, J_SIZE(c))}))


def lzo_decompress(it, a, k):
    d = it.encode(a[0], TBytes)
    it.raise_if(Not(LZOK(d)), "LzoError")
    return it.decode(UNLZ(d), TBytes)


def setup_bytes(u):
    m = u.model
    m.fields.update({("BytesIO", "content"): TBytes, ("BytesIO", "pos"): TInt})
    for n, f in (("seek", bio_seek), ("read", bio_read), ("write", bio_write), ("getvalue", bio_getvalue)):
        m.methods["BytesIO", n] = (lambda f: lambda it, a, k: f(it, a, k))(f)
    lzoerr = ExcClass("LzoError", ["LzoError", "Exception", "BaseException"])
    m.ext.update({
        "io.BytesIO": bio_new, "lzo.error": lzoerr, "lzo.decompress": lzo_decompress,
        "lzo.compress": lambda it, a, k: Sym(TBytes, LZ(it.encode(a[0], TBytes))),
        "mmh3.hash_bytes": lambda it, a, k: Sym(TDigest, DIG(it.encode(a[0], TBytes))),
        "binascii.hexlify": lambda it, a, k: Sym(THex, HEX(it.encode(a[0], TDigest))),
        "tempfile.mkstemp": mkstemp, "os.fdopen": fdopen, "os.POSIX_FADV_DONTNEED": 4,
        "time.time": lambda it, a, k: Sym(TReal, it.fresh("time", z3.RealSort())),
    })
    m.ext.update({"json.dump": json_dump, "json.load": json_load, "os.fsync": lambda it, a, k: fails(it)})
    u.axioms.append(json_axioms)
    m.opq_methods[THex.name, "decode"] = lambda it, v, a, k: Sym(TStr, ASC(v.t))
    m.builtins["open"] = open_
    m.stubs["utils:posix_fadvise"] = lambda it, a, k: None
    u.axioms.append(chunk_axioms)


def setup(u, m=None):
    if m is None:
        m = base.setup(u)
        setup_world(u)
        setup_files(u)
    setup_bytes(u)
    m.fields.update({
        ("Chunk", "hash"): OHash, ("Chunk", "store"): R("Store"), ("Chunk", "clean"): TBool, ("Chunk", "data"): OBio, ("Chunk", "stats"): TStatsC,
        ("Store", "path"): TPath, ("Store", "seen"): SetStr, ("Store", "force_writes"): TBool,
    })
    me = lambda c: c.a("self")

    # ---------------------------------------------------------- vocabulary
    def chunk_data(v, r):
        """what the chunk holds"""
        d, h = v.f("Chunk", "data", r), v.f("Chunk", "hash", r)
        return z3.If(OBio.is_none(d), z3.If(OHash.is_none(h), EMPTYB, UNHASH(OHash.the(h))), v.f("BytesIO", "content", OBio.the(d)))

    def wf_chunk(v, r):
        d, h, cl = v.f("Chunk", "data", r), v.f("Chunk", "hash", r), v.f("Chunk", "clean", r)
        x = v.f("BytesIO", "content", OBio.the(d))
        return And(Imp(Not(OHash.is_none(h)), ISH(OHash.the(h))), Imp(OBio.is_none(d), cl),
                   Imp(Not(OBio.is_none(d)), And(0 <= OBio.the(d), OBio.the(d) < v.alloc, ISB(x))),
                   Imp(And(cl, Not(OBio.is_none(d))), x == z3.If(OHash.is_none(h), EMPTYB, UNHASH(OHash.the(h)))))

    def small(v, r):
        return LEN(chunk_data(v, r)) <= CS

    def good(v, store, h):
        """the chunk's file holds the data with this hash"""
        p = chunkp(v.f("Store", "path", store), h)
        return And(exists_file(v, p), LZOK(RAWB(content(v, p))), UNLZ(RAWB(content(v, p))) == UNHASH(h))

    def present(v, store, h):
        return exists_file(v, chunkp(v.f("Store", "path", store), h))

    def of_seen(v, store, what):
        h = z3.String("ph")
        return FA([h], Imp(S(v.f("Store", "seen", store), h), And(ISH(h), what(v, store, h))), [S(v.f("Store", "seen", store), h)])

    def exists_file(v, p):
        return S(TFiles.dom(v.g("files")), p)

    def content(v, p):
        return S(TFiles.val(v.g("files")), p)

    def store_of(v, r):
        return v.f("Chunk", "store", r)

    u.contract("rbd.chunked.chunk:hash", [("data", TBytes)], ret=TStr, ensures=[("the hash of the data", lambda c: c.res == HASH(c.a("data")))])
    u.contract("rbd.chunked.store:Store.chunk_path", [("self", R("Store")), ("hash", TStr)], ret=TPath,
               requires=[("a hash", lambda c: ISH(c.a("hash")))],
               ensures=[("the place of the chunk", lambda c: c.res == chunkp(c.pre.f("Store", "path", me(c)), c.a("hash")))])

    # ------------------------------------------------------- _read_existing
    def only_new_bio(c):
        q = bound("q", z3.IntSort())
        a, b = c.pre.arr("BytesIO", "content"), c.post.arr("BytesIO", "content")
        x, y = c.pre.arr("BytesIO", "pos"), c.post.arr("BytesIO", "pos")
        return And(FA([q], Imp(And(0 <= q, q < c.pre.alloc), S(b, q) == S(a, q)), [S(b, q)]),
                   FA([q], Imp(And(0 <= q, q < c.pre.alloc, OBio.some(q) != c.pre.f("Chunk", "data", me(c))), S(y, q) == S(x, q)), [S(y, q)]))

    def loaded(c):
        d0, d1 = c.pre.f("Chunk", "data", me(c)), c.post.f("Chunk", "data", me(c))
        return And(Not(OBio.is_none(d1)), chunk_data(c.post, me(c)) == chunk_data(c.pre, me(c)),
                   c.post.arr("Chunk", "data") == z3.Store(c.pre.arr("Chunk", "data"), me(c), d1),
                   z3.If(OBio.is_none(d0), And(OBio.the(d1) >= c.pre.alloc, OBio.the(d1) < c.post.alloc), d1 == d0))

    same_chunk = ("the chunk is unchanged", lambda c: And(c.post.arr("Chunk", "data") == c.pre.arr("Chunk", "data"), c.post.arr("BytesIO", "content") == c.pre.arr("BytesIO", "content"), c.post.arr("Chunk", "clean") == c.pre.arr("Chunk", "clean")))
    BIO = ["alloc", ("heap", "BytesIO", "content"), ("heap", "BytesIO", "pos")]
    wf = ("chunk well-formed", lambda c: wf_chunk(c.pre, me(c)))
    wf_after = ("chunk well-formed", lambda c: wf_chunk(c.post, me(c)))
    damaged = lambda c: And(OBio.is_none(c.pre.f("Chunk", "data", me(c))), Not(OHash.is_none(c.pre.f("Chunk", "hash", me(c)))))
    u.contract("rbd.chunked.chunk:Chunk._read_existing", [("self", R("Chunk"))], requires=[wf], modifies=BIO + [("heap", "Chunk", "data")],
               ensures=[("the buffer holds the data with the chunk's hash", loaded), wf_after, ("other buffers are unchanged", only_new_bio),
                        ("what is read is the intact file of the chunk", lambda c: Imp(damaged(c), good(c.pre, store_of(c.pre, me(c)), OHash.the(c.pre.f("Chunk", "hash", me(c))))))],
               raises=[("BackendException", damaged, [same_chunk])])

    # ----------------------------------------------------------------- read
    def sliced(c):
        d, rest = TTup(TBytes, TInt).get(c.res, 0), TTup(TBytes, TInt).get(c.res, 1)
        b, off, size = chunk_data(c.pre, me(c)), c.a("offset"), c.a("size")
        i = bound("i", z3.IntSort())
        n = z3.If(off >= LEN(b), 0, z3.If(off + size > LEN(b), LEN(b) - off, size))
        return And(LEN(d) == n, rest == size - n, FA([i], Imp(And(0 <= i, i < n), at(d, i) == at(b, off + i)), [at(d, i)]))

    u.contract("rbd.chunked.chunk:Chunk.read", [("self", R("Chunk")), ("offset", TInt), ("size", TInt)], ret=TTup(TBytes, TInt),
               requires=[wf, ("offset and size are not negative", lambda c: And(c.a("offset") >= 0, c.a("size") >= 0))], modifies=BIO + [("heap", "Chunk", "data")],
               ensures=[("the bytes at the offset, and what remains to be read", sliced), ("the buffer holds the data with the chunk's hash", loaded), wf_after, ("other buffers are unchanged", only_new_bio)],
               raises=[("BackendException", damaged, [same_chunk])])

    # ---------------------------------------------------------------- write
    def wn(c):
        room = CS - c.a("offset")
        return z3.If(LEN(c.a("data")) > room, room, LEN(c.a("data")))

    def patched(c):
        a, b = chunk_data(c.pre, me(c)), c.post.f("BytesIO", "content", OBio.the(c.post.f("Chunk", "data", me(c))))
        off, d, n = c.a("offset"), c.a("data"), wn(c)
        i = bound("i", z3.IntSort())
        return And(LEN(b) == z3.If(And(n > 0, off + n > LEN(a)), off + n, LEN(a)),
                   FA([i], Imp(And(0 <= i, i < CS), at(b, i) == z3.If(And(off <= i, i < off + n), at(d, i - off), at(a, i))), [at(b, i)]))

    def rest_of(c):
        w, rest = TTup(TInt, TBytes).get(c.res, 0), TTup(TInt, TBytes).get(c.res, 1)
        d, n = c.a("data"), wn(c)
        i = bound("i", z3.IntSort())
        return And(w == n, LEN(rest) == LEN(d) - n, FA([i], Imp(And(0 <= i, i < LEN(rest)), at(rest, i) == at(d, i + n)), [at(rest, i)]))

    def write_frame(c):
        d0, d1 = c.pre.f("Chunk", "data", me(c)), c.post.f("Chunk", "data", me(c))
        q = bound("q", z3.IntSort())
        a, b = c.pre.arr("BytesIO", "content"), c.post.arr("BytesIO", "content")
        return And(c.post.arr("Chunk", "data") == z3.Store(c.pre.arr("Chunk", "data"), me(c), d1), Not(OBio.is_none(d1)),
                   c.post.arr("Chunk", "clean") == z3.Store(c.pre.arr("Chunk", "clean"), me(c), False),
                   Or(d1 == d0, And(OBio.the(d1) >= c.pre.alloc, OBio.the(d1) < c.post.alloc)),
                   FA([q], Imp(And(0 <= q, q < c.pre.alloc, OBio.some(q) != d0), S(b, q) == S(a, q)), [S(b, q)]))

    u.contract("rbd.chunked.chunk:Chunk.write", [("self", R("Chunk")), ("offset", TInt), ("data", TBytes)], ret=TTup(TInt, TBytes),
               requires=[wf, ("at most one chunk of data", lambda c: small(c.pre, me(c))), ("the offset lies within the chunk", lambda c: And(0 <= c.a("offset"), c.a("offset") < CS))],
               modifies=BIO + [("heap", "Chunk", "data"), ("heap", "Chunk", "clean"), ("heap", "Chunk", "stats")],
               ensures=[("the data replaces the bytes at the offset", patched), ("the data which did not fit is returned", rest_of), wf_after, ("at most one chunk of data", lambda c: small(c.post, me(c))),
                        ("other buffers and chunks are unchanged", write_frame)],
               raises=[("BackendException", damaged, [same_chunk])])

    # ---------------------------------------------------------------- flush
    def fl_same_data(c):
        return c.res == z3.If(c.pre.f("Chunk", "clean", me(c)), OHash.none(), OHash.some(HASH(chunk_data(c.pre, me(c)))))

    def fl_state(c):
        cl = c.pre.f("Chunk", "clean", me(c))
        st = lambda f, v: c.post.arr("Chunk", f) == z3.If(cl, c.pre.arr("Chunk", f), z3.Store(c.pre.arr("Chunk", f), me(c), v))
        return And(st("hash", OHash.some(HASH(chunk_data(c.pre, me(c))))), st("clean", z3.BoolVal(True)))

    def fl_published(c):
        s = store_of(c.pre, me(c))
        h = HASH(chunk_data(c.pre, me(c)))
        return Imp(And(Not(c.pre.f("Chunk", "clean", me(c))), of_seen(c.pre, s, present)), And(present(c.post, s, h), of_seen(c.post, s, present)))

    def fl_forced(c):
        """with forced writes the file holds the data, whatever was there"""
        s = store_of(c.pre, me(c))
        h = HASH(chunk_data(c.pre, me(c)))
        return Imp(And(Not(c.pre.f("Chunk", "clean", me(c))), c.pre.f("Store", "force_writes", s), of_seen(c.pre, s, good)), And(good(c.post, s, h), of_seen(c.post, s, good)))

    def atomic(c, v):
        """each file which is not temporary is as before, or a complete chunk"""
        q = bound("q", P)
        a, b = c.pre.g("files"), v.g("files")
        d = chunk_data(c.pre, me(c))
        same = And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), Imp(S(TFiles.dom(a), q), S(TFiles.val(b), q) == S(TFiles.val(a), q)))
        new = And(q == chunkp(c.pre.f("Store", "path", store_of(c.pre, me(c))), HASH(d)), S(TFiles.dom(b), q), RAWB(S(TFiles.val(b), q)) == LZ(d))
        return FA([q], Imp(Not(IS_TMP(q)), Or(same, new)), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])

    def fl_seen(c):
        s = store_of(c.pre, me(c))
        x = bound("x", z3.StringSort())
        q = bound("q", z3.IntSort())
        a, b = c.pre.arr("Store", "seen"), c.post.arr("Store", "seen")
        return And(FA([q], Imp(q != s, S(b, q) == S(a, q)), [S(b, q)]), FA([x], S(S(b, s), x) == Or(S(S(a, s), x), And(Not(c.pre.f("Chunk", "clean", me(c))), x == HASH(chunk_data(c.pre, me(c))))), [S(S(b, s), x)]))

    ATOMIC = ("each file is as before or a complete chunk", lambda c: atomic(c, c.post))
    u.contract("rbd.chunked.chunk:Chunk.flush", [("self", R("Chunk"))], ret=OHash, requires=[wf],
               modifies=["alloc", ("heap", "Chunk", "hash"), ("heap", "Chunk", "clean"), ("heap", "Store", "seen"), ("ghost", "files")],
               ensures=[("the hash of the data (nothing if it was clean)", fl_same_data), ("the chunk is clean and has this hash", fl_state), wf_after,
                        ("the chunk's file exists", fl_published), ("forced: the chunk's file holds the data", fl_forced), ATOMIC, ("the hash is noted as written", fl_seen)],
               raises=[("OSError", lambda c: Not(c.pre.f("Chunk", "clean", me(c))), [ATOMIC, wf_after, ("the data is kept", lambda c: And(chunk_data(c.post, me(c)) == chunk_data(c.pre, me(c)), Not(c.post.f("Chunk", "clean", me(c))))), ("other chunks are unchanged", lambda c: And(c.post.arr("Chunk", "clean") == c.pre.arr("Chunk", "clean"), c.post.arr("Chunk", "hash") == z3.Store(c.pre.arr("Chunk", "hash"), me(c), c.post.f("Chunk", "hash", me(c))))),
                        ("nothing is noted as written", lambda c: c.post.arr("Store", "seen") == c.pre.arr("Store", "seen"))])],
               always=[("files", "each file is as before or a complete chunk", lambda c, v: atomic(c, v))])
    # ================================================================ Store
    spath = lambda v, s: v.f("Store", "path", s)
    m.opq_methods[TPath.name, "glob"] = glob_chunks

    def stored(v, s, p):
        return And(exists_file(v, p), PARENT(PARENT(p)) == spath(v, s), IS_CHN(p))

    def wf_store(v, s):
        """files of chunks have the names of their hashes"""
        p = bound("p", P)
        return FA([p], Imp(stored(v, s, p), And(ISH(HOFP(p)), p == chunkp(spath(v, s), HOFP(p)))), [S(TFiles.dom(v.g("files")), p)])

    used = lambda c, h: S(c.a("used_chunks"), h)

    def pg_files(c, v0, v, which):
        q = bound("q", P)
        a, b = v0.g("files"), v.g("files")
        return And(TFiles.val(b) == TFiles.val(a), FA([q], S(TFiles.dom(b), q) == And(S(TFiles.dom(a), q), Not(And(stored(v0, me(c), q), Not(used(c, HOFP(q))), which(q)))), [S(TFiles.dom(b), q), S(TFiles.dom(a), q)]))

    def pg_seen(c, v0, v, which):
        h = bound("h", z3.StringSort())
        p = chunkp(spath(v0, me(c)), h)
        a, b = v0.f("Store", "seen", me(c)), v.f("Store", "seen", me(c))
        return FA([h], Imp(ISH(h), S(b, h) == And(S(a, h), Not(And(exists_file(v0, p), Not(used(c, h)), which(p))))), [S(b, h)])

    def seen_only(c, v0, v):
        q, h = bound("q", z3.IntSort()), bound("h", z3.StringSort())
        a, b = v0.arr("Store", "seen"), v.arr("Store", "seen")
        return And(FA([q], Imp(q != me(c), S(b, q) == S(a, q)), [S(b, q)]), FA([h], Imp(S(S(b, me(c)), h), S(S(a, me(c)), h)), [S(S(b, me(c)), h)]))

    def pg_inv(L):
        c = L.vc.ctx
        s = L.seq0.comp[1] if getattr(L.seq0, "comp", None) else L.seq0
        passed = lambda p: s.idx(p) < L.k
        v0, v = L.pre, L.now
        return [("passed unused chunks are gone, all others are there", pg_files(c, v0, v, passed)), ("they are no longer noted as written", pg_seen(c, v0, v, passed)), ("nothing else is noted", seen_only(c, v0, v))]

    def pg_safe(c, post=None):
        """files which vanish are chunks which are not in use"""
        q = bound("q", P)
        a, b = c.pre.g("files"), (post or c.post).g("files")
        return And(TFiles.val(b) == TFiles.val(a), FA([q], And(Imp(S(TFiles.dom(b), q), S(TFiles.dom(a), q)), Imp(And(S(TFiles.dom(a), q), Not(S(TFiles.dom(b), q))), And(ISH(HOFP(q)), q == chunkp(spath(c.pre, me(c)), HOFP(q)), Not(used(c, HOFP(q)))))), [S(TFiles.dom(b), q), S(TFiles.dom(a), q)]))

    def pg_done(c):
        h = bound("h", z3.StringSort())
        return FA([h], Imp(ISH(h), present(c.post, me(c), h) == And(present(c.pre, me(c), h), used(c, h))), [S(TFiles.dom(c.post.g("files")), chunkp(spath(c.pre, me(c)), h))])

    SEENK = ("chunks noted as written exist", lambda c: And(seen_only(c, c.pre, c.post), Imp(of_seen(c.pre, me(c), present), of_seen(c.post, me(c), present))))
    SAFE = ("only chunks which are not in use vanish", lambda c: pg_safe(c))
    u.contract("rbd.chunked.store:Store.purge", [("self", R("Store")), ("used_chunks", SetStr)], requires=[("files of chunks have the names of their hashes", lambda c: wf_store(c.pre, me(c)))],
               modifies=[("ghost", "files"), ("heap", "Store", "seen")], ensures=[("of the chunks those in use are left", pg_done), SAFE, SEENK],
               raises=[("OSError", None, [SAFE, SEENK])], loops={0: pg_inv}, always=[("files", "only chunks which are not in use vanish", lambda c, v: pg_safe(c, v))])

    # ================================================================ File
    TFS = TRec("FileStats", {"bytes_written": TInt, "chunk_stats": TStatsC})
    TChunks = TDict(TInt, R("Chunk"))
    TMap = TMapI
    m.fields.update({
        ("File", "name"): TStr, ("File", "store"): R("Store"), ("File", "stats"): TFS, ("File", "closed"): TBool, ("File", "size"): TInt, ("File", "mode"): TStr,
        ("File", "_position"): TInt, ("File", "_access_stats"): TDict(TInt, TTup(TInt, TReal)), ("File", "_mapping"): TMap, ("File", "_chunks"): TChunks,
    })
    m.field_defaults["File", "_access_stats"] = Builtin("default", lambda it, a, k: (0, z3real(it)))
    F = "rbd.chunked.file:File."
    fld = lambda v, n, r: v.f("File", n, r)

    def cdom(v, r, i):
        return S(TChunks.dom(fld(v, "_chunks", r)), i)

    def cval(v, r, i):
        return S(TChunks.val(fld(v, "_chunks", r)), i)

    def mdom(v, r, i):
        return S(TMap.dom(fld(v, "_mapping", r)), i)

    def mval(v, r, i):
        return S(TMap.val(fld(v, "_mapping", r)), i)

    AI = lambda so: z3.ArraySort(z3.IntSort(), so)
    DAT = z3.Function("data_of_part", TChunks.sort(), TMap.sort(), AI(OBio.sort()), AI(OHash.sort()), AI(BB), z3.IntSort(), BB)

    def data_axiom(it, pre):
        ch, mp, cd, hh, ct, i = z3.Const("dch", TChunks.sort()), z3.Const("dmp", TMap.sort()), z3.Const("dcd", AI(OBio.sort())), z3.Const("dhh", AI(OHash.sort())), z3.Const("dct", AI(BB)), z3.Int("di")
        c = S(TChunks.val(ch), i)
        d, h = S(cd, c), S(hh, c)
        own = z3.If(OBio.is_none(d), z3.If(OHash.is_none(h), EMPTYB, UNHASH(OHash.the(h))), S(ct, OBio.the(d)))
        t = DAT(ch, mp, cd, hh, ct, i)
        return [FA([ch, mp, cd, hh, ct, i], t == z3.If(S(TChunks.dom(ch), i), own, z3.If(S(TMap.dom(mp), i), UNHASH(S(TMap.val(mp), i)), EMPTYB)), [t])]

    u.axioms.append(data_axiom)

    def data(v, r, i):
        """the data of the i-th part of the image: that of its chunk in memory,
        otherwise that with the hash in the map"""
        return DAT(fld(v, "_chunks", r), fld(v, "_mapping", r), v.arr("Chunk", "data"), v.arr("Chunk", "hash"), v.arr("BytesIO", "content"), i)

    def visible(v, r, i):
        return i * CS <= fld(v, "size", r)

    def wf_file(v, r, weak=False):
        i, j = bound("i", z3.IntSort()), bound("j", z3.IntSort())
        c = cval(v, r, i)
        h = v.f("Chunk", "hash", c)
        d, e = v.f("Chunk", "data", c), v.f("Chunk", "data", cval(v, r, j))
        match = z3.If(OHash.is_none(h), Not(mdom(v, r, i)), And(mdom(v, r, i), mval(v, r, i) == OHash.the(h)))
        cond = And(v.f("Chunk", "clean", c), visible(v, r, i)) if weak else v.f("Chunk", "clean", c)
        return And(fld(v, "size", r) >= 0, fld(v, "_position", r) >= 0,
                   FA([i], Imp(cdom(v, r, i), And(i >= 0, 0 <= c, c < v.alloc, wf_chunk(v, c), store_of(v, c) == fld(v, "store", r), small(v, c), Imp(cond, match))), [cdom(v, r, i), c]),
                   FA([i, j], Imp(And(cdom(v, r, i), cdom(v, r, j), i != j), And(c != cval(v, r, j), Or(OBio.is_none(d), d != e))), [z3.MultiPattern(cval(v, r, i), cval(v, r, j)), z3.MultiPattern(cdom(v, r, i), cdom(v, r, j))]),
                   FA([i], Imp(mdom(v, r, i), And(i >= 0, ISH(mval(v, r, i)), LEN(UNHASH(mval(v, r, i))) <= CS)), [mdom(v, r, i), mval(v, r, i)]))

    def whole(v, r):
        """no part of the image is missing"""
        i = z3.Int("wi")
        sz = fld(v, "size", r)
        return FA([i], Imp(And(i >= 0, i * CS < sz), LEN(data(v, r, i)) >= z3.If(sz - i * CS > CS, CS, sz - i * CS)), [data(v, r, i)])

    def same_data(v0, v, r, vis=False):
        i = bound("i", z3.IntSort())
        return FA([i], Imp(visible(v0, r, i) if vis else z3.BoolVal(True), data(v, r, i) == data(v0, r, i)), [data(v, r, i), data(v0, r, i), cdom(v, r, i)])

    def keeps(c, *fields):
        return And(*[c.post.arr("File", f) == c.pre.arr("File", f) for f in fields])

    FMOD = BIO + [("heap", "Chunk", x) for x in ("data", "hash", "clean", "stats", "store")] + [("heap", "Store", "seen"), ("ghost", "files")] + [("heap", "File", x) for x in ("_mapping", "_chunks")]
    opened = lambda v, r, md: And(z3.Contains(fld(v, "mode", r), sv_(md)), Not(fld(v, "closed", r)))
    WF = ("image well-formed", lambda c: wf_file(c.pre, me(c)))
    WFA = ("image well-formed", lambda c: wf_file(c.post, me(c)))
    SAME = ("the data is unchanged", lambda c: same_data(c.pre, c.post, me(c)))

    # -------------------------------------------------------- _flush_chunks
    def others(c, cls, f, r):
        q = bound("q", z3.IntSort())
        a, b = c.pre.arr(cls, f), c.post.arr(cls, f)
        return FA([q], Imp(And(0 <= q, q < c.pre.alloc, q != r), S(b, q) == S(a, q)), [S(b, q)])

    def target(c):
        return z3.If(TOpt(TInt).is_none(c.a("target")), z3.IntVal(10), TOpt(TInt).the(c.a("target")))

    def chunks_frame(v0, v, r):
        """chunks of the image only are changed, and buffers are not"""
        q, i = bound("q", z3.IntSort()), bound("i", z3.IntSort())
        mine = exists_int(lambda i: And(cdom(v0, r, i), cval(v0, r, i) == q))
        return And(*[FA([q], Imp(Not(mine), S(v.arr("Chunk", f), q) == S(v0.arr("Chunk", f), q)), [S(v.arr("Chunk", f), q)]) for f in ("hash", "clean")])

    def file_frame(v0, v, r, fields):
        q = bound("q", z3.IntSort())
        return And(*[FA([q], Imp(q != r, S(v.arr("File", f), q) == S(v0.arr("File", f), q)), [S(v.arr("File", f), q)]) for f in fields])

    def sub_chunks(c):
        i = bound("i", z3.IntSort())
        return FA([i], Imp(cdom(c.post, me(c), i), And(cdom(c.pre, me(c), i), cval(c.post, me(c), i) == cval(c.pre, me(c), i))), [cdom(c.post, me(c), i), cval(c.post, me(c), i)])

    def none_left(c):
        i = bound("i", z3.IntSort())
        return Imp(target(c) == 0, FA([i], Not(cdom(c.post, me(c), i)), [cdom(c.post, me(c), i)]))

    def published(v, r, what):
        """the files of all chunks of the map exist"""
        i = z3.Int("pi")
        return FA([i], Imp(mdom(v, r, i), what(v, fld(v, "store", r), mval(v, r, i))), [mdom(v, r, i)])

    def keep_published(c):
        s = fld(c.pre, "store", me(c))
        return Imp(And(published(c.pre, me(c), present), of_seen(c.pre, s, present)), And(published(c.post, me(c), present), of_seen(c.post, s, present)))

    def fc_inv(L):
        c = L.vc.ctx
        r, v0, v, e = me(c), L.pre, L.now, L.entry
        s = L.seq0
        i, k = bound("i", z3.IntSort()), bound("k", z3.IntSort())
        st = fld(v0, "store", r)
        el = lambda k: s.raw(k)
        id_ = lambda k: TTup(TInt, R("Chunk")).get(el(k), 0)
        ch = lambda k: TTup(TInt, R("Chunk")).get(el(k), 1)
        return [("image well-formed", wf_file(v, r, weak=True)), ("the data is unchanged", same_data(v0, v, r, vis=True)),
                ("passed chunks are clean and in the map", FA([k], Imp(And(0 <= k, k < L.k), And(v.f("Chunk", "clean", ch(k)), Imp(visible(v, r, id_(k)), data(v, r, id_(k)) == z3.If(mdom(v, r, id_(k)), UNHASH(mval(v, r, id_(k))), EMPTYB)))), [el(k)])),
                ("well-formed stays well-formed", Imp(wf_file(v0, r), wf_file(v, r))),
                ("well-formed images: all data is unchanged", Imp(wf_file(v0, r), same_data(v0, v, r))),
                ("buffers are unchanged", chunks_frame(v0, v, r)),
                ("files of chunks exist", Imp(And(published(v0, r, present), of_seen(v0, st, present)), And(published(v, r, present), of_seen(v, st, present)))),
                ("other images are unchanged", file_frame(v0, v, r, ["_mapping"])),
                ("each file is as before or a complete chunk", chunks_only(v0, v, r)), ("allocation grows", v.alloc >= v0.alloc)]

    def chunks_only(v0, v, r):
        """no file changes other than those of chunks, which are complete"""
        q = bound("q", P)
        a, b = v0.g("files"), v.g("files")
        h = HOFP(q)
        same = And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), Imp(S(TFiles.dom(a), q), S(TFiles.val(b), q) == S(TFiles.val(a), q)))
        x = S(TFiles.val(b), q)
        new = And(ISH(h), q == chunkp(v0.f("Store", "path", fld(v0, "store", r)), h), S(TFiles.dom(b), q), LZOK(RAWB(x)), UNLZ(RAWB(x)) == UNHASH(h))
        return FA([q], Imp(Not(IS_TMP(q)), Or(same, new)), [S(TFiles.dom(b), q), S(TFiles.val(b), q)])

    ONLY = ("files", "each file is as before or a complete chunk", lambda c, v: chunks_only(c.pre, v, me(c)))
    ONLYP = ("each file is as before or a complete chunk", lambda c: chunks_only(c.pre, c.post, me(c)))
    u.contract(F + "_flush_chunks", [("self", R("File")), ("target", TOpt(TInt))],
               requires=[("image well-formed", lambda c: wf_file(c.pre, me(c), weak=True)), ("target is not negative", lambda c: target(c) >= 0)],
               modifies=["alloc", ("heap", "Chunk", "hash"), ("heap", "Chunk", "clean"), ("heap", "Store", "seen"), ("ghost", "files"), ("heap", "File", "_mapping"), ("heap", "File", "_chunks")],
               ensures=[("image well-formed", lambda c: wf_file(c.post, me(c), weak=True)), ("visible data is unchanged", lambda c: same_data(c.pre, c.post, me(c), vis=True)),
                        ("well-formed stays well-formed", lambda c: Imp(Or(wf_file(c.pre, me(c)), target(c) == 0), wf_file(c.post, me(c)))), ("well-formed images: all data is unchanged", lambda c: Imp(wf_file(c.pre, me(c)), same_data(c.pre, c.post, me(c)))),
                        ("chunks are only dropped", sub_chunks), ("target 0: all are", none_left), ONLYP, ("files of all chunks exist", keep_published),
                        ("other images are unchanged", lambda c: file_frame(c.pre, c.post, me(c), ["_mapping", "_chunks"]))],
               raises=[("OSError", None, [("well-formed images stay so", lambda c: Imp(wf_file(c.pre, me(c)), wf_file(c.post, me(c)))), ("the map still refers to existing chunks", keep_published), ONLYP])],
               loops={0: fc_inv}, defaults={"target": None}, always=[ONLY])

    # ------------------------------------------------------- _current_chunk
    T3 = TTup(R("Chunk"), TInt, TInt)
    CMOD = ["alloc"] + [("heap", "Chunk", x) for x in ("data", "hash", "clean", "stats", "store")] + [("heap", "Store", "seen"), ("ghost", "files")] + [("heap", "File", x) for x in ("_mapping", "_chunks", "stats", "_access_stats")]

    def cc_result(c):
        ch, id_, off = (T3.get(c.res, k) for k in range(3))
        p = fld(c.pre, "_position", me(c))
        return And(id_ == p / CS, off == p % CS, cdom(c.post, me(c), id_), cval(c.post, me(c), id_) == ch, data(c.post, me(c), id_) == chunk_data(c.post, ch))

    def cc_chunks(c):
        """no other chunks than before, apart from that which is asked for"""
        i = bound("i", z3.IntSort())
        id_ = fld(c.pre, "_position", me(c)) / CS
        v0, v, r = c.pre, c.post, me(c)
        old = And(cdom(v0, r, i), cval(v, r, i) == cval(v0, r, i), v.f("Chunk", "data", cval(v, r, i)) == v0.f("Chunk", "data", cval(v, r, i)))
        return FA([i], Imp(cdom(v, r, i), Or(old, And(i == id_, cval(v, r, i) >= v0.alloc, OBio.is_none(v.f("Chunk", "data", cval(v, r, i)))))), [cdom(v, r, i), cval(v, r, i)])

    OS_ERROR = ("OSError", None, [WFA, ("the map still refers to existing chunks", keep_published)])
    PUB = ("files of all chunks exist", keep_published)
    ONE = lambda *fs: ("other images are unchanged", lambda c: file_frame(c.pre, c.post, me(c), fs))
    u.contract(F + "_current_chunk", [("self", R("File"))], ret=T3, requires=[WF], modifies=CMOD,
               ensures=[("the chunk at the position and the offset therein", cc_result), WFA, SAME, ("chunks are those before and this one", cc_chunks), PUB, ONE("_mapping", "_chunks")],
               raises=[OS_ERROR])

    # ---------------------------------------------------------------- write
    WMOD = CMOD + [("heap", "BytesIO", "content"), ("heap", "BytesIO", "pos"), ("heap", "File", "_position"), ("heap", "File", "size")]
    pos = lambda v, r: fld(v, "_position", r)
    size = lambda v, r: fld(v, "size", r)

    def bytes_are(v, r, upto, value):
        """byte p < upto of the image is value(p, i, o)  (p = i * CS + o)"""
        i, o = bound("i", z3.IntSort()), bound("o", z3.IntSort())
        p = i * CS + o
        return FA([i, o], Imp(And(0 <= i, 0 <= o, o < CS, p < upto), at(data(v, r, i), o) == value(p, i, o)), [at(data(v, r, i), o)])

    def written(v0, v, r, d, n, start):
        """n bytes of d are at the place; other bytes are as before, zero in a gap"""
        return bytes_are(v, r, size(v, r), lambda p, i, o: z3.If(And(start <= p, p < start + n), at(d, p - start), z3.If(p < size(v0, r), at(data(v0, r, i), o), 0)))

    def keep_whole(v0, v, r):
        return Imp(whole(v0, r), whole(v, r))

    KW = ("complete images stay complete", lambda c: keep_whole(c.pre, c.post, me(c)))
    writable_ = lambda c: opened(c.pre, me(c), "w")
    ASSERT_W = ("AssertionError", lambda c: Not(writable_(c)), [WFA, SAME])
    BROKEN = ("BackendException", None, [WFA, PUB])

    def here(L, r, i, o):
        """the part at the position, before and after it; other parts"""
        p = pos(L.head, r)
        return [And(i == p / CS, o < p % CS), And(i == p / CS, o >= p % CS), i != p / CS]

    def wr_inv(L):
        c = L.vc.ctx
        r, v0, v, e = me(c), L.pre, L.now, L.entry
        d0, d = c.a("data"), L.local("data", TBytes)
        n0, n = LEN(d0), LEN(d)
        w = n0 - n
        i = bound("i", z3.IntSort())
        return [("what remains is the end of the data", And(0 <= n, n <= n0, FA([i], Imp(And(0 <= i, i < n), at(d, i) == at(d0, i + w)), [at(d, i)]))),
                ("image well-formed", wf_file(v, r)), ("position", pos(v, r) == pos(v0, r) + w), ("the position lies within the image", Or(n0 == 0, pos(v0, r) <= size(e, r))),
                ("size", size(v, r) == z3.If(And(w > 0, pos(v, r) > size(e, r)), pos(v, r), size(e, r))),
                ("bytes", written(e, v, r, d0, w, pos(v0, r)), lambda i, o: here(L, r, i, o)), ("complete images stay complete", keep_whole(e, v, r), lambda i: [i == pos(L.head, r) / CS]),
                ("files of all chunks exist", keep_pub(e, v, r)), ("other images are unchanged", file_frame(v0, v, r, ["_mapping", "_chunks", "_position", "size"])), ("allocation grows", v.alloc >= v0.alloc)]

    def keep_pub(v0, v, r):
        s = fld(v0, "store", r)
        return Imp(And(published(v0, r, present), of_seen(v0, s, present)), And(published(v, r, present), of_seen(v, s, present)))

    def wr_post(c):
        n, p = LEN(c.a("data")), pos(c.pre, me(c))
        return And(pos(c.post, me(c)) == p + n, size(c.post, me(c)) == z3.If(And(n > 0, p + n > size(c.pre, me(c))), p + n, size(c.pre, me(c))))

    u.contract(F + "write", [("self", R("File")), ("data", TBytes)], requires=[WF], modifies=WMOD,
               ensures=[("only if the image is open for writing", writable_), ("position and size", wr_post), ("the data is at the position, other bytes are as before", lambda c: written(c.pre, c.post, me(c), c.a("data"), LEN(c.a("data")), pos(c.pre, me(c)))),
                        WFA, KW, PUB, ONE("_mapping", "_chunks", "_position", "size")],
               raises=[ASSERT_W, OS_ERROR, BROKEN], loops={0: wr_inv})

    # ----------------------------------------------------------------- seek
    def target_(c):
        w, o = c.a("whence"), c.a("offset")
        return z3.If(w == 0, o, z3.If(w == 2, size(c.pre, me(c)) + o, pos(c.pre, me(c)) + o))

    def sk_post(c):
        t, s = target_(c), size(c.pre, me(c))
        return And(c.res == t, pos(c.post, me(c)) == t, size(c.post, me(c)) == z3.If(t > s, t, s), t >= 0)

    def sk_same(c):
        return Imp(target_(c) <= size(c.pre, me(c)), And(same_data(c.pre, c.post, me(c)), fld(c.post, "_mapping", me(c)) == fld(c.pre, "_mapping", me(c)), fld(c.post, "_chunks", me(c)) == fld(c.pre, "_chunks", me(c)), c.post.g("files") == c.pre.g("files")))

    def sk_inv(L):
        c = L.vc.ctx
        r, v0, v, e = me(c), L.pre, L.now, L.entry
        f = L.local("filler", TInt)
        return [("image well-formed", wf_file(v, r)), ("what remains to be filled", And(f >= 0, size(v, r) + f == target_(c), pos(v, r) == size(v, r), size(v, r) >= size(v0, r))),
                ("without write access nothing is written", Imp(Not(writable_(c)), same_data(v0, v, r))),
                ("bytes", bytes_are(v, r, size(v, r), lambda p, i, o: z3.If(p < size(v0, r), at(data(v0, r, i), o), 0))), ("complete images stay complete", keep_whole(v0, v, r)),
                ("files of all chunks exist", keep_pub(v0, v, r)), ("other images are unchanged", file_frame(v0, v, r, ["_mapping", "_chunks", "_position", "size"])), ("allocation grows", v.alloc >= v0.alloc)]

    valid_whence = lambda c: Or(c.a("whence") == 0, c.a("whence") == 1, c.a("whence") == 2)
    unchanged_file = ("nothing is changed", lambda c: And(*[c.post.arr("File", f) == c.pre.arr("File", f) for f in ("_position", "size", "_mapping", "_chunks")], c.post.arr("Chunk", "data") == c.pre.arr("Chunk", "data")))
    u.contract(F + "seek", [("self", R("File")), ("offset", TInt), ("whence", TInt)], ret=TInt, requires=[WF], modifies=WMOD,
               ensures=[("position and size", sk_post), ("a gap is filled with zeroes, other bytes are as before", lambda c: bytes_are(c.post, me(c), size(c.post, me(c)), lambda p, i, o: z3.If(p < size(c.pre, me(c)), at(data(c.pre, me(c), i), o), 0))),
                        ("within the image: nothing but the position is changed", sk_same), WFA, KW, PUB, ONE("_mapping", "_chunks", "_position", "size")],
               raises=[("ValueError", lambda c: Or(Not(valid_whence(c)), target_(c) < 0), [unchanged_file]),
                       ("AssertionError", lambda c: Or(fld(c.pre, "closed", me(c)), And(Not(writable_(c)), target_(c) > size(c.pre, me(c)))), [WFA, SAME]), OS_ERROR, BROKEN],
               loops={0: sk_inv}, defaults={"whence": 0})
    u.contract(F + "tell", [("self", R("File"))], ret=TInt, ensures=[("the position", lambda c: c.res == pos(c.pre, me(c)))], raises=[("AssertionError", lambda c: fld(c.pre, "closed", me(c)), [])])

    # ----------------------------------------------------------------- read
    def rd_len(c):
        s = size(c.pre, me(c)) - pos(c.pre, me(c))
        mx = z3.If(s > 0, s, 0)
        n = c.a("size")
        return z3.If(Or(n == -1, n > mx), mx, n)

    def rd_is(v0, r, d, n):
        """the n bytes of d are those of the image from the position"""
        i, o = bound("i", z3.IntSort()), bound("o", z3.IntSort())
        p = i * CS + o
        s = pos(v0, r)
        return FA([i, o], Imp(And(0 <= i, 0 <= o, o < CS, s <= p, p < s + n), at(d, p - s) == at(data(v0, r, i), o)), [at(data(v0, r, i), o)])

    def rd_inv(L):
        c = L.vc.ctx
        r, v0, v, e = me(c), L.pre, L.now, L.entry
        n = L.local("size", TInt)
        res = L.local("result", TBio)
        buf = v.f("BytesIO", "content", res)
        i = bound("i", z3.IntSort())
        got = pos(v, r) - pos(v0, r)
        return [("image well-formed", wf_file(v, r)), ("the data is unchanged", same_data(v0, v, r)),
                ("what remains to be read", And(got >= 0, n >= 0, got + n == rd_len(c), LEN(buf) == got, v.f("BytesIO", "pos", res) == got)),
                ("what has been read", rd_is(v0, r, buf, got)),
                ("the result is no buffer of a chunk", And(v0.alloc <= res, res < v.alloc, FA([i], Imp(cdom(v, r, i), v.f("Chunk", "data", cval(v, r, i)) != OBio.some(res)), [cdom(v, r, i), cval(v, r, i)]))),
                ("files of all chunks exist", keep_pub(v0, v, r)), ("other images are unchanged", file_frame(v0, v, r, ["_mapping", "_chunks", "_position"])), ("allocation grows", v.alloc >= v0.alloc)]

    RMOD = [x for x in WMOD if x != ("heap", "File", "size")]
    u.contract(F + "read", [("self", R("File")), ("size", TInt)], ret=TBytes, requires=[WF, ("the size is -1 or not negative", lambda c: c.a("size") >= -1)], modifies=RMOD,
               ensures=[("length and position", lambda c: And(LEN(c.res) == rd_len(c), pos(c.post, me(c)) == pos(c.pre, me(c)) + rd_len(c))),
                        ("the bytes of the image from the position", lambda c: rd_is(c.pre, me(c), c.res, rd_len(c))), WFA, SAME, PUB, ONE("_mapping", "_chunks", "_position")],
               raises=[("AssertionError", lambda c: Not(opened(c.pre, me(c), "r")), [unchanged_file]), OS_ERROR, BROKEN, ("ValueError", lambda c: Not(whole(c.pre, me(c))), [WFA])],
               loops={0: rd_inv}, defaults={"size": -1})

    # ---------------------------------------------------------------- flush
    mp_ = lambda v, r: z3.simplify(PATHOF(fld(v, "name", r)))
    fval = lambda v, p: S(TFiles.val(v.g("files")), p)

    def no_chunk(c):
        """the map is not kept where chunks are"""
        h = bound("h", z3.StringSort())
        r = me(c)
        cp = chunkp(c.pre.f("Store", "path", fld(c.pre, "store", r)), h)
        return And(Not(IS_TMP(mp_(c.pre, r))), FA([h], Imp(ISH(h), cp != mp_(c.pre, r)), [cp]))

    def intact(v0, v, r):
        """whatever happens: the map file is as before, or no map at all, or the
        current map, whose chunks all exist; other files are as before or complete chunks"""
        p = mp_(v0, r)
        q = bound("q", P)
        a, b = v0.g("files"), v.g("files")
        h = HOFP(q)
        same = lambda q: And(S(TFiles.dom(b), q) == S(TFiles.dom(a), q), Imp(S(TFiles.dom(a), q), S(TFiles.val(b), q) == S(TFiles.val(a), q)))
        x = S(TFiles.val(b), q)
        new = And(ISH(h), q == chunkp(v0.f("Store", "path", fld(v0, "store", r)), h), S(TFiles.dom(b), q), LZOK(RAWB(x)), UNLZ(RAWB(x)) == UNHASH(h))
        s = fld(v0, "store", r)
        i = bound("i", z3.IntSort())
        ok = Imp(And(published(v0, r, present), of_seen(v0, s, present)), And(published(v, r, present), of_seen(v, s, present)))
        cur = And(fval(v, p) == APP(EMPTY, ENCJ(fld(v, "_mapping", r), size(v, r))), ok, FA([i], Not(cdom(v, r, i)), [cdom(v, r, i)]))
        return And(FA([q], Imp(And(Not(IS_TMP(q)), q != p), Or(same(q), new)), [S(TFiles.dom(b), q), S(TFiles.val(b), q)]),
                   Or(same(p), And(S(TFiles.dom(b), p), Or(Not(J_OK(fval(v, p))), cur))))

    INTACT = ("files", "the map file is as before, invalid, or refers to existing chunks", lambda c, v: intact(c.pre, v, me(c)))
    INTACTP = (INTACT[1], lambda c: intact(c.pre, c.post, me(c)))
    NOCHUNK = ("the map is not kept where chunks are", no_chunk)

    def saved_map(c):
        p = mp_(c.pre, me(c))
        return And(exists_file(c.post, p), fval(c.post, p) == APP(EMPTY, ENCJ(fld(c.post, "_mapping", me(c)), size(c.post, me(c)))))

    def no_chunks(c):
        i = bound("i", z3.IntSort())
        return FA([i], Not(cdom(c.post, me(c), i)), [cdom(c.post, me(c), i)])

    FLMOD = ["alloc", ("heap", "Chunk", "hash"), ("heap", "Chunk", "clean"), ("heap", "Store", "seen"), ("ghost", "files"), ("heap", "File", "_mapping"), ("heap", "File", "_chunks")]
    WEAK = ("image well-formed", lambda c: wf_file(c.pre, me(c), weak=True))
    VISIBLE = ("the data is unchanged", lambda c: same_data(c.pre, c.post, me(c), vis=True))
    FLUSHED = [("the map file holds the map and the size", saved_map), ("no changes are left in memory", no_chunks), WFA, PUB]
    FLERR = ("OSError", None, [("well-formed images stay so", lambda c: Imp(wf_file(c.pre, me(c)), wf_file(c.post, me(c)))), PUB, INTACTP])
    u.contract(F + "flush", [("self", R("File"))], requires=[WEAK, NOCHUNK], modifies=FLMOD, ensures=[*FLUSHED, VISIBLE, INTACTP, ONE("_mapping", "_chunks")],
               raises=[("AssertionError", lambda c: Not(writable_(c)), [unchanged_file]), FLERR], always=[INTACT])
    u.contract(F + "close", [("self", R("File"))], requires=[WEAK, NOCHUNK], modifies=FLMOD + [("heap", "File", "closed")],
               ensures=[("open for writing: the map file holds the map and the size", lambda c: Imp(writable_(c), And(saved_map(c), no_chunks(c)))), ("otherwise nothing is written", lambda c: Imp(Not(writable_(c)), c.post.g("files") == c.pre.g("files"))),
                        PUB, VISIBLE, INTACTP, ("closed", lambda c: And(Not(fld(c.pre, "closed", me(c))), c.post.arr("File", "closed") == z3.Store(c.pre.arr("File", "closed"), me(c), True))), ONE("_mapping", "_chunks")],
               raises=[("AssertionError", lambda c: fld(c.pre, "closed", me(c)), [unchanged_file]), FLERR], always=[INTACT])

    # ------------------------------------------------------------- truncate
    TOI = TOpt(TInt)

    def tr_size(c):
        return z3.If(TOI.is_none(c.a("size")), pos(c.pre, me(c)), TOI.the(c.a("size")))

    def tr_bytes(c):
        return bytes_are(c.post, me(c), tr_size(c), lambda p, i, o: z3.If(p < size(c.pre, me(c)), at(data(c.pre, me(c), i), o), 0))

    def tr_inv(L):
        c = L.vc.ctx
        r, v0, v, e = me(c), L.pre, L.now, L.entry
        i = bound("i", z3.IntSort())
        mp1, mp0 = (lambda i: S(TMap.dom(fld(v, "_mapping", r)), i)), (lambda i: S(TMap.dom(fld(e, "_mapping", r)), i))
        return [("entries within the size are kept", FA([i], Imp(i * CS <= size(e, r), And(mp1(i) == mp0(i), mval(v, r, i) == mval(e, r, i))), [mp1(i), mp0(i)])),
                ("those to be removed are still there", FA([i], Imp(And(S(L.seq0.dom, i), L.seq0.idx(i) >= L.k), mp1(i)), [S(L.seq0.dom, i)])),
                ("the data within the size is unchanged", FA([i], Imp(i * CS <= size(e, r), data(v, r, i) == data(e, r, i)), [data(v, r, i)])),
                ("no entries are added", FA([i], Imp(mp1(i), And(mp0(i), mval(v, r, i) == mval(e, r, i))), [mp1(i)])),
                ("other images are unchanged", file_frame(v0, v, r, ["_mapping", "_chunks", "_position", "size"]))]

    u.contract(F + "truncate", [("self", R("File")), ("size", TOI)], requires=[WF, NOCHUNK, ("the size is not negative", lambda c: tr_size(c) >= 0)], modifies=WMOD,
               ensures=[("position and size", lambda c: And(size(c.post, me(c)) == tr_size(c), pos(c.post, me(c)) == pos(c.pre, me(c)))), ("bytes within the size are as before, added ones are zero", tr_bytes), *FLUSHED, KW, ONE("_mapping", "_chunks", "_position", "size")],
               raises=[("AssertionError", lambda c: Not(writable_(c)), [WFA]), ("OSError", None, [PUB]), ("BackendException", None, [PUB])], loops={0: tr_inv}, defaults={"size": None})

    # ------------------------------------------------------------- __init__
    def had(c, x):
        return z3.Contains(c.a("mode"), sv_(x))

    wants_w = lambda c: Or(had(c, "w"), had(c, "a"), had(c, "+"))
    was = lambda c: fval(c.pre, c.a("name"))

    def in_mode(c):
        md = fld(c.post, "mode", me(c))
        return And(z3.Contains(md, sv_("w")) == wants_w(c), z3.Contains(md, sv_("r")) == had(c, "r"))

    def doc_fine(cn):
        """the map refers to proper hashes of chunks"""
        k = bound("k", z3.StringSort())
        h = S(TSM.val(J_MAP(cn)), k)
        return FA([k], Imp(S(TSM.dom(J_MAP(cn)), k), And(lib.ISINT(k), lib.INTOF(k) >= 0, ISH(h), LEN(UNHASH(h)) <= CS)), [S(TSM.dom(J_MAP(cn)), k)])

    def in_state(c):
        r, v = me(c), c.post
        ex = exists_file(c.pre, c.a("name"))
        return And(PATHOF(fld(v, "name", r)) == c.a("name"), fld(v, "store", r) == c.a("store"), Not(fld(v, "closed", r)), size(v, r) == z3.If(ex, J_SIZE(was(c)), 0), pos(v, r) == z3.If(had(c, "a"), size(v, r), 0), no_chunks(c))

    def in_map(c):
        i = bound("i", z3.IntSort())
        ex = exists_file(c.pre, c.a("name"))
        r, v = me(c), c.post
        return Imp(Not(ex), FA([i], Not(mdom(v, r, i)), [mdom(v, r, i)]))

    def in_round(c):
        """what flush has saved is there again"""
        mp, n, i = bound("mp", TMapI.sort()), bound("n", z3.IntSort()), bound("i", z3.IntSort())
        doc = APP(EMPTY, ENCJ(mp, n))
        r, v = me(c), c.post
        nn = FA([i], Imp(S(TMapI.dom(mp), i), i >= 0), [S(TMapI.dom(mp), i)])
        return FA([mp, n], Imp(And(exists_file(c.pre, c.a("name")), was(c) == doc, nn),
                               And(size(v, r) == n, FA([i], And(mdom(v, r, i) == S(TMapI.dom(mp), i), Imp(mdom(v, r, i), mval(v, r, i) == S(TMapI.val(mp), i))), [mdom(v, r, i), S(TMapI.dom(mp), i)]))), [doc])

    def in_wf(c):
        ex = exists_file(c.pre, c.a("name"))
        return Imp(Or(Not(ex), And(doc_fine(was(c)), J_SIZE(was(c)) >= 0)), wf_file(c.post, me(c)))

    STATS = TOpt(TFS)
    u.contract(F + "__init__", [("self", R("File")), ("name", TPath), ("store", R("Store")), ("mode", TStr), ("stats", STATS)],
               modifies=[("heap", "File", f) for f in ("name", "store", "stats", "closed", "_position", "_access_stats", "mode", "_mapping", "size", "_chunks")],
               ensures=[("mode", in_mode), ("what is read exists", lambda c: Or(wants_w(c), exists_file(c.pre, c.a("name")))), ("name, size and position", in_state), ("a new image is empty", in_map), ("the saved map is there again", in_round), ("proper maps yield well-formed images", in_wf), ("other images are unchanged", lambda c: file_frame(c.pre, c.post, me(c), ("name", "store", "stats", "_access_stats", "closed", "_position", "mode", "_mapping", "size", "_chunks")))],
               raises=[("FileNotFoundError", lambda c: And(Not(exists_file(c.pre, c.a("name"))), Not(wants_w(c))), []), ("OSError", None, []),
                       ("ValueError", lambda c: And(exists_file(c.pre, c.a("name")), Or(Not(J_OK(was(c))), FIRST2(was(c)) != sv_('{"'), z3.Not(doc_fine(was(c))))), [])],
               defaults={"mode": "rw", "stats": None})

    u.ns = {**getattr(u, "ns", {}), **locals()}
    return m


def z3real(it):
    return Sym(TReal, z3.RealVal(0))
