"""Comparing, copying and restoring images (C05, C06, C24): binary streams with
a content and a position. Reading gets all there is up to the size asked for;
operations fail without any effect (what a failed write leaves is not known,
but no contract says anything about contents after an error)."""
from .chunked import *  # noqa
from . import base
from pyvc.verify import View

TStream = R("Stream")
LInt = TList(TInt)


def clip(n, lo, hi):
    return z3.If(n < lo, lo, z3.If(n > hi, hi, n))


def same_range(a, b, lo, hi):
    """the bytes from lo to hi (as far as there are any) are the same"""
    i = bound("i", z3.IntSort())
    return And(clip(LEN(a), lo, hi) == clip(LEN(b), lo, hi), FA([i], Imp(And(lo <= i, i < hi), at(a, i) == at(b, i)), [at(a, i)]))


# -------------------------------------------------------------- streams
def st_get(it, o):
    return z3.simplify(S(it.heap_arr("Stream", "content"), o.ref)), z3.simplify(S(it.heap_arr("Stream", "pos"), o.ref))


def st_seek(it, a, k):
    o, p = a[0], it.encode(a[1], TInt)
    w = it.force(a[2] if len(a) > 2 else k.get("whence", 0))
    fails(it)
    b, q = st_get(it, o)
    if w == 2:
        p = z3.simplify(LEN(b) + p)
    elif w == 1:
        p = z3.simplify(q + p)
    elif w != 0:
        raise Unsupported("seek")
    it.raise_if(p < 0, "ValueError")
    it.heap_set("Stream", "pos", o.ref, p)
    return Sym(TInt, p)


def st_tell(it, a, k):
    return Sym(TInt, st_get(it, a[0])[1])


def st_read(it, a, k):
    o = a[0]
    fails(it)
    b, p = st_get(it, o)
    n = LEN(b)
    size = it.force(a[1]) if len(a) > 1 else -1
    lo = z3.If(p > n, n, p)
    if size is None or size == -1:
        hi = n
    else:
        s = it.encode(size, TInt)
        hi = z3.If(Or(s < 0, lo + s > n), n, lo + s)
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    it.assume_bytes(b)
    r = it.bytes_slice(Sym(TBytes, b), lo, hi)
    if isinstance(r, Sym) and not r.t.eq(b):
        i = bound("i", z3.IntSort())
        it.assume(FA([i], Imp(And(lo <= i, i < hi), at(b, i) == at(r.t, i - lo)), [at(b, i)]))
    it.heap_set("Stream", "pos", o.ref, z3.simplify(z3.If(p > n, p, hi)))
    return r


def st_write(it, a, k):
    o = a[0]
    d = it.encode(a[1], TBytes)
    fails(it)
    b, p = st_get(it, o)
    it.assume_bytes(b)
    r = patch(it, b, p, d)
    it.heap_set("Stream", "content", o.ref, it.encode(r, TBytes))
    it.heap_set("Stream", "pos", o.ref, z3.simplify(p + LEN(d)))
    return Sym(TInt, LEN(d))


def st_truncate(it, a, k):
    """devices cannot be truncated"""
    o = a[0]
    b, p = st_get(it, o)
    it.raise_if(Not(S(it.heap_arr("Stream", "regular"), o.ref)), "OSError")
    n = it.force(a[1]) if len(a) > 1 else None
    n = p if n is None else it.encode(n, TInt)
    it.assume_bytes(b)
    r = it.named_bytes("truncated", n, lambda i: at(b, i), lambda i: [at(b, i)])
    it.heap_set("Stream", "content", o.ref, it.encode(r, TBytes))
    return Sym(TInt, n)


def st_fileno(it, a, k):
    return Opaque("fd")


def st_flush(it, a, k):
    fails(it)


def zero_range(it, b, off, n):
    """bytes from the offset are zero, as far as there are any"""
    return it.named_bytes("punched", LEN(b), lambda i: z3.If(And(off <= i, i < off + n), z3.IntVal(0), at(b, i)), lambda i: [at(b, i)])


def fallocate(it, a, k):
    """punches a hole, without a change of the size, if the file system can"""
    o, mode, off, n = a[0], it.force(a[1]), it.encode(a[2], TInt), it.encode(a[3], TInt)
    if mode != 3:
        raise Unsupported(f"fallocate mode {mode!r}")
    it.raise_if(n <= 0, "OSError")
    it.raise_if(off < 0, "OSError")
    fails(it)
    b, p = st_get(it, o)
    it.raise_if(And(Not(S(it.heap_arr("Stream", "regular"), o.ref)), off + n > LEN(b)), "OSError")
    it.assume_bytes(b)
    it.heap_set("Stream", "content", o.ref, it.encode(zero_range(it, b, off, n), TBytes))


def sample(it, a, k):
    """some of the elements, each at most once"""
    s, n = it.seq(a[0]), it.encode(a[1], TInt)
    if s is None:
        raise Unsupported("random.sample")
    it.raise_if(Or(n < 0, n > s.n), "ValueError")
    size = it.fresh("sample_size", z3.IntSort())
    it.assume(size == n)
    n = size
    arr = it.fresh("sample", z3.ArraySort(z3.IntSort(), z3.IntSort()))
    q, r = bound("q", z3.IntSort()), bound("r", z3.IntSort())
    lo = it.encode(s.get(z3.IntVal(0)), TInt)
    it.assume(FA([q], Imp(And(0 <= q, q < n), And(S(arr, q) >= lo, S(arr, q) < lo + s.n)), [S(arr, q)]))
    it.assume(FA([q, r], Imp(And(0 <= q, q < n, 0 <= r, r < n, q != r), S(arr, q) != S(arr, r)), [z3.MultiPattern(S(arr, q), S(arr, r))]))
    t = LInt.mk(n, arr) if hasattr(LInt, "mk") else None
    it.set_ghost("sampled", t)
    return it.decode(t, LInt)


def setup_streams(u):
    m = u.model
    m.fields.update({("Stream", "content"): TBytes, ("Stream", "pos"): TInt, ("Stream", "regular"): TBool})
    for n, f in (("seek", st_seek), ("tell", st_tell), ("read", st_read), ("write", st_write), ("truncate", st_truncate), ("fileno", st_fileno), ("flush", st_flush)):
        m.methods["Stream", n] = (lambda f: lambda it, a, k: f(it, a, k))(f)
    m.ghosts["sampled"] = LInt
    m.ghosts["reports"] = TInt
    m.ghosts["out"] = TInt  # the stream opened for writing last
    m.ghosts["outpath"] = TPath
    m.builtins["open"] = st_open
    m.methods["Stream", "close"] = m.methods["Stream", "flush"]
    m.methods["Stream", "__enter__"] = lambda it, a, k: a[0]
    m.methods["Stream", "__exit__"] = lambda it, a, k: st_flush(it, a, k)
    m.ext.update({"random.sample": sample, "os.SEEK_END": 2, "os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.POSIX_FADV_SEQUENTIAL": 2, "os.POSIX_FADV_RANDOM": 1,
                  "structlog.stdlib.get_logger": lambda it, a, k: Opaque("log"), "hashlib.md5": lambda it, a, k: Opaque("md5")})
    m.stubs["utils:fallocate"] = fallocate


def st_open(it, a, k):
    """open(): the file as a stream"""
    mode = it.force(a[1] if len(a) > 1 else k.get("mode", "r"))
    t = it.force(a[0])
    p = z3.simplify(PATHOF(it.encode(t, TStr)) if isinstance(t, str) or isinstance(t, Sym) and t.ty == TStr else as_path(it, t))
    fails(it)
    if mode not in ("rb", "r+b", "ab"):
        raise Unsupported(f"open for {mode!r}")
    o = new_stream(it)
    if mode != "rb":
        it.set_ghost("outpath", p)
        it.set_ghost("out", o.ref)
    if mode == "ab":
        it.heap_set("Stream", "pos", o.ref, LEN(S(it.heap_arr("Stream", "content"), o.ref)))
    return o


def new_stream(it, content=None):
    """a stream at its beginning"""
    o = it.alloc("Stream")
    d = it.fresh("content", BB) if content is None else content
    it.assume(And(ISB(d), LEN(d) >= 0))
    it.heap_set("Stream", "content", o.ref, d)
    it.heap_set("Stream", "pos", o.ref, z3.IntVal(0))
    it.heap_set("Stream", "regular", o.ref, it.fresh("regular", z3.BoolSort()))
    return o


def setup(u):
    m = base.setup(u)
    setup_world(u)
    setup_files(u)
    return contracts(u, m)


def contracts(u, m):
    setup_bytes(u)
    setup_streams(u)
    con = lambda v, o: v.f("Stream", "content", o)
    pos = lambda v, o: v.f("Stream", "pos", o)
    STREAMS = [("heap", "Stream", "content"), ("heap", "Stream", "pos")]
    OSE = "OSError"

    def others(c, *ok):
        """no other stream changes"""
        o = bound("o", z3.IntSort())
        a, b = c.pre.arr("Stream", "content"), c.post.arr("Stream", "content")
        x, y = c.pre.arr("Stream", "pos"), c.post.arr("Stream", "pos")
        return FA([o], Imp(And(*[o != r for r in ok]), And(S(b, o) == S(a, o), S(y, o) == S(x, o))), [S(b, o), S(y, o)])

    def wf(v, *os):
        return And(*[And(ISB(con(v, o)), LEN(con(v, o)) >= 0, pos(v, o) >= 0) for o in os])

    def reporter(it):
        """what is reported must be two different pieces of the images, at their position"""
        def rep(it, a, k):
            c = it.vc.ctx
            x, y, p = it.encode(a[0], TBytes), it.encode(a[1], TBytes), it.encode(a[2], TInt)
            v = View(it, it.st)
            ca, cb = con(v, c.a("a")), con(v, c.a("b"))
            i = z3.Int(f"ri{len(it.pc)}")
            it.vc.prove(it, "what is reported differs", x != y)
            for w, t in (("first", (x, ca)), ("second", (y, cb))):
                d, f = t
                it.vc.prove(it, f"what is reported is in the {w} image", And(LEN(d) >= 0, Imp(LEN(d) > 0, p + LEN(d) <= LEN(f)), Imp(And(0 <= i, i < LEN(d)), at(d, i) == at(f, i + p))))
            it.set_ghost("reports", z3.simplify(it.get_ghost("reports") + 1))
        return Builtin("report", rep)

    # -------------------------------------------------------- comparison
    def eq_inv(L):
        c = L.vc.ctx
        a, b, v = c.a("a"), c.a("b"), L.now
        p, e = L.local("position", TInt), L.local("errors", TInt)
        A, B = con(v, a), con(v, b)
        return [("positions", And(p >= 0, pos(v, a) == z3.If(p > LEN(A), LEN(A), p), pos(v, b) == z3.If(p > LEN(B), LEN(B), p))),
                ("the images are unchanged", v.arr("Stream", "content") == L.pre.arr("Stream", "content")),
                ("no error if all is the same so far", And(e >= 0, Imp(e == 0, same_range(A, B, z3.IntVal(0), p)))),
                ("errors are real", Imp(e > 0, A != B)),
                ("each error is reported", v.g("reports") == L.pre.g("reports") + e)]

    u.contract("utils:files_are_equal", [("a", TStream), ("b", TStream), ("report", reporter)], ret=TBool, modifies=[STREAMS[1], ("ghost", "reports")],
               requires=[("two streams at their beginning", lambda c: And(c.a("a") != c.a("b"), wf(c.pre, c.a("a"), c.a("b")), pos(c.pre, c.a("a")) == 0, pos(c.pre, c.a("b")) == 0))],
               ensures=[("true if and only if the images are the same", lambda c: c.res == (con(c.pre, c.a("a")) == con(c.pre, c.a("b")))),
                        ("a difference is reported", lambda c: (c.post.g("reports") == c.pre.g("reports")) == c.res)],
               raises=[OSE], loops={0: eq_inv})

    def rough_inv(L):
        c = L.vc.ctx
        a, b, v = c.a("a"), c.a("b"), L.now
        bs = CS
        j = bound("j", z3.IntSort())
        sm = v.g("sampled")
        s = S(LInt.arr(sm), j)
        return [("the images are unchanged", v.arr("Stream", "content") == L.pre.arr("Stream", "content")),
                ("nothing was reported", v.g("reports") == L.pre.g("reports")),
                ("positions", And(pos(v, a) >= 0, pos(v, b) >= 0)),
                ("the sampled blocks are the same so far", FA([j], Imp(And(0 <= j, j < L.k), same_range(con(v, a), con(v, b), s * bs, s * bs + bs)), [s]))]

    def all_same(c):
        j = bound("j", z3.IntSort())
        sm = c.post.g("sampled")
        s = S(LInt.arr(sm), j)
        bs = CS
        return FA([j], Imp(And(0 <= j, j < LInt.len(sm)), same_range(con(c.pre, c.a("a")), con(c.pre, c.a("b")), s * bs, s * bs + bs)), [s])

    def sampled(c):
        j = bound("j", z3.IntSort())
        sm = c.post.g("sampled")
        s = S(LInt.arr(sm), j)
        n = LEN(con(c.pre, c.a("a"))) / CS
        return And(LInt.len(sm) >= 1, FA([j], Imp(And(0 <= j, j < LInt.len(sm)), And(s >= 0, s < z3.If(n > 1, n, 1))), [s]))

    def report_once(ctx):
        """the caller's function gets the report"""
        it, v = ctx.it, ctx.vals["report"]
        if v is not None and it.branch(Not(ctx.result)):
            x, y, p = (it.fresh_val(n, t) for n, t in (("first", TBytes), ("second", TBytes), ("position", TInt)))
            it.call(v, [x, y, p], {})

    u.contract("utils:files_are_roughly_equal", [("a", TStream), ("b", TStream), ("samplesize", lambda it: 0.01), ("blocksize", lambda it: CS), ("timeout", TInt), ("report", reporter)], ret=TBool,
               modifies=[STREAMS[1], ("ghost", "reports"), ("ghost", "sampled"), ("ghost", "clock")],
               requires=[("two streams", lambda c: And(c.a("a") != c.a("b"), wf(c.pre, c.a("a"), c.a("b")))), ("a time limit", lambda c: c.a("timeout") >= 0)],
               ensures=[("false only if the images differ, and this is reported", lambda c: Imp(Not(c.res), And(con(c.pre, c.a("a")) != con(c.pre, c.a("b")), c.post.g("reports") == c.pre.g("reports") + 1))),
                        ("true only if all sampled blocks are the same, or the time is over", lambda c: Imp(c.res, And(c.post.g("reports") == c.pre.g("reports"), Or(all_same(c), c.post.g("clock") - c.pre.g("clock") > z3.ToReal(c.a("timeout")))))),
                        ("blocks of the first image are sampled, at least one", sampled)],
               raises=[OSE, ("ValueError", lambda c: z3.BoolVal(False), [])], loops={1: rough_inv}, after=report_once, accepts=lambda it, vals: vals["samplesize"] == 0.01 and vals["blocksize"] == CS)

    # -------------------------------------------------------- holes
    def zeroed(v0, v, f, off, n, grow):
        """bytes from the offset are zero, all others as before"""
        a, b = con(v0, f), con(v, f)
        i = bound("i", z3.IntSort())
        end = off + n
        return And(ISB(b), Or(LEN(b) == LEN(a), And(LEN(b) == end, end > LEN(a)) if grow else False),
                   FA([i], at(b, i) == z3.If(And(off <= i, i < end), z3.IntVal(0), at(a, i)), [at(b, i)]))

    u.contract("utils:_fake_fallocate", [("fd", TStream), ("mode", lambda it: 3), ("offset", TInt), ("len_", TInt)], modifies=STREAMS,
               requires=[("a stream", lambda c: wf(c.pre, c.a("fd")))],
               ensures=[("the range is zero, the rest as before", lambda c: And(zeroed(c.pre, c.post, c.a("fd"), c.a("offset"), c.a("len_"), True), LEN(con(c.post, c.a("fd"))) == z3.If(c.a("offset") + c.a("len_") > LEN(con(c.pre, c.a("fd"))), c.a("offset") + c.a("len_"), LEN(con(c.pre, c.a("fd")))))),
                        ("the position is as before", lambda c: pos(c.post, c.a("fd")) == pos(c.pre, c.a("fd"))), ("other streams are unchanged", lambda c: others(c, c.a("fd"))),
                        ("only for holes", lambda c: And(c.a("len_") > 0, c.a("offset") >= 0))],
               raises=[OSE, ("ValueError", lambda c: c.a("offset") < 0, [])], accepts=lambda it, vals: vals["mode"] == 3)
    u.contract("utils:punch_hole", [("f", TStream), ("offset", TInt), ("len_", TInt)], modifies=STREAMS,
               requires=[("a stream", lambda c: wf(c.pre, c.a("f")))],
               ensures=[("no hole beyond the end of a device", lambda c: Or(c.pre.f("Stream", "regular", c.a("f")), c.a("offset") + c.a("len_") <= LEN(con(c.post, c.a("f"))))),
                        ("the range is zero, the rest as before", lambda c: zeroed(c.pre, c.post, c.a("f"), c.a("offset"), c.a("len_"), True)),
                        ("the position is as before", lambda c: pos(c.post, c.a("f")) == pos(c.pre, c.a("f"))), ("other streams are unchanged", lambda c: others(c, c.a("f"))),
                        ("only for holes", lambda c: And(c.a("len_") > 0, c.a("offset") >= 0))],
               raises=[OSE, ("ValueError", lambda c: c.a("offset") < 0, [])])

    # -------------------------------------------------------- copies
    def copied(a, b, n):
        """the first n bytes are the same"""
        i = bound("i", z3.IntSort())
        return And(LEN(a) >= n, LEN(b) >= n, FA([i], Imp(And(0 <= i, i < n), at(b, i) == at(a, i)), [at(b, i)]))

    def copy_inv(L):
        c = L.vc.ctx
        s, t, v = c.a("source"), c.a("target"), L.now
        A, B = con(v, s), con(v, t)
        p = pos(v, s)
        return [("the source is unchanged", A == con(L.pre, s)), ("positions", And(p >= 0, p <= LEN(A), pos(v, t) == p)),
                ("what has been read has been written", And(ISB(B), copied(A, B, p))), ("other streams are unchanged", FO(L.pre, v, s, t))]

    def FO(v0, v, *ok):
        o = bound("o", z3.IntSort())
        a, b = v0.arr("Stream", "content"), v.arr("Stream", "content")
        x, y = v0.arr("Stream", "pos"), v.arr("Stream", "pos")
        return FA([o], Imp(And(*[o != r for r in ok]), And(S(b, o) == S(a, o), S(y, o) == S(x, o))), [S(b, o)])

    COPIED = [("the target has all bytes of the source", lambda c: copied(con(c.pre, c.a("source")), con(c.post, c.a("target")), LEN(con(c.pre, c.a("source"))))),
              ("a file has no others", lambda c: Imp(c.pre.f("Stream", "regular", c.a("target")), con(c.post, c.a("target")) == con(c.pre, c.a("source")))),
              ("the source is unchanged", lambda c: con(c.post, c.a("source")) == con(c.pre, c.a("source"))),
              ("other streams are unchanged", lambda c: others(c, c.a("source"), c.a("target"))),
              ("the size is returned", lambda c: c.res == LEN(con(c.pre, c.a("source"))))]
    TWO = [("two streams", lambda c: And(c.a("source") != c.a("target"), wf(c.pre, c.a("source"), c.a("target"))))]
    u.contract("utils:copy", [("source", TStream), ("target", TStream)], ret=TInt, modifies=STREAMS,
               requires=TWO + [("the target is at its beginning", lambda c: pos(c.pre, c.a("target")) == 0)],
               ensures=COPIED, raises=[OSE], loops={0: copy_inv})
    u.ns = {**getattr(u, "ns", {}), **locals()}
    return m
