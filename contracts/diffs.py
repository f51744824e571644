"""Applying differences to images (C04).

RESULT(D, p, T): the image T after all records of the diff D from position p;
VALID(D, p, data): D is a complete diff from p up to its end record (data: after the metadata);
INSIDE(D, p, T): holes lie inside of the image, as rbd makes them.
They are defined by recursion over the records; definitions() is one step."""
from .ceph import *  # noqa
from . import ceph
from pyvc.verify import View

RESULT = z3.Function("result", BB, z3.IntSort(), BB, BB)
VALID = z3.Function("valid", BB, z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.StringSort(), z3.BoolSort())
INSIDE = z3.Function("inside", BB, z3.IntSort(), BB, z3.BoolSort())
WRITTEN = z3.Function("written", BB, z3.IntSort(), BB, z3.IntSort(), z3.IntSort(), BB)  # image, offset, diff, position, size
HOLE = z3.Function("hole", BB, z3.IntSort(), z3.IntSort(), BB)
RESIZED = z3.Function("resized", BB, z3.IntSort(), BB)
PIECE = z3.Function("piece", BB, z3.IntSort(), z3.IntSort(), BB)
DIFF = z3.Function("difference", z3.StringSort(), z3.StringSort(), BB)  # what rbd export-diff prints
DECODED = z3.Function("bytes_decode", BB, z3.StringSort())


def uint(b, o, n):
    t = at(b, z3.simplify(o))
    for i in range(1, n):
        t = t + at(b, z3.simplify(o + i)) * 256 ** i
    return t


def sint(b, o, n):
    t = uint(b, o, n)
    return z3.If(at(b, o + n - 1) >= 128, t - 256 ** n, t)


def is_bytes(b, o, n):
    return And(*[And(at(b, o + i) >= 0, at(b, o + i) <= 255) for i in range(n)])


def ops_axioms(it, pre):
    t, d = z3.Const("dt", BB), z3.Const("dd", BB)
    o, p, n, i = z3.Ints("do dp dn di")
    w, h, r, s = WRITTEN(t, o, d, p, n), HOLE(t, o, n), RESIZED(t, n), PIECE(d, p, n)
    return [
        FA([t, o, d, p, n], And(ISB(w), LEN(w) == z3.If(And(n > 0, o + n > LEN(t)), o + n, LEN(t))), [w]),
        FA([t, o, d, p, n, i], at(w, i) == z3.If(And(o <= i, i < o + n), at(d, p + i - o), at(t, i)), [at(w, i)]),
        FA([t, o, n], And(ISB(h), LEN(h) == LEN(t)), [h]),
        FA([t, o, n, i], at(h, i) == z3.If(And(o <= i, i < o + n), z3.IntVal(0), at(t, i)), [at(h, i)]),
        FA([t, n], And(ISB(r), LEN(r) == n), [r]),
        FA([t, n, i], at(r, i) == z3.If(And(0 <= i, i < n), at(t, i), z3.IntVal(0)), [at(r, i)]),
    ]


class Rec:
    """the record at a position"""

    def __init__(self, D, p):
        tag = at(D, p)
        self.D, self.p = D, p
        is_ = lambda ch: tag == ord(ch)
        self.e, self.w, self.z, self.s, self.f, self.t = map(is_, "ewzsft")
        self.name = Or(self.f, self.t)
        self.off, self.n, self.size, self.len = uint(D, p + 1, 8), uint(D, p + 9, 8), uint(D, p + 1, 8), sint(D, p + 1, 4)
        fits = lambda n: p + n <= LEN(D)
        self.fits = And(p < LEN(D), Imp(self.w, fits(17 + self.n)), Imp(self.z, fits(17)), Imp(self.s, fits(9)), Imp(self.name, And(self.len >= 0, fits(5 + self.len))))
        self.end = z3.If(self.w, p + 17 + self.n, z3.If(self.z, p + 17, z3.If(self.s, p + 9, p + 5 + self.len)))

    def apply(self, T):
        return z3.If(self.w, WRITTEN(T, self.off, self.D, self.p + 17, self.n), z3.If(self.z, HOLE(T, self.off, self.n), z3.If(self.s, RESIZED(T, self.size), T)))


def definitions(D, p, T, data, fr, to):
    """what the functions mean for the record at this position"""
    r = Rec(D, p)
    known = Or(r.e, r.w, r.z, r.s, r.f, r.t)
    go = And(r.fits, known, Not(r.e))
    txt = DECODED(PIECE(D, p + 5, r.len))
    return And(
        is_bytes(D, p, 17),
        RESULT(D, p, T) == z3.If(go, RESULT(D, r.end, r.apply(T)), T),
        VALID(D, p, data, fr, to) == And(r.fits, Or(r.e, And(Or(r.w, r.z), VALID(D, r.end, z3.BoolVal(True), fr, to)),
                                                    And(Not(data), Or(r.s, And(r.f, txt == fr), And(r.t, txt == to)), VALID(D, r.end, z3.BoolVal(False), fr, to)))),
        INSIDE(D, p, T) == Imp(go, And(Imp(r.z, r.off + r.n <= LEN(T)), INSIDE(D, r.end, r.apply(T)))))


def setup(u, m=None):
    m = ceph.setup(u, m)
    N = SimpleNamespace(**u.ns)
    con, pos, STREAMS = N.con, N.pos, N.STREAMS
    u.axioms.append(ops_axioms)
    m.fields.update({("RBDDiffV1", "f"): TStream, ("RBDDiffV1", "phase"): TStr, ("RBDDiffV1", "record_type"): TOpt(TStr), ("RBDDiffV1", "_streaming"): TBool})
    m.ext["collections.namedtuple"] = lambda it, a, k: NTClass(it.force(a[0]), [it.force(x) for x in it.host_list(a[1])])
    m.ext["struct.calcsize"] = lambda it, a, k: __import__("struct").calcsize(it.force(a[0]))

    def unpack(it, a, k):
        import struct
        fmt, b = it.force(a[0]), it.encode(a[1], TBytes)
        if fmt not in ("<i", "<Q", "<QQ"):
            raise Unsupported(f"struct.unpack {fmt}")
        n = struct.calcsize(fmt)
        it.raise_if(LEN(b) != n, "struct.error")
        it.assume(is_bytes(b, z3.IntVal(0), n))
        if fmt == "<i":
            return (Sym(TInt, z3.simplify(sint(b, z3.IntVal(0), 4))),)
        return tuple(Sym(TInt, it_name(it, uint(b, z3.IntVal(o), 8))) for o in range(0, n, 8))

    def it_name(it, t):
        x = it.fresh("unpacked", z3.IntSort())
        it.assume(x == t)
        return x

    m.ext["struct.unpack"] = unpack

    def read(it, a, k):
        """reading, with the name of what has been read"""
        b, p = st_get(it, a[0])
        r = st_read(it, a, k)
        o = a[0]
        it.heap_set("Stream", "pos", o.ref, it_name(it, z3.simplify(S(it.heap_arr("Stream", "pos"), o.ref))))
        size = it.force(a[1]) if len(a) > 1 else None
        if isinstance(size, int) and 0 < size <= 16 and isinstance(r, Sym):
            it.assume(Imp(LEN(r.t) == size, And(p + size <= LEN(b), *[at(r.t, z3.IntVal(i)) == at(b, p + i) for i in range(size)])))
        if isinstance(r, Sym):
            it.assume(And(r.t == PIECE(b, p, LEN(r.t)), LEN(PIECE(b, p, LEN(r.t))) == LEN(r.t)))
        return r

    m.methods["Stream", "read"] = read
    m.byte_chars = "ftswze"
    DV = "rbd.rbd:RBDDiffV1."

    def parts(v, c):
        f, t = v.f("RBDDiffV1", "f", c.a("self")), c.a("target")
        return f, t, con(v, f), pos(v, f), con(v, t)

    def begin(c):
        f, t, D, p, T = parts(c.pre, c)
        return D, p, T

    def left(v, c, data, assume=None):
        """what is left of the diff decides about all of it"""
        f, t, D, p, T = parts(v, c)
        D0, p0, T0 = begin(c)
        fr, to = c.a("snapshot_from"), c.a("snapshot_to")
        b = z3.BoolVal(data)
        if assume is not None:
            assume(definitions(D0, p, T, b, fr, to))
        return Or(p >= LEN(D), And(RESULT(D0, p, T) == RESULT(D0, p0, T0), VALID(D0, p, b, fr, to) == VALID(D0, p0, z3.BoolVal(False), fr, to), INSIDE(D0, p, T)))

    def step(it, c, v0, v):
        """the record at v0 has been applied in v"""
        f, t, D, p, T = parts(v0, c)
        r = Rec(D, p)
        T1 = con(v, t)
        p1 = pos(v, f)

        def lemma(what, g):
            it.vc.prove(it, what, g)
            it.assume(g)

        lemma("a record is known", Or(r.w, r.z, r.s, r.f, r.t))
        for what, tag, size in (("data", r.w, 17 + r.n), ("hole", r.z, 17), ("size", r.s, 9), ("name", r.name, 5 + r.len)):
            lemma(f"all of a record ({what}) is read", Imp(tag, Or(p1 >= LEN(D), And(p < LEN(D), p1 == p + size, p + size <= LEN(D), r.len >= 0 if what == "name" else True))))
        lemma("all of a record is read", Or(p1 >= LEN(D), And(r.fits, p1 == r.end)))
        for what, tag, x in (("data", r.w, WRITTEN(T, r.off, D, p + 17, r.n)), ("hole", r.z, HOLE(T, r.off, r.n)), ("size", r.s, RESIZED(T, r.size))):
            it.assume(LEN(x) == LEN(x))
            done = And(tag, r.fits, p1 == r.end)
            lemma(f"the size of the image after {what}", Imp(done, LEN(T1) == LEN(x)))
            it.vc.prove(it, f"the {what} of a record gets into the image", Imp(done, ARR(T1) == ARR(x)))
            it.assume(Imp(done, T1 == x))
        lemma("other records do not change the image", Imp(r.name, T1 == T))

    def records(data):
        def inv(L):
            it, c, v = L.vc.ctx.it, L.vc.ctx, L.now
            f, t, D, p, T = parts(v, c)
            if L.head is not None and not L.in_body and L.seen:
                step(it, c, L.head, v)
            elif L.head is None and data:
                step(it, c, [x for x in it.path_loops if "read_metadata" in x.name][-1].head, v)
            if L.head is not None:
                L.seen = True
            return [("the diff is unchanged", And(D == con(c.pre, f), f == c.pre.f("RBDDiffV1", "f", c.a("self")), ISB(D), ISB(T), p >= 0, LEN(T) >= 0, pos(v, t) >= 0)),
                    ("between records", And(v.f("RBDDiffV1", "phase", c.a("self")) == sv_("data" if data else "metadata"), Not(v.f("RBDDiffV1", "_streaming", c.a("self"))))),
                    ("what is left of the diff decides", left(v, c, data, it.assume))]
        return inv

    u.loop(DV + "read_metadata", 0, records(False))
    u.loop(DV + "read_data", 0, records(True))

    def data_inv(L):
        c, v, v0 = L.vc.ctx, L.now, L.entry
        f, t, D, p, T = parts(v, c)
        _, _, _, lo, T0 = parts(v0, c)
        off = pos(v0, t)
        w, r, r0 = p - lo, L.local("remaining", TInt), L.entry_local("remaining", TInt)
        i = bound("i", z3.IntSort())
        w0 = pos(L.head, f) - lo if L.head is not None else w
        return [("the diff is unchanged", And(D == con(v0, f), ISB(D), lo >= 0)),
                ("positions", And(w >= 0, r >= 0, w + r <= r0, Or(w + r == r0, p >= LEN(D)), pos(v, t) == off + w, off >= 0)),
                ("the data is in the image", And(ISB(T), LEN(T) == z3.If(And(w > 0, off + w > LEN(T0)), off + w, LEN(T0)))),
                ("the bytes of the image", FA([i], at(T, i) == z3.If(And(off <= i, i < off + w), at(D, lo + i - off), at(T0, i)), [at(T, i)]), lambda i: [And(off <= i, i < off + w0), And(off + w0 <= i, i < off + w), Or(i < off, i >= off + w)]),
                ("inside of the record", And(v.f("RBDDiffV1", "phase", c.a("self")) == v0.f("RBDDiffV1", "phase", c.a("self"))))]

    u.loop(DV + "read_w.stream", 0, data_inv)

    def applied(c):
        D, p, T = begin(c)
        return And(VALID(D, p, z3.BoolVal(False), c.a("snapshot_from"), c.a("snapshot_to")), con(c.post, c.a("target")) == RESULT(D, p, T))

    u.contract(DV + "integrate", [("self", R("RBDDiffV1")), ("target", TStream), ("snapshot_from", TStr), ("snapshot_to", TStr)], ret=TInt,
               requires=[("at the first record of a diff", lambda c: And(N.wf(c.pre, c.a("target"), c.pre.f("RBDDiffV1", "f", c.a("self"))), c.a("target") != c.pre.f("RBDDiffV1", "f", c.a("self")), c.pre.f("RBDDiffV1", "phase", c.a("self")) == sv_("metadata"), Not(c.pre.f("RBDDiffV1", "_streaming", c.a("self"))))),
                         ("holes are inside of the image", lambda c: INSIDE(*begin(c)))],
               modifies=STREAMS + [("heap", "RBDDiffV1", x) for x in ("phase", "record_type", "_streaming")],
               ensures=[("the diff is complete, and the image is the result of all its records", applied)],
               raises=[("OSError", None, []), ("ValueError", None, []), ("AssertionError", None, []), ("struct.error", None, []), ("UnicodeDecodeError", None, [])])
    # ---------------------------------------------------------- diff
    HEADER = b"rbd diff v1\n"
    rev, has, snapname, image, failed, popen0 = N.rev, N.has, N.snapname, N.image, N.failed, N.popen_export

    def popen(it, a, k):
        """rbd export-diff: the difference between two snapshots if it is successful"""
        cmd = it.host_list(a[0])
        words = [w if isinstance(w, str) else None for w in map(it.force, cmd)]
        if words[1] == "export":
            return popen0(it, a, k)
        fails(it)
        if words[1] != "export-diff" or words[3] != "--from-snap" or words[5:] not in (["-"], ["--whole-object", "-"]):
            raise Unsupported(f"rbd {words}")
        new = N.named(it, it.encode(cmd[2], TStr))
        old = it.encode(cmd[4], TStr)
        img = new.arg(0)
        if not (new.decl().eq(SPECF)):
            raise Unsupported("the snapshot of a difference")
        o = it.alloc("Proc")
        rc = it.fresh("rc", z3.IntSort())
        st = new_stream(it)
        b = S(it.heap_arr("Stream", "content"), st.ref)
        # old is a name; "backy-..." is how the names of revisions begin
        ps = old.children() if z3.is_app_of(old, z3.Z3_OP_SEQ_CONCAT) else []
        name = old
        if len(ps) == 2 and z3.is_string_value(ps[0]) and ps[0].as_string() == "backy-":
            name = CORE(ps[1])
            it.assume(old == name)
        A, B = EXPORT(SPECF(img, name)), EXPORT(new)
        it.assume(INSIDE(b, z3.IntVal(12), A))
        it.assume(Imp(rc == 0, And(has(View(it, it.st), new), has(View(it, it.st), SPECF(img, name)), b == DIFF(new, name), RESULT(b, z3.IntVal(12), A) == B)))
        it.heap_set("Proc", "stdout", o.ref, st.ref)
        it.heap_set("Proc", "rc", o.ref, rc)
        return o

    m.ext["subprocess.Popen"] = popen
    m.stubs["rbd.rbd:detect_whole_object_support"] = lambda it, a, k: Sym(TBool, z3.Bool("whole_object_support"))
    CE = "rbd:CephRBD."
    parent = lambda c: SPECF(image(c.pre, c), CORE(c.pre.f("Revision", "uuid", c.a("parent"))))
    u.contract(CE + "diff", [("self", R("CephRBD")), ("target", TStream), ("parent", R("Revision"))],
               requires=[("a stream with the bytes of the parent's snapshot", lambda c: And(N.wf(c.pre, c.a("target")), c.a("target") < c.pre.alloc, con(c.pre, c.a("target")) == EXPORT(parent(c))))],
               modifies=N.NEWS + [("heap", "RBDDiffV1", x) for x in ("f", "phase", "record_type", "_streaming")],
               ensures=[("the target has the bytes of the snapshot", lambda c: And(has(c.pre, snapname(c, c.pre)), con(c.post, c.a("target")) == EXPORT(snapname(c, c.pre))))],
               raises=[("OSError", None, []), ("CalledProcessError", None, []), ("ValueError", None, []), ("AssertionError", None, []), ("struct.error", None, []), ("UnicodeDecodeError", None, [])])
    u.ns = {**u.ns, **locals()}
    return m
