"""Path-by-path symbolic interpreter for the Python text of backy.

A path is fixed by the sequence of decisions (branches, loop iterate/exit,
outcomes of calls).  All paths are enumerated by re-execution with a decision
prefix.  Loops over symbolic data are cut by invariants; calls of functions
under contract are replaced by their contract; all other functions of the
repository are executed inline.
"""
import ast
import builtins as _b
import z3

from .quant import canon
from .repo import Class, Func, Repo
from .ty import *  # noqa


class Unsupported(Exception):
    pass


class PathEnd(BaseException):
    pass


class Restart(BaseException):
    pass


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class PyReturn(Exception):
    def __init__(self, value):
        self.value = value


class PyBreak(Exception):
    pass


class PyContinue(Exception):
    pass


EXT_EXC = {
    "CalledProcessError": ["SubprocessError", "Exception"],
    "TimeoutExpired": ["SubprocessError", "Exception"],
    "ClientError": ["Exception"],
    "ClientResponseError": ["ClientError", "Exception"],
    "ClientConnectionError": ["ClientError", "Exception"],
    "HTTPException": ["Exception"],
    "HTTPNotFound": ["HTTPException", "Exception"],
    "HTTPForbidden": ["HTTPException", "Exception"],
    "HTTPUnauthorized": ["HTTPException", "Exception"],
    "HTTPAccepted": ["HTTPException", "Exception"],
    "HTTPBadRequest": ["HTTPException", "Exception"],
    "HTTPPreconditionFailed": ["HTTPException", "Exception"],
    "HTTPServiceUnavailable": ["HTTPException", "Exception"],
    "HTTPNoContent": ["HTTPException", "Exception"],
    "CancelledError": ["BaseException"],
    "JSONDecodeError": ["ValueError", "Exception"],
    "lzo.error": ["Exception"],
    "struct.error": ["Exception"],
}


class ExcClass:
    """an exception class; identity is the name"""

    def __init__(self, name, mro):
        self.name, self.mro = name, mro  # mro: names, most specific first

    def __eq__(self, o):
        return isinstance(o, ExcClass) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


def builtin_exc(name):
    c = getattr(_b, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return ExcClass(c.__name__, [k.__name__ for k in c.__mro__ if k is not object])
    if name in EXT_EXC:
        m = [name]
        for b in EXT_EXC[name]:
            m.append(b)
            bb = getattr(_b, b, None)
            if isinstance(bb, type):
                m += [k.__name__ for k in bb.__mro__ if k is not object]
        return ExcClass(name, list(dict.fromkeys(m + ["BaseException"])))
    return None


class ExcVal:
    def __init__(self, cls, args=(), attrs=None):
        self.cls, self.args, self.attrs = cls, list(args), attrs or {}

    def isa(self, name):
        return name in self.cls.mro

    def __repr__(self):
        return f"{self.cls.name}{self.args!r}"


class NTClass:
    """a class made by collections.namedtuple"""

    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def __repr__(self):
        return f"NTClass({self.name})"


class NTVal:
    def __init__(self, cls, values):
        self.cls, self.values = cls, values

    def __repr__(self):
        return f"{self.cls.name}{self.values!r}"


class Opaque:
    """a value nothing is known about; calls and attributes are opaque too"""

    def __init__(self, name="opaque"):
        self.name = name

    def __repr__(self):
        return f"Opaque({self.name})"


class ExtModule:
    def __init__(self, name):
        self.name = name


class RepoModule:
    def __init__(self, mod):
        self.mod = mod


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"Builtin({self.name})"


class FuncVal:
    def __init__(self, func, frame=None, raw=False):
        self.func, self.frame = func, frame
        self.attrs = {}

    def __repr__(self):
        return f"FuncVal({self.func.qual})"


class ClassVal:
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClassVal) and o.cls.qual == self.cls.qual

    def __hash__(self):
        return hash(self.cls.qual)

    def __repr__(self):
        return f"ClassVal({self.cls.qual})"


class ExtClass:
    """class of an external library known to the model, or a type name"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtClass) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"ExtClass({self.name})"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"Bound({self.fn}, {self.self_})"


class ContractFn:
    """callable value with a contract: decorated repository function"""

    def __init__(self, contract, impl):
        self.contract, self.impl = contract, impl


class ReportStatus:
    def __init__(self, fn):
        self.fn = fn


class CMFunc:
    def __init__(self, fn):
        self.fn = fn


class PropertyVal:
    def __init__(self, fn, cached=False):
        self.fn, self.cached = fn, cached


class StaticVal:
    def __init__(self, fn):
        self.fn = fn


class ClassMethodVal:
    def __init__(self, fn):
        self.fn = fn


class GenVal:
    def __init__(self, hostgen):
        self.gen = hostgen
        self.started = False


class CMVal:
    def __init__(self, hostgen):
        self.gen = hostgen


class CoroVal:
    def __init__(self, thunk):
        self.thunk = thunk


class SeqV:
    """read-only sequence view: length term and element function"""

    def __init__(self, n, get, kind="seq", ty=None):
        self.n, self.get, self.kind, self.ty = n, get, kind, ty


class HL:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)

    def copy(self):
        return HL(self.v)


class HD:
    __slots__ = ("v", "default")

    def __init__(self, v, default=None):
        self.v = dict(v)
        self.default = default

    def copy(self):
        return HD(self.v, self.default)


class HS:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)

    def copy(self):
        return HS(self.v)


class SV:
    """symbolic container contents"""
    __slots__ = ("ty", "t", "default")

    def __init__(self, ty, t, default=None):
        self.ty, self.t, self.default = ty, t, default

    def copy(self):
        return self


class LocField:
    __slots__ = ("cls", "field", "ref", "ty")

    def __init__(self, cls, field, ref, ty):
        self.cls, self.field, self.ref, self.ty = cls, field, ref, ty

    def copy(self):
        return self


class LocElem:
    __slots__ = ("parent", "key", "ty")

    def __init__(self, parent, key, ty):
        self.parent, self.key, self.ty = parent, key, ty

    def copy(self):
        return self


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


MISSING = object()


class Frame:
    def __init__(self, fid, func, parent=None, mod=None):
        self.fid, self.func, self.parent = fid, func, parent
        self.mod = mod or (func.mod if func else None)
        self.selfcls = None

    def lookup_chain(self):
        f = self
        while f:
            yield f
            f = f.parent


class State:
    def __init__(self):
        self.heap, self.ghost, self.boxes, self.frames, self.hf = {}, {}, {}, {}, {}
        self.alloc = z3.IntVal(0)

    def copy(self):
        s = State()
        s.heap, s.ghost = dict(self.heap), dict(self.ghost)
        s.boxes = {k: v.copy() for k, v in self.boxes.items()}
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.hf = dict(self.hf)
        s.alloc = self.alloc
        return s


class LoopInfo:
    def __init__(self):
        self.havoc = set()
        self.types = {}


class Oracle:
    def __init__(self, prefix, work):
        self.prefix, self.work = list(prefix), work
        self.pos = 0
        self.taken = []

    def choose(self, feasible):
        """feasible: function returning the list of feasible option numbers"""
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            opts = feasible()
            if not opts:
                raise PathEnd()
            c = opts[0]
            for o in opts[1:]:
                self.work.append(self.taken + [o])
        self.pos += 1
        self.taken.append(c)
        return c


class Recorder:
    def __init__(self, info, boxes, frames, hfs):
        self.info, self.boxes, self.frames, self.hfs = info, boxes, frames, hfs
        self.writes = set()


class Interp:
    def __init__(self, repo, model, contracts, vc):
        self.repo, self.model, self.contracts, self.vc = repo, model, contracts, vc
        self.loops = {}  # key -> LoopInfo
        self.feas_cache = {}
        self.unanswered = 0
        self.keep = []
        self.max_depth = 40
        self.target = None
        self.uses = set()  # qualnames of contracts used
        self.inlined = set()
        self.notes = set()

    # ---------------------------------------------------------------- paths
    def explore(self, run):
        """run() executes one path from scratch"""
        while True:
            try:
                work = [[]]
                self.npaths = 0
                self.vc.reset()
                while work:
                    p = work.pop()
                    self.oracle = Oracle(p, work)
                    self.begin_path()
                    self.npaths += 1
                    if self.npaths > 4000:
                        raise Unsupported("too many paths")
                    self.vc.tick()
                    try:
                        run()
                    except PathEnd:
                        self.path_id += 1  # generators of this path are dropped, not closed
                    self.path_id += 1
                return
            except Restart:
                self.path_id += 1
                self.vc.restarts += 1
                if self.vc.restarts > 60:
                    raise Unsupported("loop frame inference does not converge")
                continue

    path_id = 0

    def begin_path(self):
        self.st = State()
        self.pc = []  # list of (kind, term)
        self.solver = z3.Solver()
        self.solver.set("timeout", 400)
        self.solver.set("smt.mbqi", False)
        self.solver.set("auto_config", False)
        self.counters = {}
        self.recorders = []
        self.callstack = []
        self.exc_stack = []
        self.modval_cache = {}
        self.pure = 0
        self.fresh_n = 0
        self.host_ids = {}
        self.path_loops = []
        self.path_approx = []
        self.enum_cache = {}
        self.filter_cache = {}
        self.const_cache = {}

    def assume(self, t, kind="fact"):
        if isinstance(t, bool):
            if t:
                return
            raise PathEnd()
        t = canon(z3.simplify(t) if not z3.is_quantifier(t) else t)
        if z3.is_true(t):
            return
        self.pc.append((kind, t))
        self.solver.add(t)
        if z3.is_false(t):
            raise PathEnd()

    def pckey(self):
        return tuple(t.get_id() for _, t in self.pc)

    def feasible(self, cond):
        if isinstance(cond, bool):
            return cond
        key = (self.pckey(), cond.get_id())
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        self.solver.push()
        self.solver.add(cond)
        if self.unanswered > 20:
            # (most of the answers are to be had at once or not at all)
            self.solver.set("timeout", 120)
        a = self.solver.check()
        r = a != z3.unsat
        self.unanswered += a == z3.unknown
        self.solver.pop()
        self.feas_cache[key] = (r, [t for _, t in self.pc], cond)
        return r

    def branch(self, cond):
        """decide a condition: host bool or z3 Bool; returns host bool"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = z3.simplify(z3.Not(cond))
        self.keep.append((cond, neg))

        def feas():
            o = []
            if self.feasible(cond):
                o.append(0)
            if not o or self.feasible(neg):
                o.append(1)
            return o

        c = self.oracle.choose(feas)
        self.assume(cond if c == 0 else neg, "branch")
        return c == 0

    def choose(self, n, what=""):
        return self.oracle.choose(lambda: list(range(n)))

    def sub_explore(self, thunk):
        """enumerate all outcomes of a pure computation without forking the
        path; returns list of (branch condition, 'val'|'exc', value)"""
        saved, base = self.oracle, self.st
        saved_counters = dict(self.counters)
        fresh0 = self.fresh_n
        out = []
        work = [[]]
        n0 = len(self.pc)
        self.pure += 1
        maxf = self.fresh_n
        try:
            while work:
                self.oracle = Oracle(work.pop(), work)
                self.st = base.copy()
                self.counters = dict(saved_counters)
                self.fresh_n = fresh0
                self.solver.push()
                try:
                    try:
                        v = thunk()
                        kind = "val"
                    except PyRaise as e:
                        v, kind = e.exc, "exc"
                    conds = [t for k, t in self.pc[n0:] if k == "branch"]
                    facts = [t for k, t in self.pc[n0:] if k != "branch"]
                    if kind == "val":
                        v = self.freeze(v)
                    out.append((z3.And(conds) if conds else z3.BoolVal(True), kind, v, facts))
                except PathEnd:
                    pass
                finally:
                    maxf = max(maxf, self.fresh_n)
                    self.solver.pop()
                    del self.pc[n0:]
                    self.recompute()
        finally:
            self.pure -= 1
            self.oracle, self.st = saved, base
            self.counters = saved_counters
            self.fresh_n = maxf
        return out

    def recompute(self):
        pass

    def freeze(self, v):
        """turn boxes created in a pure computation into plain values"""
        if isinstance(v, Box):
            c = self.content(v)
            if isinstance(c, SV):
                return Sym(c.ty, c.t)
            return ("@box", c)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        return v

    def thaw(self, v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "@box":
            return self.new_box(v[1].copy())
        if isinstance(v, Sym) and isinstance(v.ty, (TList, TSet, TDict, TRec)):
            return self.new_box(SV(v.ty, v.t))
        if isinstance(v, tuple):
            return tuple(self.thaw(x) for x in v)
        return v

    def merge(self, outs):
        """merge ('val') outcomes into one value"""
        vals = [(c, v) for c, k, v, f in outs if k == "val"]
        if not vals:
            raise PathEnd()
        first = vals[0][1]
        if all(self.host_same(first, v) for _, v in vals[1:]):
            return self.thaw(first)
        ty = None
        for _, v in vals:
            t = self.ty_of(v)
            ty = t if ty is None else self.join_ty(ty, t)
        t = self.encode(vals[-1][1], ty)
        for c, v in reversed(vals[:-1]):
            t = z3.If(c, self.encode(v, ty), t)
        return self.thaw(self.decode(t, ty, assume=False))

    def host_same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.ty == b.ty and a.t.eq(b.t)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.ref.eq(b.ref)
        if type(a) is type(b) and isinstance(a, (bool, int, str, bytes, float)):
            return a == b
        return False

    # --------------------------------------------------------------- values
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const(f"{name}!{self.fresh_n}", sort)

    def fresh_val(self, name, ty):
        return self.decode(self.fresh(name, ty.sort()), ty)

    def label(self):
        return "/".join(self.callstack[-6:])

    def count(self, label):
        self.counters[label] = self.counters.get(label, 0) + 1
        return f"{label}#{self.counters[label]}"

    def new_box(self, content):
        bid = self.count("box:" + self.label() + ":" + str(getattr(self, "pos", "")))
        self.st.boxes[bid] = content
        return Box(bid)

    def content(self, box):
        c = self.st.boxes[box.id]
        if isinstance(c, LocField):
            return SV(c.ty, z3.simplify(z3.Select(self.heap_arr(c.cls, c.field), c.ref)), self.model.field_defaults.get((c.cls, c.field)))
        if isinstance(c, LocElem):
            p = self.content(c.parent)
            if isinstance(p, HD):
                return self.content(p.v[c.key]) if isinstance(p.v[c.key], Box) else p.v[c.key]
            if isinstance(p.ty, TDict):
                return SV(c.ty, z3.Select(p.ty.val(p.t), c.key), None)
            if isinstance(p.ty, TRec):
                return SV(c.ty, p.ty.val(p.t, c.key))
            if isinstance(p.ty, TList):
                return SV(c.ty, z3.Select(p.ty.arr(p.t), c.key))
            raise Unsupported("nested container")
        return c

    def set_content(self, box, content):
        c = self.st.boxes[box.id]
        if isinstance(c, LocField):
            self.heap_set(c.cls, c.field, c.ref, self.encode_content(content, c.ty))
            return
        if isinstance(c, LocElem):
            p = self.content(c.parent)
            t = self.encode_content(content, c.ty)
            if isinstance(p, SV) and isinstance(p.ty, TDict):
                self.set_content(c.parent, SV(p.ty, p.ty.mk(z3.Store(p.ty.dom(p.t), c.key, True), z3.Store(p.ty.val(p.t), c.key, t)), p.default))
                return
            if isinstance(p, SV) and isinstance(p.ty, TRec):
                self.set_content(c.parent, SV(p.ty, p.ty.set(p.t, c.key, z3.BoolVal(True), t)))
                return
            raise Unsupported("nested container write")
        self.record(("box", box.id))
        self.st.boxes[box.id] = content

    def record(self, key):
        if self.pure:
            if key[0] in ("heap", "ghost", "alloc"):
                raise Unsupported("side effect in a pure context")
        for r in self.recorders:
            if key[0] == "box" and key[1] not in r.boxes:
                continue
            if key[0] == "var" and key[1] not in r.frames:
                continue
            if key[0] == "hf" and (key[1], key[2]) not in r.hfs and not True:
                continue
            r.writes.add(key)

    # heap
    def field_ty(self, cls, name):
        for c in self.model.mro(cls):
            ty = self.model.fields.get((c, name))
            if ty is not None:
                return c, ty
        return None

    def heap_arr(self, cls, field):
        key = (cls, field)
        if key not in self.st.heap:
            ty = self.model.fields[key]
            # initial heap arrays are named constants, identical in all paths
            self.st.heap[key] = z3.Const(f"H0_{cls}.{field}", z3.ArraySort(z3.IntSort(), ty.sort()))
        return self.st.heap[key]

    def heap_set(self, cls, field, ref, term):
        arr = self.heap_arr(cls, field)
        self.record(("heap", cls, field))
        self.st.heap[(cls, field)] = z3.Store(arr, ref, term)

    def get_ghost(self, name):
        if name not in self.st.ghost:
            ty = self.model.ghosts.get(name)
            if ty is None:
                raise Unsupported("ghost " + name)
            self.st.ghost[name] = z3.Const(f"G0_{name}", ty.sort())
        return self.st.ghost[name]

    def set_ghost(self, name, term):
        self.get_ghost(name)
        self.record(("ghost", name))
        if isinstance(term, bool):
            term = z3.BoolVal(term)
        elif isinstance(term, int):
            term = z3.IntVal(term)
        self.st.ghost[name] = term
        t = getattr(self, "target", None)
        if t is not None and t.always and not self.pure:
            self.vc.always(self, name)

    def alloc(self, cls):
        ref = self.st.alloc
        self.record(("alloc",))
        self.st.alloc = z3.simplify(ref + 1)
        o = Obj(cls, ref)
        return o

    # types
    def ty_of(self, v):
        if v is None:
            return TUnit
        if isinstance(v, bool):
            return TBool
        if isinstance(v, int):
            return TInt
        if isinstance(v, float):
            return TReal
        if isinstance(v, str):
            return TStr
        if isinstance(v, bytes):
            return TBytes
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, Obj):
            return TObj(v.cls)
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "@box":
                return self.content_ty(v[1])
            return TTup(*[self.ty_of(x) for x in v])
        if isinstance(v, Box):
            return self.content_ty(self.content(v))
        raise Unsupported(f"type of {v!r}")

    def content_ty(self, c):
        if isinstance(c, SV):
            return c.ty
        if isinstance(c, (HL, HS)):
            ty = None
            for x in c.v:
                t = self.ty_of(x)
                ty = t if ty is None else self.join_ty(ty, t)
            if ty is None:
                return EmptyTy("list" if isinstance(c, HL) else "set")
            return TList(ty) if isinstance(c, HL) else TSet(ty)
        if isinstance(c, HD):
            kt = vt = None
            for k, x in c.v.items():
                t = self.ty_of(k)
                kt = t if kt is None else self.join_ty(kt, t)
                t = self.ty_of(x)
                vt = t if vt is None else self.join_ty(vt, t)
            if kt is None:
                return EmptyTy("dict")
            return TDict(kt, vt)
        raise Unsupported("content type")

    def join_ty(self, a, b):
        if a == b:
            return a
        if isinstance(a, EmptyTy):
            return b
        if isinstance(b, EmptyTy):
            return a
        if a == TUnit:
            return b if isinstance(b, TOpt) else TOpt(b)
        if b == TUnit:
            return a if isinstance(a, TOpt) else TOpt(a)
        if isinstance(a, TOpt):
            return TOpt(self.join_ty(a.inner, b.inner if isinstance(b, TOpt) else b))
        if isinstance(b, TOpt):
            return TOpt(self.join_ty(a, b.inner))
        if {a.name, b.name} == {"Int", "Real"}:
            return TReal
        if {a.name, b.name} == {"Bool", "Int"}:
            return TInt
        if isinstance(a, TTup) and isinstance(b, TTup) and len(a.items) == len(b.items):
            return TTup(*[self.join_ty(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, TList) and isinstance(b, TList):
            return TList(self.join_ty(a.el, b.el))
        if isinstance(a, TSet) and isinstance(b, TSet):
            return TSet(self.join_ty(a.el, b.el))
        raise Unsupported(f"cannot join types {a} and {b}")

    def bytes_term(self, b):
        arr = z3.K(z3.IntSort(), z3.IntVal(0))
        for i, x in enumerate(b):
            if x:
                arr = z3.Store(arr, i, x)
        return TBytes.sort().mkbytes(z3.IntVal(len(b)), arr)

    def encode(self, v, ty):
        if isinstance(ty, EmptyTy):
            raise Unsupported("untyped empty container")
        if isinstance(ty, TOpt):
            if v is None:
                return ty.none()
            if isinstance(v, Sym) and isinstance(v.ty, TOpt):
                if v.ty == ty:
                    return v.t
                return z3.If(v.ty.is_none(v.t), ty.none(), ty.some(self.encode(self.decode(v.ty.the(v.t), v.ty.inner, assume=False), ty.inner)))
            return ty.some(self.encode(v, ty.inner))
        if isinstance(v, Sym) and isinstance(v.ty, TOpt):
            v = self.force(v)
        if isinstance(v, Sym):
            if v.ty == ty:
                return v.t
            if ty == TReal and v.ty == TInt:
                return z3.ToReal(v.t)
            if ty == TInt and v.ty == TBool:
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if ty == TReal and v.ty == TBool:
                return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
            if v.ty in (TDate, TDelta) and ty == TReal:
                raise Unsupported("date as number")
            raise Unsupported(f"encode {v.ty} as {ty}")
        h = self.model.encoders.get(getattr(ty, "name", None)) if self.model.encoders else None
        if h is not None:
            return h(self, v)
        if ty == TUnit:
            return z3.BoolVal(True)
        if isinstance(v, bool):
            if ty == TBool:
                return z3.BoolVal(v)
            if ty == TInt:
                return z3.IntVal(int(v))
            if ty == TReal:
                return z3.RealVal(int(v))
        elif isinstance(v, int):
            if ty == TInt:
                return z3.IntVal(v)
            if ty == TReal:
                return z3.RealVal(v)
        elif isinstance(v, float):
            if ty == TReal:
                import fractions
                fr = fractions.Fraction(repr(v))
                return z3.Q(fr.numerator, fr.denominator)
        elif isinstance(v, str):
            if ty == TStr:
                return z3.StringVal(v)
        elif isinstance(v, bytes):
            if ty == TBytes:
                return self.bytes_term(v)
        elif isinstance(v, Obj):
            if isinstance(ty, TObj):
                if ty.cls not in self.model.mro(v.cls) and v.cls not in self.model.mro(ty.cls):
                    raise Unsupported(f"object of class {v.cls} as {ty.cls}")
                return v.ref
        elif isinstance(v, tuple):
            if len(v) == 2 and v[0] == "@box":
                return self.encode_content(v[1], ty)
            if isinstance(ty, TTup) and len(v) == len(ty.items):
                return ty.mk(*[self.encode(x, t) for x, t in zip(v, ty.items)])
            if isinstance(ty, TList):
                return self.encode_content(HL(list(v)), ty)
        elif isinstance(v, Box):
            return self.encode_content(self.content(v), ty)
        elif isinstance(v, Opaque):
            return self.fresh("opq", ty.sort())
        elif isinstance(v, SeqV):
            b = self.seq_to_list(v)
            return self.encode(b, ty)
        raise Unsupported(f"encode {v!r} as {ty}")

    def encode_content(self, c, ty):
        if isinstance(c, SV):
            if c.ty == ty:
                return c.t
            if isinstance(c.ty, TList) and isinstance(ty, TList):
                k = self.fresh("k", z3.IntSort())
                body = self.encode(self.decode(z3.Select(c.ty.arr(c.t), k), c.ty.el, assume=False), ty.el)
                return ty.mk(c.ty.len(c.t), z3.Lambda([k], body))
            if isinstance(ty, TOpt):
                return ty.some(self.encode_content(c, ty.inner))
            raise Unsupported(f"encode container {c.ty} as {ty}")
        if isinstance(c, HL) and isinstance(ty, TList):
            arr = self.default_arr(z3.IntSort(), ty.el)
            for i, x in enumerate(c.v):
                arr = z3.Store(arr, i, self.encode(x, ty.el))
            return ty.mk(z3.IntVal(len(c.v)), arr)
        if isinstance(c, HS) and isinstance(ty, TSet):
            t = ty.empty()
            for x in c.v:
                t = z3.Store(t, self.encode(x, ty.el), True)
            return t
        if isinstance(c, HD) and isinstance(ty, TDict):
            dom = z3.K(ty.k.sort(), z3.BoolVal(False))
            val = self.default_arr(ty.k.sort(), ty.v)
            for k, x in c.v.items():
                kt = self.encode(k, ty.k)
                dom = z3.Store(dom, kt, True)
                val = z3.Store(val, kt, self.encode(x, ty.v))
            return ty.mk(dom, val)
        if isinstance(c, HD) and isinstance(ty, TRec):
            args = []
            for n, t in ty.fields.items():
                if n in c.v:
                    args += [z3.BoolVal(True), self.encode(c.v[n], t)]
                else:
                    args += [z3.BoolVal(False), self.default_term(t)]
            for k in c.v:
                if k not in ty.fields:
                    self.notes.add(f"dictionary key {k!r} outside the model of {ty.name}")
            return ty.sort().constructor(0)(*args)
        raise Unsupported(f"encode content as {ty}")

    def default_term(self, ty):
        return z3.Const("dflt_" + ty.name, ty.sort())

    def default_arr(self, ks, ty):
        return z3.Const(f"noarr_{ks.name()}_{ty.name}", z3.ArraySort(ks, ty.sort()))

    def decode(self, t, ty, assume=True):
        if isinstance(ty, TObj):
            t = z3.simplify(t)
            if assume and not self.pure and not z3.is_int_value(t):
                self.assume(z3.And(t >= 0, t < self.st.alloc))
            return Obj(ty.cls, t)
        if isinstance(ty, TTup):
            return tuple(self.decode(z3.simplify(ty.get(t, i)), it, assume) for i, it in enumerate(ty.items))
        if ty == TUnit:
            return None
        if isinstance(ty, (TList, TSet, TDict, TRec)):
            if assume and isinstance(ty, TList) and not self.pure:
                self.assume(ty.len(t) >= 0)
            return self.new_box(SV(ty, t))
        t = z3.simplify(t)
        if ty == TInt and z3.is_int_value(t):
            return t.as_long()
        if ty == TBool:
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
        if ty == TStr and z3.is_string_value(t):
            return z3str(t)
        if isinstance(ty, TOpt):
            if t.decl().eq(ty.sort().constructor(0)):
                return None
            if t.decl().eq(ty.sort().constructor(1)):
                return self.decode(t.arg(0), ty.inner, assume)
        if ty == TBytes and assume and not self.pure:
            self.assume_bytes(t)
        if isinstance(ty, TEnum) and assume and not self.pure and not z3.is_int_value(t):
            self.assume(z3.And(t >= 0, t < len(ty.members)))
        return Sym(ty, t)

    def assume_bytes(self, t):
        B = TBytes.sort()
        if t.decl().name() == "mkbytes":
            self.assume(ISB(t))
            return
        key = ("bytes", t.get_id())
        if key in self.host_ids:
            return
        self.host_ids[key] = t
        i = z3.Int("bi")
        self.assume(ISB(t))
        self.assume(B.blen(t) >= 0)
        self.assume(z3.ForAll([i], z3.Implies(z3.Or(i < 0, i >= B.blen(t)), z3.Select(B.barr(t), i) == 0),
                              patterns=[z3.Select(B.barr(t), i)]))

    def force(self, v):
        """resolve an optional by branching"""
        while isinstance(v, Sym) and isinstance(v.ty, TOpt):
            if self.branch(v.ty.is_none(v.t)):
                return None
            v = self.decode(v.ty.the(v.t), v.ty.inner)
        return v

    # truth -----------------------------------------------------------------
    def truth(self, v):
        """host bool or z3 Bool"""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, NTVal):
            return len(v.values) > 0
        if isinstance(v, Sym):
            if v.ty == TBool:
                return v.t
            if v.ty in (TInt, TReal, TDelta):
                return v.t != 0
            if v.ty == TStr:
                return v.t != z3.StringVal("")
            if v.ty == TBytes:
                return TBytes.sort().blen(v.t) != 0
            if isinstance(v.ty, TOpt):
                inner = self.decode(v.ty.the(v.t), v.ty.inner, assume=False)
                tr = self.truth(inner)
                if tr is True:
                    return z3.Not(v.ty.is_none(v.t))
                return z3.And(z3.Not(v.ty.is_none(v.t)), tr)
            if isinstance(v.ty, (TEnum, TOpq)) or v.ty == TDate:
                return True
        if isinstance(v, Box):
            c = self.content(v)
            if isinstance(c, (HL, HD, HS)):
                return len(c.v) > 0
            if isinstance(c.ty, TList):
                return c.ty.len(c.t) > 0
            if isinstance(c.ty, TSet):
                return c.t != c.ty.empty()
            if isinstance(c.ty, TDict):
                return c.ty.dom(c.t) != z3.K(c.ty.k.sort(), z3.BoolVal(False))
            if isinstance(c.ty, TRec):
                return z3.Or([c.ty.has(c.t, n) for n in c.ty.fields])
        if isinstance(v, Obj):
            cl = self.model.repo_class(v.cls)
            if cl is not None and ("__bool__" in cl.funcs or "__len__" in cl.funcs):
                raise Unsupported("object truth value")
            return True
        if isinstance(v, SeqV):
            return v.n > 0
        if isinstance(v, Opaque):
            return self.fresh("truth_" + v.name, z3.BoolSort())
        if isinstance(v, (FuncVal, Bound, Builtin, ClassVal, ExtClass, GenVal, CMVal, ExcVal, ExtModule, ContractFn)):
            return True
        from .lib import FileV
        if isinstance(v, FileV):
            return True
        raise Unsupported(f"truth of {v!r}")

    def test(self, v):
        return self.branch(self.truth(v))

    def num(self, v):
        """(ty, term) of a number-like value"""
        if isinstance(v, bool):
            return TInt, z3.IntVal(int(v))
        if isinstance(v, int):
            return TInt, z3.IntVal(v)
        if isinstance(v, float):
            return TReal, self.encode(v, TReal)
        if isinstance(v, Sym):
            if v.ty == TBool:
                return TInt, z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            return v.ty, v.t
        return None, None

    # equality --------------------------------------------------------------
    def eq(self, a, b):
        if isinstance(a, Sym) and isinstance(a.ty, TOpt):
            if b is None:
                return a.ty.is_none(a.t)
            if isinstance(b, Sym) and isinstance(b.ty, TOpt):
                if a.ty == b.ty:
                    return a.t == b.t
                raise Unsupported("optional equality")
            inner = self.eq(self.decode(a.ty.the(a.t), a.ty.inner, assume=False), b)
            return z3.And(z3.Not(a.ty.is_none(a.t)), inner)
        if isinstance(b, Sym) and isinstance(b.ty, TOpt):
            return self.eq(b, a)
        if a is None or b is None:
            return a is b
        host = (bool, int, float, str, bytes)
        if isinstance(a, host) and isinstance(b, host):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.ref == b.ref
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return self.fresh("eq", z3.BoolSort())
            return False
        if isinstance(a, (Sym,) + host) and isinstance(b, (Sym,) + host):
            ta, tb = self.ty_of(a), self.ty_of(b)
            if ta == tb:
                x, y = self.encode(a, ta), self.encode(b, tb)
                if ta == TBytes:
                    return self.bytes_eq(x, y)
                return x == y
            nums = ("Int", "Real", "Bool")
            if ta.name in nums and tb.name in nums:
                j = self.join_ty(ta, tb)
                return self.encode(a, j) == self.encode(b, j)
            return False
        if isinstance(a, Box) and isinstance(b, Box):
            return self.box_eq(a, b)
        if isinstance(a, Box) or isinstance(b, Box):
            return False
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a is b or self.fresh("eq", z3.BoolSort())
        if isinstance(a, (ClassVal, ExtClass, ExcClass)):
            return a == b
        return a is b

    def bytes_eq(self, x, y):
        B = TBytes.sort()
        return z3.simplify(z3.And(B.blen(x) == B.blen(y), B.barr(x) == B.barr(y)))

    def conj(self, cs):
        ts = []
        for c in cs:
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                ts.append(c)
        return z3.And(ts) if ts else True

    def disj(self, cs):
        ts = []
        for c in cs:
            if isinstance(c, bool):
                if c:
                    return True
            else:
                ts.append(c)
        return z3.Or(ts) if ts else False

    def box_eq(self, a, b):
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, HL) and isinstance(cb, HL):
            if len(ca.v) != len(cb.v):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(ca.v, cb.v)])
        if isinstance(ca, HD) and isinstance(cb, HD):
            if set(ca.v) != set(cb.v):
                return False
            return self.conj([self.eq(ca.v[k], cb.v[k]) for k in ca.v])
        ty = self.join_ty(self.content_ty(ca), self.content_ty(cb))
        if isinstance(ty, EmptyTy):
            return True
        x, y = self.encode_content(ca, ty), self.encode_content(cb, ty)
        if isinstance(ty, TList):
            k = z3.Int("ek")
            return z3.And(ty.len(x) == ty.len(y), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ty.len(x)),
                          z3.Select(ty.arr(x), k) == z3.Select(ty.arr(y), k))))
        if isinstance(ty, TSet):
            return x == y
        if isinstance(ty, TRec):
            cs = []
            for n in ty.fields:
                cs.append(ty.has(x, n) == ty.has(y, n))
                cs.append(z3.Implies(ty.has(x, n), ty.val(x, n) == ty.val(y, n)))
            return z3.And(cs)
        k = z3.Const("ek", ty.k.sort())
        return z3.And(ty.dom(x) == ty.dom(y), z3.ForAll([k], z3.Implies(z3.Select(ty.dom(x), k), z3.Select(ty.val(x), k) == z3.Select(ty.val(y), k))))

    def mkbool(self, c):
        if isinstance(c, bool):
            return c
        return self.decode(c, TBool)

    # exceptions ------------------------------------------------------------
    def exc(self, name, *args, **attrs):
        c = builtin_exc(name)
        if c is None:
            c = self.model.exc_class(name)
        return PyRaise(ExcVal(c, args, attrs))

    def raise_if(self, cond, name, *args):
        if self.branch(cond):
            raise self.exc(name, *args)


class EmptyTy(Ty):
    def __init__(self, kind):
        self.name = "Empty_" + kind


def z3str(t):
    """host string of a z3 string literal"""
    s = t.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)
