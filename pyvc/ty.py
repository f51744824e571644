"""Types and symbolic values.

Every immutable symbolic value is `Sym(ty, t)`: a type descriptor and a z3
term.  Host constants (None, bool, int, float, str, bytes) stand for
themselves, host tuples are Python tuples.  Mutable containers are `Box`es.
"""
import z3


class Ty:
    name = "?"

    def sort(self):
        raise NotImplementedError(self.name)

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Ty) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


_sorts = {}


class Prim(Ty):
    def __init__(self, name, sort):
        self.name, self._sort = name, sort

    def sort(self):
        return self._sort()


TInt = Prim("Int", z3.IntSort)
TBool = Prim("Bool", z3.BoolSort)
TReal = Prim("Real", z3.RealSort)
TStr = Prim("Str", z3.StringSort)
TDate = Prim("Date", z3.RealSort)  # seconds since datetime.min, UTC
TDelta = Prim("Delta", z3.RealSort)  # seconds
TUnit = Prim("None", z3.BoolSort)


def _mk(name, build):
    if name not in _sorts:
        _sorts[name] = build()
    return _sorts[name]


def _bytes():
    d = z3.Datatype("Bytes")
    d.declare("mkbytes", ("blen", z3.IntSort()), ("barr", z3.ArraySort(z3.IntSort(), z3.IntSort())))
    return d.create()


class _TBytes(Ty):
    """bytes: length and contents; the array is 0 outside [0, len)."""
    name = "Bytes"

    def sort(self):
        return _mk(self.name, _bytes)


TBytes = _TBytes()


def ISB(t):
    """a proper value: its length is not negative, and it is 0 outside"""
    return z3.Function("is_bytes", TBytes.sort(), z3.BoolSort())(t)


class TOpq(Ty):
    """uninterpreted values of a named sort"""

    def __init__(self, name):
        self.name = "Opq_" + name

    def sort(self):
        return _mk(self.name, lambda: z3.DeclareSort(self.name))


class TEnum(Ty):
    def __init__(self, cls, members):
        self.cls, self.members = cls, members  # members: list of (NAME, value)
        self.name = "Enum_" + cls

    def sort(self):
        return z3.IntSort()


class TObj(Ty):
    def __init__(self, cls):
        self.cls = cls
        self.name = "Obj_" + cls

    def sort(self):
        return z3.IntSort()


class TOpt(Ty):
    def __init__(self, inner):
        self.inner = inner
        self.name = f"Opt_{inner.name}_"

    def sort(self):
        def b():
            d = z3.Datatype(self.name)
            n = self.inner.name
            d.declare("none_" + n)
            d.declare("some_" + n, ("the_" + n, self.inner.sort()))
            return d.create()

        return _mk(self.name, b)

    def none(self):
        return self.sort().constructor(0)()

    def some(self, t):
        return self.sort().constructor(1)(t)

    def is_none(self, t):
        return self.sort().recognizer(0)(t)

    def the(self, t):
        return self.sort().accessor(1, 0)(t)


class TTup(Ty):
    def __init__(self, *items):
        self.items = items
        self.name = "Tup_" + "_".join(i.name for i in items) + "_"

    def sort(self):
        def b():
            d = z3.Datatype(self.name)
            d.declare("mk_" + self.name, *[(f"i{n}_" + self.name, t.sort()) for n, t in enumerate(self.items)])
            return d.create()

        return _mk(self.name, b)

    def mk(self, *ts):
        return self.sort().constructor(0)(*ts)

    def get(self, t, n):
        return self.sort().accessor(0, n)(t)


class TList(Ty):
    def __init__(self, el):
        self.el = el
        self.name = f"List_{el.name}_"

    def sort(self):
        def b():
            d = z3.Datatype(self.name)
            d.declare("mk_" + self.name, ("len_" + self.name, z3.IntSort()), ("arr_" + self.name, z3.ArraySort(z3.IntSort(), self.el.sort())))
            return d.create()

        return _mk(self.name, b)

    def mk(self, n, a):
        return self.sort().constructor(0)(n, a)

    def len(self, t):
        return self.sort().accessor(0, 0)(t)

    def arr(self, t):
        return self.sort().accessor(0, 1)(t)


class TSet(Ty):
    def __init__(self, el):
        self.el = el
        self.name = f"Set_{el.name}_"

    def sort(self):
        return z3.ArraySort(self.el.sort(), z3.BoolSort())

    def empty(self):
        return z3.K(self.el.sort(), z3.BoolVal(False))


class TDict(Ty):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.name = f"Dict_{k.name}_{v.name}_"

    def sort(self):
        def b():
            d = z3.Datatype(self.name)
            d.declare("mk_" + self.name, ("dom_" + self.name, z3.ArraySort(self.k.sort(), z3.BoolSort())),
                      ("val_" + self.name, z3.ArraySort(self.k.sort(), self.v.sort())))
            return d.create()

        return _mk(self.name, b)

    def mk(self, d, v):
        return self.sort().constructor(0)(d, v)

    def dom(self, t):
        return self.sort().accessor(0, 0)(t)

    def val(self, t):
        return self.sort().accessor(0, 1)(t)


class TMap(Ty):
    """a total map (ghosts only)"""

    def __init__(self, k, v):
        self.k, self.v = k, v
        self.name = f"Map_{k.name}_{v.name}_"

    def sort(self):
        return z3.ArraySort(self.k.sort(), self.v.sort())


class TRec(Ty):
    """a dict with a fixed set of optional string keys: {"k": T}"""

    def __init__(self, name, fields):
        self.fields = fields  # ordered dict name -> (ty, optional)
        self.name = "Rec_" + name

    def sort(self):
        def b():
            d = z3.Datatype(self.name)
            fs = []
            for n, ty in self.fields.items():
                fs.append((f"has_{n}_{self.name}", z3.BoolSort()))
                fs.append((f"v_{n}_{self.name}", ty.sort()))
            d.declare("mk_" + self.name, *fs)
            return d.create()

        return _mk(self.name, b)

    def has(self, t, n):
        return self.sort().accessor(0, 2 * list(self.fields).index(n))(t)

    def val(self, t, n):
        return self.sort().accessor(0, 2 * list(self.fields).index(n) + 1)(t)

    def set(self, t, n, has, val):
        args = []
        for m, ty in self.fields.items():
            if m == n:
                args += [has, val if val is not None else self.val(t, m)]
            else:
                args += [self.has(t, m), self.val(t, m)]
        return self.sort().constructor(0)(*args)


class Sym:
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return f"Sym({self.ty}, {self.t})"


class Obj:
    """reference to a heap object of statically known class"""
    __slots__ = ("cls", "ref")

    def __init__(self, cls, ref):
        self.cls, self.ref = cls, ref

    def __repr__(self):
        return f"Obj({self.cls}, {self.ref})"


class EnumVal:
    pass


class Box:
    """mutable container; contents live in state.boxes[id] or in a heap field"""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Box({self.id})"


def simp(t):
    return z3.simplify(t)
