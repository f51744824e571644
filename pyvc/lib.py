"""Models of Python built-ins and of methods of built-in types.

These are trusted: each one states what the language or library does.
"""
import ast
import z3

from .interp import *  # noqa
from .interp import EmptyTy
from .ty import *  # noqa
from .quant import FORALL

STR_METHODS = {}
BYTES_METHODS = {}
LIST_METHODS = {}
SET_METHODS = {}
DICT_METHODS = {}
DATE_METHODS = {}
DELTA_METHODS = {}


def reg(table, *names):
    def d(f):
        for n in names:
            table[n] = f
        return f
    return d


def find_method(it, v, name):
    v0 = v
    table = None
    if isinstance(v, str):
        table = STR_METHODS
    elif isinstance(v, bytes):
        table = BYTES_METHODS
    elif isinstance(v, Sym):
        table = {"Str": STR_METHODS, "Bytes": BYTES_METHODS, "Date": DATE_METHODS, "Delta": DELTA_METHODS}.get(v.ty.name)
        if table is None:
            m = it.model.opq_methods.get((v.ty.name, name))
            if m is not None:
                r = m
                if isinstance(r, property):
                    return r.fget(it, v)
                return Builtin(f"{v.ty.name}.{name}", lambda it, a, k: m(it, v, a, k))
    elif isinstance(v, Box):
        c = it.content(v)
        if isinstance(c, HL) or isinstance(c, SV) and isinstance(c.ty, TList):
            table = LIST_METHODS
        elif isinstance(c, HS) or isinstance(c, SV) and isinstance(c.ty, TSet):
            table = SET_METHODS
        else:
            table = DICT_METHODS
    elif isinstance(v, SeqV):
        if v.kind == "keys":
            table = SET_METHODS
    elif isinstance(v, tuple) and name == "index":
        table = LIST_METHODS
    elif isinstance(v, FileV):
        return v.method(it, name)
    if table is None or name not in table:
        if table is DATE_METHODS and name == "tzinfo":
            return TZ_UTC
        return None
    f = table[name]
    return Builtin(f"{type(v).__name__}.{name}", lambda it, a, k: f(it, v0, a, k))


TZ_UTC = Opaque("tz_utc")


class FileV:
    """base of library file objects with a modelled behaviour"""

    def method(self, it, name):
        return None


# ------------------------------------------------------------------ strings
def sv(it, v):
    return it.encode(v, TStr)


def host(*vs):
    return all(isinstance(v, (str, int, bytes, type(None))) for v in vs)


def _host_str(name):
    def f(it, v, a, k):
        if host(v, *a) and not k:
            try:
                r = getattr(v, name)(*a)
            except (ValueError, UnicodeError) as e:
                raise it.exc(type(e).__name__ if type(e) in (ValueError,) else "UnicodeDecodeError")
            if isinstance(r, list):
                return it.new_box(HL(r))
            return r
        h = it.model.str_methods.get(name)
        if h is not None:
            return h(it, v, a, k)
        raise Unsupported(f"symbolic str.{name}")
    return f


for _n in ("upper", "split", "rsplit", "splitlines", "format_map", "title", "isdigit", "zfill", "lstrip", "rstrip", "count", "rindex", "find", "rfind"):
    STR_METHODS[_n] = _host_str(_n)


_split0 = STR_METHODS["split"]
SPLIT = z3.Function("str_split", z3.StringSort(), z3.StringSort(), TList(TStr).sort())


@reg(STR_METHODS, "split")
def _(it, v, a, k):
    """at a separator: at least one part (otherwise uninterpreted)"""
    if host(v, *a) or len(a) != 1 or k or not isinstance(it.force(a[0]), str) or not it.force(a[0]):
        return _split0(it, v, a, k)
    t = SPLIT(sv(it, v), sv(it, a[0]))
    it.assume(TList(TStr).len(t) >= 1)
    return it.decode(t, TList(TStr))


@reg(STR_METHODS, "startswith")
def _(it, v, a, k):
    if host(v, *a):
        return v.startswith(*a)
    if isinstance(a[0], tuple):
        return it.mkbool(it.disj([z3.PrefixOf(sv(it, x), sv(it, v)) for x in a[0]]))
    return it.mkbool(z3.PrefixOf(sv(it, a[0]), sv(it, v)))


@reg(STR_METHODS, "endswith")
def _(it, v, a, k):
    if host(v, *a):
        return v.endswith(*a)
    return it.mkbool(z3.SuffixOf(sv(it, a[0]), sv(it, v)))


@reg(STR_METHODS, "removeprefix")
def _(it, v, a, k):
    if host(v, *a):
        return v.removeprefix(*a)
    s, p = sv(it, v), sv(it, a[0])
    n = z3.Length(p)
    return it.decode(z3.If(z3.PrefixOf(p, s), z3.SubString(s, n, z3.Length(s) - n), s), TStr)


@reg(STR_METHODS, "removesuffix")
def _(it, v, a, k):
    if host(v, *a):
        return v.removesuffix(*a)
    s, p = sv(it, v), sv(it, a[0])
    n = z3.Length(s) - z3.Length(p)
    return it.decode(z3.If(z3.And(z3.Length(p) > 0, z3.SuffixOf(p, s)), z3.SubString(s, 0, n), s), TStr)


@reg(STR_METHODS, "replace")
def _(it, v, a, k):
    if host(v, *a):
        return v.replace(*a)
    # all occurrences: exact if the pattern occurs at most once after its
    # first occurrence; otherwise an uninterpreted result
    s, o, n = sv(it, v), sv(it, a[0]), sv(it, a[1])
    one = z3.Replace(s, o, n)
    f = z3.Function("str_replace_all", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
    return it.decode(z3.If(z3.Not(z3.Contains(s, o)), s, z3.If(z3.IndexOf(s, o, z3.IndexOf(s, o, 0) + 1) < 0, one, f(s, o, n))), TStr)


@reg(STR_METHODS, "strip")
def _(it, v, a, k):
    if host(v, *a):
        return v.strip(*a)
    f = z3.Function("str_strip", z3.StringSort(), z3.StringSort())
    s = sv(it, v)
    return Sym(TStr, f(s))


@reg(STR_METHODS, "lower")
def _(it, v, a, k):
    if host(v):
        return v.lower()
    f = z3.Function("str_lower", z3.StringSort(), z3.StringSort())
    return Sym(TStr, f(sv(it, v)))


@reg(STR_METHODS, "join")
def _(it, v, a, k):
    x = a[0]
    if isinstance(x, Box) and isinstance(it.content(x), HL):
        x = tuple(it.content(x).v)
    if isinstance(x, tuple) and all(isinstance(y, str) for y in x) and isinstance(v, str):
        return v.join(x)
    if v == "" and (isinstance(x, CharSet) or isinstance(x, Box) and isinstance(it.content(x), HS)):
        # the same characters in any order
        r = it.fresh("join", z3.StringSort())
        for ch in "rwabxt+":
            has = z3.Contains(x.t, z3.StringVal(ch)) if isinstance(x, CharSet) else it.contains(x, ch)
            it.assume(z3.Contains(r, z3.StringVal(ch)) == has)
        return Sym(TStr, r)
    return Sym(TStr, it.fresh("join", z3.StringSort()))


@reg(STR_METHODS, "format")
def _(it, v, a, k):
    if not isinstance(v, str):
        raise Unsupported("format")
    out, rest, auto = "", v, 0
    import string
    for lit, field, spec, conv in string.Formatter().parse(v):
        out = it.add(out, lit)
        if field is None:
            continue
        if field == "":
            x = a[auto]
            auto += 1
        elif field.isdigit():
            x = a[int(field)]
        elif field in k:
            x = k[field]
        else:
            raise it.exc("KeyError", field)
        if spec or conv:
            x = Sym(TStr, it.fresh("fmt", z3.StringSort()))
        out = it.add(out, it.to_str(x))
    return out


@reg(STR_METHODS, "encode")
def _(it, v, a, k):
    if host(v, *a):
        return v.encode(*a)
    f = z3.Function("str_encode", z3.StringSort(), TBytes.sort())
    return it.decode(f(sv(it, v)), TBytes)


@reg(BYTES_METHODS, "decode")
def _(it, v, a, k):
    if isinstance(v, bytes) and host(*a):
        try:
            return v.decode(*a)
        except UnicodeDecodeError:
            raise it.exc("UnicodeDecodeError")
    f = z3.Function("bytes_decode", TBytes.sort(), z3.StringSort())
    ok = z3.Function("bytes_decodable", TBytes.sort(), z3.BoolSort())
    t = it.encode(v, TBytes)
    # one-byte strings: exact
    B = TBytes.sort()
    it.raise_if(z3.Not(ok(t)), "UnicodeDecodeError")
    chars = getattr(it.model, "byte_chars", None)
    if chars is not None:
        # only these are told apart
        for ch in chars:
            it.assume((f(t) == z3.StringVal(ch)) == z3.And(B.blen(t) == 1, z3.Select(B.barr(t), 0) == ord(ch)))
        return it.decode(f(t), TStr)
    it.assume(z3.Implies(z3.And(B.blen(t) == 1, z3.Select(B.barr(t), 0) < 128), z3.And(z3.Length(f(t)) == 1, z3.StrToCode(f(t)) == z3.Select(B.barr(t), 0))))
    it.assume((B.blen(t) == 0) == (f(t) == z3.StringVal("")))
    return it.decode(f(t), TStr)


# -------------------------------------------------------------------- lists
def list_term(it, box, el=None):
    c = it.content(box)
    if isinstance(c, SV):
        return c.ty, c.t
    ty = it.content_ty(c)
    if isinstance(ty, EmptyTy):
        if el is None:
            return None, None
        ty = TList(el)
    return ty, it.encode_content(c, ty)


@reg(LIST_METHODS, "append")
def _(it, v, a, k):
    c = it.content(v)
    if isinstance(c, HL):
        it.set_content(v, HL(c.v + [a[0]]))
        return None
    ty = c.ty
    n = ty.len(c.t)
    new = z3.simplify(ty.mk(z3.simplify(n + 1), z3.Store(ty.arr(c.t), n, it.encode(a[0], ty.el))))
    if not it.pure:
        # (the elements before, for the solver)
        old = z3.simplify(ty.arr(c.t))
        l = it.fresh("appended", ty.sort())
        it.assume(l == new)
        i = z3.Int("ai")
        if z3.is_const(old) or z3.is_app(old) and old.num_args() == 1:
            it.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(ty.arr(l), i) == z3.Select(old, i)), patterns=[z3.Select(old, i)]))
        new = l
    it.set_content(v, SV(ty, new))


def list_extend(it, v, x):
    if isinstance(x, Sym):
        x = it.force(x)
    c = it.content(v)
    if isinstance(c, HL) and (isinstance(x, tuple) or isinstance(x, Box) and isinstance(it.content(x), HL)):
        it.set_content(v, HL(c.v + it.host_list(x)))
        return
    if isinstance(x, GenVal):
        it.set_content(v, HL(c.v + it.host_list(x)))
        return
    if not isinstance(x, Box):
        s = it.seq(x)
        if s is None:
            raise Unsupported("extend")
        x = it.seq_to_list(s)
    r = it.list_concat(v, x)
    it.set_content(v, it.content(r))


@reg(LIST_METHODS, "extend")
def _(it, v, a, k):
    list_extend(it, v, a[0])


@reg(LIST_METHODS, "copy")
def _(it, v, a, k):
    return it.new_box(it.content(v).copy())


@reg(LIST_METHODS, "clear")
def _(it, v, a, k):
    it.set_content(v, HL([]))


def first_index(it, ty, t, x):
    """index of the first element equal to x (fresh), given it exists"""
    i = it.fresh("idx", z3.IntSort())
    j = z3.Int("ij")
    xt = it.encode(x, ty.el)
    it.assume(z3.And(0 <= i, i < ty.len(t), z3.Select(ty.arr(t), i) == xt))
    it.assume(FORALL([j], z3.Implies(z3.And(0 <= j, j < i), z3.Select(ty.arr(t), j) != xt)))
    return i


@reg(LIST_METHODS, "index")
def _(it, v, a, k):
    c = it.content(v) if isinstance(v, Box) else HL(list(v))
    x = a[0]
    if isinstance(c, HL):
        for i, y in enumerate(c.v):
            if it.branch(it.eq(y, x)):
                if len(a) > 1 and i < a[1]:
                    continue
                return i
        raise it.exc("ValueError", "not in list")
    if len(a) > 1:
        raise Unsupported("index with start")
    if not it.key_ok(x, c.ty.el):
        raise it.exc("ValueError", "not in list")
    it.raise_if(z3.Not(it.contains(v, x)), "ValueError", "not in list")
    return Sym(TInt, first_index(it, c.ty, c.t, x))


@reg(LIST_METHODS, "remove")
def _(it, v, a, k):
    c = it.content(v)
    x = a[0]
    if isinstance(c, HL):
        for i, y in enumerate(c.v):
            if it.branch(it.eq(y, x)):
                it.set_content(v, HL(c.v[:i] + c.v[i + 1:]))
                return
        raise it.exc("ValueError", "not in list")
    it.raise_if(z3.Not(it.contains(v, x)), "ValueError", "not in list")
    ty = c.ty
    i = first_index(it, ty, c.t, x)
    j = z3.Int("rj")
    it.set_content(v, SV(ty, ty.mk(z3.simplify(ty.len(c.t) - 1), z3.Lambda([j], z3.If(j < i, z3.Select(ty.arr(c.t), j), z3.Select(ty.arr(c.t), j + 1))))))


@reg(LIST_METHODS, "pop")
def _(it, v, a, k):
    c = it.content(v)
    if isinstance(c, HL):
        if not c.v:
            raise it.exc("IndexError", "pop")
        i = a[0] if a else -1
        l = list(c.v)
        x = l.pop(i)
        it.set_content(v, HL(l))
        return x
    ty = c.ty
    n = ty.len(c.t)
    it.raise_if(n <= 0, "IndexError", "pop")
    if a and a[0] == 0:
        x = z3.Select(ty.arr(c.t), 0)
        j = z3.Int("rj")
        it.set_content(v, SV(ty, ty.mk(z3.simplify(n - 1), z3.Lambda([j], z3.Select(ty.arr(c.t), j + 1)))))
        return it.decode(x, ty.el)
    if a and a[0] != -1:
        raise Unsupported("pop index")
    x = z3.Select(ty.arr(c.t), n - 1)
    it.set_content(v, SV(ty, ty.mk(z3.simplify(n - 1), ty.arr(c.t))))
    return it.decode(x, ty.el)


@reg(LIST_METHODS, "insert")
def _(it, v, a, k):
    c = it.content(v)
    if isinstance(c, HL) and isinstance(a[0], int):
        l = list(c.v)
        l.insert(a[0], a[1])
        it.set_content(v, HL(l))
        return
    raise Unsupported("insert")


def key_term(it, key, x):
    """value of a sort key function for element term, as host value"""
    return it.call(key, [x], {}) if key is not None else x


def sorted_list(it, v, key, reverse):
    """new box: a stable sort of v (axiomatised permutation)"""
    c = it.content(v)
    if isinstance(c, HL):
        if len(c.v) <= 1:
            return c.copy()
        if all(isinstance(x, (str, int)) for x in c.v) and key is None:
            return HL(sorted(c.v, reverse=bool(reverse)))
        ty = it.content_ty(c)
        c = SV(ty, it.encode_content(c, ty))
    ty, t = c.ty, c.t
    n = ty.len(t)
    it.fresh_n += 1
    u = it.fresh_n
    arr = z3.Const(f"srt!{u}", z3.ArraySort(z3.IntSort(), ty.el.sort()))
    p = z3.Function(f"srtp!{u}", z3.IntSort(), z3.IntSort())
    q = z3.Function(f"srtq!{u}", z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("si sj")
    S = z3.Select
    it.assume(FORALL([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i, S(arr, i) == S(ty.arr(t), p(i)))), patterns=[S(arr, i), p(i)]))
    it.assume(FORALL([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)] + ([S(ty.arr(t), i)] if not z3.is_quantifier(ty.arr(t)) else [])))
    # order
    a, b = it.fresh("ka", z3.IntSort()), it.fresh("kb", z3.IntSort())
    ea, eb = it.decode(S(arr, a), ty.el, assume=False), it.decode(S(arr, b), ty.el, assume=False)

    def le():
        x, y = key_term(it, key, ea), key_term(it, key, eb)
        return it.mkbool(it.order("le" if not reverse else "ge", x, y))

    it.solver.push()
    it.solver.add(z3.And(0 <= a, a < b, b < n))
    try:
        outs = it.sub_explore(le)
    finally:
        it.solver.pop()
    t1 = it.bool_of_outs(outs)
    body = z3.Implies(z3.And(0 <= a, a < b, b < n), t1)
    it.assume(FORALL([a, b], body, patterns=[z3.MultiPattern(S(arr, a), S(arr, b))]))
    r = SV(ty, ty.mk(n, arr))
    it.sort_facts = (arr, p, q)
    return r


@reg(LIST_METHODS, "sort")
def _(it, v, a, k):
    it.set_content(v, sorted_list(it, v, k.get("key"), k.get("reverse", False)))


@reg(LIST_METHODS, "count")
def _(it, v, a, k):
    raise Unsupported("list.count")


# --------------------------------------------------------------------- sets
def set_term(it, v):
    r = it.as_set(v)
    if r is None:
        raise Unsupported(f"not a set: {v!r}")
    return r


class CharSet:
    """the set of the characters of a string"""

    def __init__(self, t):
        self.t = t


def to_set(it, v):
    if isinstance(v, str):
        v = tuple(v)
    if isinstance(v, Sym) and v.ty == TStr:
        return CharSet(v.t)
    if isinstance(v, Box):
        c = it.content(v)
        if isinstance(c, SV) and isinstance(c.ty, TSet) or isinstance(c, HS):
            return it.new_box(c.copy())
        if isinstance(c, HL):
            b = it.new_box(HS([]))
            for x in c.v:
                it.set_add(b, x)
            return b
        if isinstance(c, HD):
            return it.new_box(HS(list(c.v)))
        if isinstance(c.ty, TDict):
            return it.new_box(SV(TSet(c.ty.k), c.ty.dom(c.t)))
        if isinstance(c.ty, TRec):
            raise Unsupported("set of record")
    if isinstance(v, (tuple, GenVal)):
        b = it.new_box(HS([]))
        for x in (v if isinstance(v, tuple) else list(v.gen)):
            it.set_add(b, x)
        return b
    s = it.seq(v)
    if s is None:
        raise Unsupported(f"set of {v!r}")
    if getattr(s, "dom", None) is not None:
        return it.new_box(SV(TSet(s.ty), s.dom))
    if getattr(s, "comp", None) is not None:
        k, s0, ct, ety, et = s.comp
        return it.comp_set(k, s0, ct, ety, et)
    k = it.fresh("lk", z3.IntSort())
    outs = it.sub_explore(lambda: s.get(k))
    e = it.merge_frozen(outs)
    ety = it.ty_of(e)
    return it.comp_set(k, s, z3.BoolVal(True), ety, it.encode(e, ety))


Interp.to_set = to_set


@reg(SET_METHODS, "add")
def _(it, v, a, k):
    it.set_add(v, a[0])


def _set_del(it, v, x, must):
    c = it.content(v)
    if isinstance(c, HS):
        for i, y in enumerate(c.v):
            if it.branch(it.eq(y, x)):
                it.set_content(v, HS(c.v[:i] + c.v[i + 1:]))
                return
        if must:
            raise it.exc("KeyError", x)
        return
    t = it.encode(x, c.ty.el)
    if must:
        it.raise_if(z3.Not(z3.Select(c.t, t)), "KeyError", x)
    it.set_content(v, SV(c.ty, z3.Store(c.t, t, False)))


@reg(SET_METHODS, "remove")
def _(it, v, a, k):
    _set_del(it, v, a[0], True)


@reg(SET_METHODS, "discard")
def _(it, v, a, k):
    _set_del(it, v, a[0], False)


@reg(SET_METHODS, "update")
def _(it, v, a, k):
    for x in a:
        s = to_set(it, x)
        r = it.box_binop(ast.BitOr, v, s)
        it.set_content(v, it.content(r))


@reg(SET_METHODS, "difference_update")
def _(it, v, a, k):
    for x in a:
        r = it.box_binop(ast.Sub, v, to_set(it, x))
        it.set_content(v, it.content(r))


@reg(SET_METHODS, "union")
def _(it, v, a, k):
    r = to_set(it, v)
    for x in a:
        r = it.box_binop(ast.BitOr, r, to_set(it, x))
    return r


@reg(SET_METHODS, "difference")
def _(it, v, a, k):
    r = to_set(it, v)
    for x in a:
        r = it.box_binop(ast.Sub, r, to_set(it, x))
    return r


@reg(SET_METHODS, "intersection")
def _(it, v, a, k):
    r = to_set(it, v)
    for x in a:
        r = it.box_binop(ast.BitAnd, r, to_set(it, x))
    return r


@reg(SET_METHODS, "issubset")
def _(it, v, a, k):
    return it.mkbool(it.order("le", to_set(it, v), to_set(it, a[0])))


@reg(SET_METHODS, "copy")
def _(it, v, a, k):
    return to_set(it, v)


# -------------------------------------------------------------------- dicts
@reg(DICT_METHODS, "get")
def _(it, v, a, k):
    d = a[1] if len(a) > 1 else k.get("default")
    c = it.content(v)
    if isinstance(c, SV) and isinstance(c.ty, TDict) and it.key_ok(a[0], c.ty.k):
        kt = it.encode(a[0], c.ty.k)
        p = z3.Select(c.ty.dom(c.t), kt)
        if it.branch(p):
            return it.elem(v, kt, c.ty.v, z3.Select(c.ty.val(c.t), kt))
        return d
    if isinstance(c, SV) and isinstance(c.ty, TRec) and isinstance(a[0], str) and a[0] not in c.ty.fields:
        it.notes.add(f"dictionary key {a[0]!r} outside the model of {c.ty.name}")
        return d
    if it.branch(it.contains(v, a[0])):
        return it.getitem(v, a[0])
    return d


@reg(DICT_METHODS, "setdefault")
def _(it, v, a, k):
    d = a[1] if len(a) > 1 else None
    c = it.content(v)
    if isinstance(c, SV) and isinstance(c.ty, TRec) and isinstance(a[0], str) and a[0] not in c.ty.fields:
        it.notes.add(f"dictionary key {a[0]!r} outside the model of {c.ty.name}")
        return d
    if not it.branch(it.contains(v, a[0])):
        it.setitem(v, a[0], d)
        if isinstance(d, Box) and isinstance(it.content(v), HD):
            return d
    return it.getitem(v, a[0])


@reg(DICT_METHODS, "keys")
def _(it, v, a, k):
    c = it.content(v)
    if isinstance(c, HD):
        return it.new_box(HS(list(c.v)))
    if isinstance(c.ty, TDict):
        return it.enum_set(c.ty.k, c.ty.dom(c.t))
    raise Unsupported("keys")


@reg(DICT_METHODS, "items")
def _(it, v, a, k):
    c = it.content(v)
    if isinstance(c, HD):
        return it.new_box(HL([(x, y) for x, y in c.v.items()]))
    if isinstance(c.ty, TDict):
        s = it.enum_set(c.ty.k, c.ty.dom(c.t))

        def get(i):
            kt = z3.Select(s.arr, i)
            cc = it.content(v)
            return (it.decode(kt, cc.ty.k), it.elem(v, kt, cc.ty.v, z3.Select(cc.ty.val(cc.t), kt)))

        r = SeqV(s.n, get, "items", None)
        r.arr, r.idx = s.arr, s.idx
        r.keys, r.dty, r.dt = s, c.ty, c.t
        return r
    raise Unsupported("items")


@reg(DICT_METHODS, "values")
def _(it, v, a, k):
    c = it.content(v)
    if isinstance(c, HD):
        return it.new_box(HL(list(c.v.values())))
    if isinstance(c.ty, TDict):
        s = it.enum_set(c.ty.k, c.ty.dom(c.t))

        def get(i):
            kt = z3.Select(s.arr, i)
            cc = it.content(v)
            return it.elem(v, kt, cc.ty.v, z3.Select(cc.ty.val(cc.t), kt))

        r = SeqV(s.n, get, "values", c.ty.v)
        r.keys, r.dty, r.dt = s, c.ty, c.t
        return r
    raise Unsupported("values")


@reg(DICT_METHODS, "update")
def _(it, v, a, k):
    x = a[0] if a else None
    if x is not None:
        c = it.content(x)
        if not isinstance(c, HD):
            raise Unsupported("dict.update")
        for kk, vv in c.v.items():
            it.setitem(v, kk, vv)
    for kk, vv in k.items():
        it.setitem(v, kk, vv)


@reg(DICT_METHODS, "pop")
def _(it, v, a, k):
    if it.branch(it.contains(v, a[0])):
        x = it.getitem(v, a[0])
        it.delitem(v, a[0])
        return x
    if len(a) > 1:
        return a[1]
    raise it.exc("KeyError", a[0])


@reg(DICT_METHODS, "clear")
def _(it, v, a, k):
    c = it.content(v)
    if isinstance(c, SV) and isinstance(c.ty, TDict):
        it.set_content(v, SV(c.ty, c.ty.mk(z3.K(c.ty.k.sort(), z3.BoolVal(False)), c.ty.val(c.t))))
    else:
        it.set_content(v, HD({}))


@reg(DICT_METHODS, "copy")
def _(it, v, a, k):
    return it.new_box(it.content(v).copy())


# -------------------------------------------------------------------- dates
@reg(DATE_METHODS, "replace")
def _(it, v, a, k):
    if set(k) <= {"tzinfo"}:
        return v
    raise Unsupported("datetime.replace")


@reg(DATE_METHODS, "astimezone")
def _(it, v, a, k):
    return v


@reg(DATE_METHODS, "strftime", "isoformat")
def _(it, v, a, k):
    return it.to_str(v)


@reg(DELTA_METHODS, "total_seconds")
def _(it, v, a, k):
    return it.decode(v.t, TReal)


# ---------------------------------------------------------------- functions
def b_len(it, a, k):
    v = it.force(a[0])
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if v is None:
        raise it.exc("TypeError", "len of None")
    if isinstance(v, Sym):
        if v.ty == TStr:
            return it.decode(z3.Length(v.t), TInt)
        if v.ty == TBytes:
            return it.decode(TBytes.sort().blen(v.t), TInt)
    if isinstance(v, Box):
        c = it.content(v)
        if isinstance(c, (HL, HD, HS)):
            return len(c.v)
        if isinstance(c.ty, TList):
            return it.decode(c.ty.len(c.t), TInt)
        if isinstance(c.ty, TSet):
            return it.decode(it.enum_set(c.ty.el, c.t).n, TInt)
        if isinstance(c.ty, TDict):
            return it.decode(it.enum_set(c.ty.k, c.ty.dom(c.t)).n, TInt)
    if isinstance(v, SeqV):
        return it.decode(v.n, TInt)
    if isinstance(v, Opaque):
        n = it.fresh("len", z3.IntSort())
        it.assume(n >= 0)
        return Sym(TInt, n)
    if isinstance(v, Obj):
        return it.call(it.getattr(v, "__len__"), [], {})
    raise Unsupported(f"len of {v!r}")


def _minmax(it, a, k, op):
    default = k.get("default", MISSING)
    key = k.get("key")
    if len(a) > 1:
        xs = [it.force(x) for x in a]
    else:
        v = it.force(a[0])
        if isinstance(v, Box) and isinstance(it.content(v), (HL, HS, HD)) or isinstance(v, tuple):
            xs = it.host_list(v)
        else:
            s = it.seq(v)
            if s is None:
                raise Unsupported("min/max")
            return minmax_seq(it, s, op, key, default)
    if not xs:
        if default is not MISSING:
            return default
        raise it.exc("ValueError", "empty sequence")
    best = xs[0]
    for x in xs[1:]:
        kb, kx = key_term(it, key, best), key_term(it, key, x)
        c = it.order(op, kx, kb)
        if isinstance(c, bool):
            best = x if c else best
            continue
        try:
            ty = it.join_ty(it.ty_of(x), it.ty_of(best))
            if isinstance(ty, (TList, TSet, TDict, TRec, TObj, TTup)):
                raise Unsupported("x")
            best = it.decode(z3.If(c, it.encode(x, ty), it.encode(best, ty)), ty)
        except Unsupported:
            if it.branch(c):
                best = x
    return best


def minmax_seq(it, s, op, key, default):
    if not it.branch(s.n > 0):
        if default is not MISSING:
            return default
        raise it.exc("ValueError", "empty sequence")
    it.fresh_n += 1
    u = it.fresh_n
    m = z3.Int(f"mm!{u}")
    it.assume(z3.And(0 <= m, m < s.n))
    x = s.get(m)
    j = z3.Int(f"mj!{u}")
    rel = {"lt": "le", "gt": "ge"}[op]

    def cond():
        return it.mkbool(it.order(rel, key_term(it, key, x), key_term(it, key, s.get(j))))

    it.solver.push()
    it.solver.add(z3.And(0 <= j, j < s.n))
    try:
        outs = it.sub_explore(cond)
    finally:
        it.solver.pop()
    t = it.bool_of_outs(outs)
    it.assume(FORALL([j], z3.Implies(z3.And(0 <= j, j < s.n), t)))
    return x


def b_min(it, a, k):
    return _minmax(it, a, k, "lt")


def b_max(it, a, k):
    return _minmax(it, a, k, "gt")


def b_list(it, a, k):
    if not a:
        return it.new_box(HL([]))
    v = it.force(a[0])
    if isinstance(v, Box):
        c = it.content(v)
        if isinstance(c, HL) or isinstance(c, SV) and isinstance(c.ty, TList):
            return it.new_box(c.copy())
        if isinstance(c, (HS, HD)):
            return it.new_box(HL(list(c.v)))
    if isinstance(v, tuple):
        return it.new_box(HL(list(v)))
    if isinstance(v, GenVal):
        return it.new_box(HL(list(v.gen)))
    if isinstance(v, str):
        return it.new_box(HL(list(v)))
    if isinstance(v, Opaque):
        return Opaque(v.name)
    s = it.seq(v)
    if s is None:
        raise Unsupported(f"list of {v!r}")
    return it.seq_to_list(s)


def b_tuple(it, a, k):
    if not a:
        return ()
    return tuple(it.host_list(a[0]))


def b_set(it, a, k):
    if not a:
        return it.new_box(HS([]))
    if isinstance(a[0], Opaque):
        return Opaque(a[0].name)
    v = it.force(a[0])
    if v is None:
        raise it.exc("TypeError", "'NoneType' object is not iterable")
    return to_set(it, v)


def b_dict(it, a, k):
    if not a:
        return it.new_box(HD(k))
    v = it.force(a[0])
    if isinstance(v, Box):
        c = it.content(v)
        if isinstance(c, HD) or isinstance(c, SV) and isinstance(c.ty, (TDict, TRec)):
            return it.new_box(c.copy())
        if isinstance(c, HL):
            return it.make_dict([it.host_list(x) for x in c.v])
        if isinstance(c, SV) and isinstance(c.ty, TList) and isinstance(c.ty.el, TTup):
            s = it.seq(v)
            k0 = it.fresh("dk", z3.IntSort())
            x = c.ty.el
            e = z3.Select(c.ty.arr(c.t), k0)
            kv = (it.decode(x.get(e, 0), x.items[0], assume=False), it.decode(x.get(e, 1), x.items[1], assume=False))
            return it.dict_comp(k0, s, z3.BoolVal(True), [(z3.BoolVal(True), "val", kv, [])])
    raise Unsupported("dict()")


def pred_all(it, v, want):
    """truth term of any()/all() over a sequence"""
    v = it.force(v)
    if isinstance(v, GenVal):
        for x in v.gen:
            if it.test(x) == want:
                return want
        return not want
    if isinstance(v, tuple) or isinstance(v, Box) and isinstance(it.content(v), (HL, HS)):
        for x in it.host_list(v):
            if it.test(x) == want:
                return want
        return not want
    s = it.seq(v)
    if s is None:
        raise Unsupported("any/all")
    comp = getattr(s, "comp", None)
    if comp is not None:
        k, s0, ct, ety, et = comp
        p = it.truth(it.decode(et, ety, assume=False))
        if isinstance(p, bool):
            p = z3.BoolVal(p)
        rng = z3.And(0 <= k, k < s0.n, ct)
    else:
        k = it.fresh("ak", z3.IntSort())
        outs = it.sub_explore(lambda: it.mkbool(it.truth(s.get(k))))
        p = it.bool_of_outs(outs)
        rng = z3.And(0 <= k, k < s.n)
    if want:
        return it.mkbool(z3.Exists([k], z3.And(rng, p)))
    return it.mkbool(FORALL([k], z3.Implies(rng, p)))


def b_any(it, a, k):
    return pred_all(it, a[0], True)


def b_all(it, a, k):
    return pred_all(it, a[0], False)


def b_sum(it, a, k):
    v = it.force(a[0])
    if isinstance(v, (tuple, Box)) and not (isinstance(v, Box) and isinstance(it.content(v), SV)):
        r = a[1] if len(a) > 1 else 0
        for x in it.host_list(v):
            r = it.add(r, x)
        return r
    if isinstance(v, Opaque):
        return Sym(TInt, it.fresh("sum", z3.IntSort()))
    s = it.seq(v)
    if s is not None:
        # an uninterpreted total; non-negative for non-negative summands
        return Sym(TInt, it.fresh("sum", z3.IntSort()))
    raise Unsupported("sum")


TYPE_NAMES = {"str": ("Str",), "bytes": ("Bytes",), "int": ("Int", "Bool"), "bool": ("Bool",), "float": ("Real",)}


def isinstance_(it, v, t):
    if isinstance(t, tuple):
        return it.disj([isinstance_(it, v, x) for x in t])
    if isinstance(v, Sym) and isinstance(v.ty, TOpt):
        v = it.force(v)
    if isinstance(v, ExcVal):
        n = getattr(t, "name", None)
        return n in v.cls.mro
    if isinstance(v, Sym) and (v.ty.name, "__isinstance__") in it.model.opq_methods:
        return it.model.opq_methods[v.ty.name, "__isinstance__"](it, v, [t], {})
    if isinstance(t, ExcClass):
        return False
    if isinstance(t, NTClass) or isinstance(v, NTVal):
        return isinstance(t, NTClass) and isinstance(v, NTVal) and v.cls is t
    if isinstance(t, ClassVal):
        if isinstance(v, Obj):
            return t.cls.name in it.model.mro(v.cls)
        h = it.model.isinstance_hook
        if h:
            r = h(it, v, t.cls.name)
            if r is not None:
                return r
        if isinstance(v, Sym) and isinstance(v.ty, TEnum):
            return v.ty.cls == t.cls.name
        if isinstance(v, Opaque):
            return it.fresh("isinstance", z3.BoolSort())
        return False
    n = t.name if isinstance(t, (ExtClass, Builtin)) else None
    if n is None:
        raise Unsupported(f"isinstance {t!r}")
    n = n.split(".")[-1]
    if isinstance(v, Opaque):
        return it.fresh("isinstance", z3.BoolSort())
    if n in TYPE_NAMES:
        py = {"str": str, "bytes": bytes, "int": int, "bool": bool, "float": float}[n]
        if isinstance(v, (str, bytes, int, bool, float)):
            return isinstance(v, py)
        if isinstance(v, Sym):
            return v.ty.name in TYPE_NAMES[n]
        return False
    if n in ("list", "dict", "set"):
        if not isinstance(v, Box):
            return False
        c = it.content(v)
        k = {"list": (HL, TList), "dict": (HD, (TDict, TRec)), "set": (HS, TSet)}[n]
        return isinstance(c, k[0]) or isinstance(c, SV) and isinstance(c.ty, k[1])
    if n == "tuple":
        return isinstance(v, tuple)
    if n in ("datetime",):
        return isinstance(v, Sym) and v.ty == TDate
    if n == "timedelta":
        return isinstance(v, Sym) and v.ty == TDelta
    if isinstance(v, Obj):
        return n in it.model.mro(v.cls)
    if isinstance(v, Sym) and v.ty.name == "Opq_" + n:
        return True
    return False


def b_isinstance(it, a, k):
    return it.mkbool(isinstance_(it, a[0], a[1]))


def b_hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.exc.isa("AttributeError"):
            return False
        raise


def b_getattr(it, a, k):
    if not isinstance(a[1], str):
        # one of the methods of the class: by case distinction over names
        o = it.force(a[0])
        cl = it.model.repo_class(o.cls) if isinstance(o, Obj) else None
        if cl is None:
            raise Unsupported("getattr with a computed name")
        t = it.encode(a[1], TStr)
        for c in it.model.mro(o.cls):
            k = it.model.repo_class(c)
            for n in (list(k.funcs) + list(k.attrs) if k is not None else []):
                cond = z3.simplify(t == z3.StringVal(n))
                if z3.is_false(cond):
                    continue
                if it.branch(cond):
                    return b_getattr(it, [o, n] + list(a[2:]), {})
        if not it.feasible(z3.BoolVal(True)):
            raise PathEnd()
        raise Unsupported("getattr with a computed name")
    try:
        return it.getattr(a[0], a[1])
    except PyRaise as e:
        if e.exc.isa("AttributeError") and len(a) > 2:
            return a[2]
        raise


def b_setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


def b_enumerate(it, a, k):
    v = it.force(a[0])
    st = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(v, (tuple, GenVal)) or isinstance(v, Box) and isinstance(it.content(v), (HL, HS, HD)):
        return it.new_box(HL([(st + i, x) for i, x in enumerate(it.host_list(v))]))
    s = it.seq(v)
    return SeqV(s.n, lambda i: (it.decode(z3.simplify(i + st), TInt), s.get(i)), "enumerate")


def b_zip(it, a, k):
    vs = [it.force(x) for x in a]
    if all(isinstance(v, tuple) or isinstance(v, Box) and isinstance(it.content(v), HL) for v in vs):
        return it.new_box(HL(list(zip(*[it.host_list(v) for v in vs]))))
    ss = []
    for v in vs:
        s = it.seq(v)
        if s is None:
            raise Unsupported("zip")
        ss.append(s)
    n = ss[0].n
    for s in ss[1:]:
        n = z3.If(s.n < n, s.n, n)
    return SeqV(z3.simplify(n), lambda i: tuple(s.get(i) for s in ss), "zip")


def b_range(it, a, k):
    a = [it.force(x) for x in a]
    if all(isinstance(x, int) for x in a) and len(range(*a)) <= 300:
        return it.new_box(HL(list(range(*a))))
    if len(a) == 1:
        lo, hi = z3.IntVal(0), it.encode(a[0], TInt)
    elif len(a) == 2:
        lo, hi = it.encode(a[0], TInt), it.encode(a[1], TInt)
    else:
        raise Unsupported("range step")
    return SeqV(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda i: it.decode(z3.simplify(lo + i), TInt), "range", TInt)


def b_reversed(it, a, k):
    v = it.force(a[0])
    if isinstance(v, tuple) or isinstance(v, Box) and isinstance(it.content(v), HL):
        return it.new_box(HL(list(reversed(it.host_list(v)))))
    s = it.seq(v)
    if s is None:
        raise Unsupported("reversed")
    r = SeqV(s.n, lambda i: s.get(z3.simplify(s.n - 1 - i)), "reversed", s.ty)
    r.rev = s
    return r


def b_sorted(it, a, k):
    v = b_list(it, [a[0]], {})
    return it.new_box(sorted_list(it, v, k.get("key"), k.get("reverse", False)))


def b_filter(it, a, k):
    f, v = a
    v = it.force(v)
    if isinstance(v, Box) and isinstance(it.content(v), HL) or isinstance(v, tuple):
        xs = it.host_list(v)
        out = [x for x in xs if it.test(x if f is None else it.call(f, [x], {}))]
        return it.new_box(HL(out))
    raise Unsupported("filter")


def b_map(it, a, k):
    v = it.force(a[1])
    if isinstance(v, Box) and isinstance(it.content(v), HL) or isinstance(v, tuple):
        return it.new_box(HL([it.call(a[0], [x], {}) for x in it.host_list(v)]))
    raise Unsupported("map")


ISINT = z3.Function("is_int_str", z3.StringSort(), z3.BoolSort())
INTOF = z3.Function("int_of_str", z3.StringSort(), z3.IntSort())


def b_int(it, a, k):
    v = it.force(a[0]) if a else 0
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v, *a[1:])
        except ValueError:
            raise it.exc("ValueError", "int")
    if v is None:
        raise it.exc("TypeError", "int")
    if isinstance(v, Sym):
        if v.ty == TInt:
            return v
        if v.ty == TBool:
            return it.decode(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), TInt)
        if v.ty == TReal:
            f = z3.ToInt(v.t)
            return it.decode(z3.If(v.t >= 0, f, -z3.ToInt(-v.t)), TInt)
        if v.ty == TStr:
            # int(s): partial function on strings; str(int) round-trips
            ok = z3.Function("is_int_str", z3.StringSort(), z3.BoolSort())
            val = z3.Function("int_of_str", z3.StringSort(), z3.IntSort())
            it.raise_if(z3.Not(ok(v.t)), "ValueError", "int")
            return it.decode(val(v.t), TInt)
    if isinstance(v, Opaque):
        return Sym(TInt, it.fresh("int", z3.IntSort()))
    raise Unsupported(f"int of {v!r}")


def b_float(it, a, k):
    v = it.force(a[0])
    if isinstance(v, (int, float)):
        return float(v)
    return Sym(TReal, it.encode(v, TReal))


def b_str(it, a, k):
    return it.to_str(a[0]) if a else ""


def b_bool(it, a, k):
    return it.mkbool(it.truth(a[0]))


def b_abs(it, a, k):
    v = it.force(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    return it.decode(z3.If(v.t >= 0, v.t, -v.t), v.ty)


def b_iter(it, a, k):
    v = it.force(a[0])
    if isinstance(v, GenVal):
        return v
    return v


def b_next(it, a, k):
    v = a[0]
    if isinstance(v, GenVal):
        try:
            return next(v.gen)
        except StopIteration:
            if len(a) > 1:
                return a[1]
            raise it.exc("StopIteration")
    raise Unsupported("next")


def b_print(it, a, k):
    h = it.model.on_print
    if h:
        h(it, a)
    return None


def b_type(it, a, k):
    v = a[0]
    if isinstance(v, Obj):
        c = it.model.repo_class(v.cls)
        if c is not None:
            return ClassVal(c)
    return Opaque("type")


def b_round(it, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        return round(*a)
    return Sym(TReal if len(a) > 1 else TInt, it.fresh("round", z3.RealSort() if len(a) > 1 else z3.IntSort()))


def b_object(it, a, k):
    return Opaque("object")


def b_id(it, a, k):
    return Sym(TInt, it.fresh("id", z3.IntSort()))


def b_repr(it, a, k):
    return Sym(TStr, it.fresh("repr", z3.StringSort()))


def b_super(it, a, k):
    raise Unsupported("super")


def b_divmod(it, a, k):
    return (it.binop(ast.FloorDiv, a[0], a[1]), it.binop(ast.Mod, a[0], a[1]))


BUILTINS = {n[2:]: f for n, f in list(globals().items()) if n.startswith("b_")}
for _n in ("bytes", "bytearray", "memoryview", "frozenset"):
    BUILTINS.setdefault(_n, None)
BUILTINS = {k: v for k, v in BUILTINS.items() if v}
# types which also occur in isinstance and annotations: Builtin.name is used


# ------------------------------------------------------------------ modules
def fresh_real(name):
    def f(it, a, k):
        return Sym(TReal, it.fresh(name, z3.RealSort()))
    return f


def noop(it, a, k):
    return None


def opaque(name):
    def f(it, a, k):
        return Opaque(name)
    return f


def m_ceil(it, a, k):
    v = it.force(a[0])
    if isinstance(v, (int, float)):
        import math
        return math.ceil(v)
    if v.ty == TInt:
        return v
    return it.decode(-z3.ToInt(-v.t), TInt)


def m_floor(it, a, k):
    v = it.force(a[0])
    if isinstance(v, (int, float)):
        import math
        return math.floor(v)
    if v.ty == TInt:
        return v
    return it.decode(z3.ToInt(v.t), TInt)


UNITS = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600, "weeks": 7 * 86400, "milliseconds": None, "microseconds": None}


def timedelta(it, a, k):
    t = z3.RealVal(0)
    if a:
        k = dict(k, days=a[0])
        if len(a) > 1:
            k["seconds"] = a[1]
    for n, v in k.items():
        u = UNITS.get(n)
        if u is None:
            raise Unsupported("timedelta " + n)
        t = t + it.encode(v, TReal) * u
    return Sym(TDelta, z3.simplify(t))


def now(it, a, k):
    """the clock never goes backwards"""
    n = it.fresh("now", z3.RealSort())
    it.assume(n >= it.get_ghost("clock"))
    it.set_ghost("clock", n)
    return Sym(TDate, n)


def date_fromisoformat(it, a, k):
    v = it.force(a[0])
    if not isinstance(v, (str, Sym)):
        raise it.exc("TypeError", "fromisoformat")
    if isinstance(v, str):
        import datetime
        try:
            datetime.datetime.fromisoformat(v)
        except ValueError:
            raise it.exc("ValueError", "isoformat")
    s = it.encode(v, TStr)
    ok = z3.Function("is_iso_date", z3.StringSort(), z3.BoolSort())
    val = z3.Function("iso_date", z3.StringSort(), z3.RealSort())
    it.raise_if(z3.Not(ok(s)), "ValueError", "isoformat")
    return Sym(TDate, val(s))


def deepcopy(it, a, k):
    v = a[0]
    if isinstance(v, Box):
        return it.new_box(it.content(v).copy())
    return v


def fromkeys(it, a, k):
    """dict.fromkeys(list): first occurrences in order; kept as a list"""
    v = it.force(a[0])
    if isinstance(v, tuple) or isinstance(v, Box) and isinstance(it.content(v), HL):
        out = []
        for x in it.host_list(v):
            if not any(it.branch(it.eq(x, y)) for y in out):
                out.append(x)
        return it.new_box(HL(out))
    s = it.seq(v)
    if s is None:
        raise Unsupported("fromkeys")
    b = it.seq_to_list(s)
    c = it.content(b)
    ty, t = c.ty, c.t
    it.fresh_n += 1
    u = it.fresh_n
    n = z3.Int(f"unqn!{u}")
    arr = z3.Const(f"unq!{u}", z3.ArraySort(z3.IntSort(), ty.el.sort()))
    e = z3.Function(f"unqe!{u}", z3.IntSort(), z3.IntSort())  # index of first occurrence
    w = z3.Function(f"unqw!{u}", z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("ui uj")
    S = z3.Select
    N, A = ty.len(t), ty.arr(t)
    it.assume(z3.And(0 <= n, n <= N))
    it.assume(FORALL([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= e(i), e(i) < N, S(arr, i) == S(A, e(i)))), patterns=[S(arr, i), e(i)]))
    it.assume(FORALL([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(e(i) < e(j), S(arr, i) != S(arr, j))), patterns=[z3.MultiPattern(S(arr, i), S(arr, j)), z3.MultiPattern(e(i), e(j))]))
    it.assume(FORALL([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < e(i)), S(A, j) != S(arr, i)), patterns=[z3.MultiPattern(e(i), S(A, j))] if not z3.is_quantifier(A) else []))
    it.assume(FORALL([j], z3.Implies(z3.And(0 <= j, j < N), z3.And(0 <= w(j), w(j) < n, S(arr, w(j)) == S(A, j))), patterns=[w(j)] + ([S(A, j)] if not z3.is_quantifier(A) else [])))
    return it.new_box(SV(ty, ty.mk(n, arr)))


def gather(it, a, k):
    """coroutines are run one after the other (stated assumption)"""
    out = []
    for c in a:
        if k.get("return_exceptions"):
            try:
                out.append(it.await_(c))
            except PyRaise as e:
                out.append(e.exc)
        else:
            out.append(it.await_(c))
    return it.new_box(HL(out))


EXT = {
    "math.ceil": m_ceil, "math.floor": m_floor,
    "time.time": fresh_real("time"), "time.sleep": noop,
    "os.sync": noop,
    "datetime.timedelta": timedelta,
    "datetime.datetime": ExtClass("datetime"),
    "datetime.timezone": ExtClass("timezone"),
    "timezone.utc": TZ_UTC,
    "datetime.fromisoformat": date_fromisoformat,
    "datetime.now": now,
    "datetime.min": Sym(TDate, z3.RealVal(0)),
    "zoneinfo.ZoneInfo": opaque("tz_utc"),
    "tzlocal.get_localzone": opaque("tz_local"),
    "copy.deepcopy": deepcopy,
    "asyncio.gather": gather,
    "io.SEEK_SET": 0, "io.SEEK_CUR": 1, "io.SEEK_END": 2,
    "os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.SEEK_END": 2,
    "typing.cast": lambda it, a, k: a[1],
    "collections.defaultdict": lambda it, a, k: it.new_box(HD({}, a[0] if a else None)),
    "dict.fromkeys": fromkeys,
    "errno.EDEADLK": 35, "errno.EAGAIN": 11,
}
for _n in ("Dict", "Set", "List", "Optional", "Tuple", "Iterable", "IO", "Any", "Callable", "Literal", "TypedDict", "cast", "TypeAlias", "Generic", "TypeVar"):
    if "typing." + _n not in EXT:
        EXT["typing." + _n] = ExtClass(_n)
