"""Revision specifiers (C14)."""
import re as _re
from types import SimpleNamespace

from .hist import *  # noqa
from . import hist

SPLIT = r"(\(|\)|,|&|\.\.)"
META = ["(", ")", ",", "&", ".."]
STRIP = z3.Function("str_strip", z3.StringSort(), z3.StringSort())
LOWER = z3.Function("str_lower", z3.StringSort(), z3.StringSort())
sv_ = z3.StringVal
LR = LRev


def lit_prefix(s):
    """(literal, rest) of a string term which starts with a literal"""
    if z3.is_string_value(s):
        return s.as_string(), None
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and s.num_args() == 2 and z3.is_string_value(s.arg(0)):
        return s.arg(0).as_string(), s.arg(1)
    return None, None


def starts(p, s):
    """whether s starts with the literal p"""
    l, r = lit_prefix(s)
    if l is not None and (len(l) >= len(p) or r is None or not p.startswith(l)):
        return z3.BoolVal(l.startswith(p))
    return z3.PrefixOf(sv_(p), s)


def is_lit(s, p):
    l, r = lit_prefix(s)
    if l is not None and not p.startswith(l):
        return z3.BoolVal(False)
    return s == sv_(p)


PLAIN = z3.Function("is_plain_spec", z3.StringSort(), z3.BoolSort())
PLAINTAG = z3.Function("is_plain_tag", z3.StringSort(), z3.BoolSort())


def plain(s):
    """a single specifier; of the form tag:x: x is a plain tag"""
    if lit_prefix(s)[0] == "tag:" and lit_prefix(s)[1] is not None:
        return PLAINTAG(lit_prefix(s)[1])
    return PLAIN(s) if not z3.is_string_value(s) else plain_means(s)


def plain_means(s):
    """a single specifier: no operators, nothing to strip"""
    if z3.is_string_value(s):
        x = s.as_string()
        return z3.BoolVal(bool(x) and x.strip() == x and not any(m in x for m in META))
    return And(*[Not(z3.Contains(s, sv_(x))) for x in META], STRIP(s) == s, s != sv_(""))


def is_plain(it, x):
    x = it.force(x)
    if isinstance(x, Sym):
        return x.ty == TStr
    return isinstance(x, str) and not any(m in x for m in META)


def re_split(it, a, k):
    pat, s = it.force(a[0]), it.force(a[1])
    if isinstance(s, str) and isinstance(pat, str):
        return it.new_box(HL(list(_re.split(pat, s))))
    if pat != SPLIT:
        raise Unsupported(f"re.split {pat!r}")
    t = it.encode(s, TStr)
    if it.branch(Or(*[z3.Contains(t, sv_(x)) for x in META])):
        raise Unsupported("splitting a symbolic expression")
    return it.new_box(HL([s]))


def re_fullmatch(it, a, k):
    pat, s = it.force(a[0]), it.force(a[1])
    if pat != r"(\w+)\(.+\)":
        raise Unsupported(f"re.fullmatch {pat!r}")
    if isinstance(s, str) and not _re.fullmatch(pat, s):
        return None
    t = it.encode(s, TStr)
    if it.branch(z3.Contains(t, sv_("("))):
        raise Unsupported("functions in a symbolic expression")
    return None


def enumeration(c, res, src):
    """the functions which enumerate a filtered list"""
    it = c.it
    n, arr = z3.simplify(LR.len(res)), z3.simplify(LR.arr(res))
    if arr.eq(z3.simplify(LR.arr(src))):
        return (lambda k: k), (lambda k: k)
    for e in it.filter_cache.values():
        if e[0].eq(n) and e[1].eq(arr):
            return e[2], e[3]
    it.fresh_n += 1
    e = z3.Function(f"enum_e!{it.fresh_n}", z3.IntSort(), z3.IntSort())
    i = z3.Function(f"enum_i!{it.fresh_n}", z3.IntSort(), z3.IntSort())
    it.filter_cache["x", it.fresh_n] = (n, arr, e, i)
    return e, i


def filtered(c, res, src, pred):
    """res consists of the elements of the list with the property, in order"""
    e, inv = enumeration(c, res, src)
    n, N = LR.len(res), LR.len(src)
    at, src_at = lambda k: S(LR.arr(res), k), lambda k: S(LR.arr(src), k)
    i, j = bound("i", z3.IntSort()), bound("j", z3.IntSort())
    return And(n >= 0, n <= N,
               FA([i], Imp(And(0 <= i, i < n), And(0 <= e(i), e(i) < N, at(i) == src_at(e(i)), pred(src_at(e(i))), inv(e(i)) == i)), [at(i), e(i)]),
               FA([i, j], Imp(And(0 <= i, i < j, j < n), e(i) < e(j)), None if e(i) is i else [z3.MultiPattern(e(i), e(j))]),
               FA([j], Imp(And(0 <= j, j < N, pred(src_at(j))), And(0 <= inv(j), inv(j) < n, e(inv(j)) == j)), [inv(j), src_at(j)]))


def setup(u):
    m = hist.setup(u)
    N = SimpleNamespace(**u.ns)
    m.ext["re.split"] = re_split
    m.ext["re.fullmatch"] = re_fullmatch
    me = lambda c: c.a("self")
    H = lambda c: c.pre.f("Repository", "history", me(c))
    by = lambda c: c.pre.f("Repository", "_by_uuid", me(c))
    TBY = N.TBY

    # --------------------------------------------------------------- find
    def find_cases(c, s):
        """(condition, revision) in order of precedence"""
        h = Hist(c.pre, me(c))
        n = lib.INTOF(s)
        return [(And(lib.ISINT(s), 0 <= n, n < h.n), h.at(h.n - 1 - n)), (S(TBY.dom(by(c)), s), S(TBY.val(by(c)), s)),
                (Or(s == sv_("last"), s == sv_("latest")), h.at(h.n - 1)), (s == sv_("first"), h.at(0))]

    def found(c):
        s = STRIP(c.a("spec"))
        h = Hist(c.pre, me(c))
        neg = And(lib.ISINT(s), lib.INTOF(s) < 0)
        return And(s != sv_(""), h.n > 0, Not(neg), Or(*[k for k, _ in find_cases(c, s)]))

    def find_res(c):
        s = STRIP(c.a("spec"))
        r = None
        for k, v in reversed(find_cases(c, s)):
            r = v if r is None else z3.If(k, v, r)
        return c.res == r

    nofn = ("no function", lambda c: Not(z3.Contains(STRIP(c.a("spec")), sv_("("))))
    u.contract("repository:Repository.find", [("self", R("Repository")), ("spec", TStr)], ret=R("Revision"),
               requires=[nofn, ("history well-formed", lambda c: Hist(c.pre, me(c)).n >= 0)],
               ensures=[("counted from the newest, by UUID, or first/last/latest", find_res), ("the revision exists", found)],
               raises=[("KeyError", lambda c: Not(found(c)), [])])

    # ----------------------------------------------------- find_revisions
    def trust_index(s):
        t = LOWER(s)
        return z3.If(t == sv_("trusted"), z3.IntVal(0), z3.If(t == sv_("distrusted"), z3.IntVal(1), z3.If(t == sv_("verified"), z3.IntVal(2), z3.IntVal(-1))))

    def rest(s, p):
        if lit_prefix(s)[0] == p and lit_prefix(s)[1] is not None:
            return lit_prefix(s)[1]
        return z3.SubString(s, len(p), z3.Length(s) - len(p))

    def leaf(c):
        return leaf_of(c.a("spec"), lambda n, r: c.pre.f("Revision", n, r))

    def leaf_of(s, f):
        """predicates selected by the specifier: [(condition, predicate)]"""
        return [(starts("server:", s), lambda r: f("server", r) == rest(s, "server:")),
                (starts("tag:", s), lambda r: S(f("tags", r), rest(s, "tag:"))),
                (starts("trust:", s), lambda r: f("trust", r) == trust_index(rest(s, "trust:"))),
                (is_lit(s, "all"), lambda r: z3.BoolVal(True)),
                (is_lit(s, "clean"), lambda r: TStats.has(f("stats", r), "duration")),
                (is_lit(s, "local"), lambda r: f("server", r) == sv_("")),
                (is_lit(s, "remote"), lambda r: f("server", r) != sv_(""))]

    def single(c):
        return And(*[Not(k) for k, _ in leaf(c)])

    def fr_filter(c):
        def pred(r):
            t = z3.BoolVal(False)
            for k, p in reversed(leaf(c)):
                t = z3.If(k, p(r), t)
            return t
        return Imp(Not(single(c)), filtered(c, c.res, H(c), pred))

    def fr_single(c):
        s = c.a("spec")
        x = bound("x", z3.IntSort())
        cc = Ctx2(c, S(LR.arr(c.res), 0))
        return Imp(single(c), And(LR.len(c.res) == 1, find_res(cc), found(cc)))

    class Ctx2:
        def __init__(self, c, res):
            self.c, self.res, self.pre = c, res, c.pre

        def a(self, n):
            return self.c.a(n)

    bad_trust = lambda c: And(starts("trust:", c.a("spec")), trust_index(rest(c.a("spec"), "trust:")) < 0)
    u.contract("repository:Repository.find_revisions", [("self", R("Repository")), ("spec", TStr)], ret=LR, accepts=lambda it, v: is_plain(it, v["spec"]),
               requires=[("a single specifier", lambda c: plain(c.a("spec"))), ("history well-formed", lambda c: Hist(c.pre, me(c)).n >= 0)],
               before=lambda it, c, v: it.assume(PLAIN(c.a("spec")) == plain_means(c.a("spec"))),
               ensures=[("exactly the revisions selected, in order", fr_filter), ("a single revision otherwise", fr_single)],
               raises=[("KeyError", lambda c: And(single(c), Not(found(c))), []), ("ValueError", bad_trust, [])])
    # Expressions: each operator applied to revision lists. Longer expressions
    # are evaluated by replacing the innermost group by its list.
    X, Y = z3.Const("arg_X", LR.sort()), z3.Const("arg_Y", LR.sort())
    rA, rB = z3.Const("arg_A", z3.IntSort()), z3.Const("arg_B", z3.IntSort())
    lst = lambda it, t: it.new_box(SV(LR, t))
    obj = lambda it, r: Obj("Revision", r)
    n, at = LR.len, lambda t, k: S(LR.arr(t), k)

    def in_(t, r):
        return exists_int(lambda k: And(0 <= k, k < n(t), at(t, k) == r))

    def shape(name, tokens, ensures, requires=(), raises=()):
        q = "repository:Repository.find_revisions#" + name
        u.contract(q, [("self", R("Repository")), ("spec", lambda it: it.new_box(HL([t(it) if callable(t) else t for t in tokens])))], ret=LR,
                   requires=[("lists", lambda c: And(n(X) >= 0, n(Y) >= 0, Hist(c.pre, me(c)).n >= 0))] + list(requires), ensures=ensures, raises=raises)

    x_, y_ = (lambda it: lst(it, X)), (lambda it: lst(it, Y))
    a_, b_ = (lambda it: obj(it, rA)), (lambda it: obj(it, rB))

    def members(pred):
        r = bound("r", z3.IntSort())
        return lambda c: FA([r], in_(c.res, r) == pred(c, r))

    def nodup(c):
        i, j = bound("i", z3.IntSort()), bound("j", z3.IntSort())
        return FA([i, j], Imp(And(0 <= i, i < j, j < n(c.res)), at(c.res, i) != at(c.res, j)), [z3.MultiPattern(at(c.res, i), at(c.res, j))])

    def appearance(src_n, src_at):
        """in the order of their first appearance"""
        def f(c):
            i, j = bound("i", z3.IntSort()), bound("j", z3.IntSort())
            k, l = bound("k", z3.IntSort()), bound("l", z3.IntSort())
            return FA([i, j], Imp(And(0 <= i, i < j, j < n(c.res)), z3.Exists([k], And(0 <= k, k < src_n, src_at(k) == at(c.res, i), FA([l], Imp(And(0 <= l, l <= k), src_at(l) != at(c.res, j)))))), [z3.MultiPattern(at(c.res, i), at(c.res, j))])
        return f

    def appearance2(c):
        i, j, k, l = [bound(v, z3.IntSort()) for v in "ijkl"]
        r, q = at(c.res, i), at(c.res, j)
        upto = lambda t: FA([l], Imp(And(0 <= l, l <= k), at(t, l) != q), [at(t, l)])
        return FA([i, j], Imp(And(0 <= i, i < j, j < n(c.res)), Or(
            z3.Exists([k], And(0 <= k, k < n(X), at(X, k) == r, upto(X))),
            z3.Exists([k], And(0 <= k, k < n(Y), at(Y, k) == r, upto(Y), Not(in_(X, q)))))), [z3.MultiPattern(r, q)])

    shape("union", [x_, ",", y_], [("the members of both", members(lambda c, r: Or(in_(X, r), in_(Y, r)))), ("no duplicates", nodup), ("in the order of first appearance", appearance2)])
    shape("intersection", [x_, "&", y_], [("the members common to both", members(lambda c, r: And(in_(X, r), in_(Y, r)))), ("no duplicates", nodup), ("in the order of first appearance", appearance(n(X), lambda k: at(X, k)))])
    shape("group", ["(", x_, ")"], [("the list itself", lambda c: c.res == X)])
    first = lambda t, i: (lambda c: And(n(c.res) == 1, n(t) > 0, at(c.res, 0) == at(t, 0 if i == 0 else n(t) - 1)))
    for f, i in (("first", 0), ("last", -1)):
        def one(c, i=i):
            return And(n(X) > 0, c.res == c.res, at(c.res, 0) == (at(X, 0) if i == 0 else at(X, n(X) - 1)), n(c.res) == 1)
        shape(f, [f, "(", x_, ")"], [("its element", one)], raises=[("IndexError", lambda c: n(X) == 0, [])])
    shape("not", ["not", "(", x_, ")"], [("the other revisions of the history, in order", lambda c: filtered(c, c.res, H(c), lambda r: Not(in_(X, r))))])
    shape("reverse", ["reverse", "(", x_, ")"], [("the list backwards", lambda c: And(n(c.res) == n(X), forall_int(lambda k: Imp(And(0 <= k, k < n(X)), at(c.res, k) == at(X, n(X) - 1 - k)), pats=lambda k: [at(c.res, k)])))])

    # ranges
    ISO, DATE = z3.Function("is_iso_date", z3.StringSort(), z3.BoolSort()), z3.Function("iso_date", z3.StringSort(), z3.RealSort())
    srt = ("sorted by time", lambda c: N.in_order(c.pre, me(c)))
    def slice_of(lo, hi):
        """all revisions between two positions, including both"""
        def f(c):
            i, j = bound("i", z3.IntSort()), bound("j", z3.IntSort())
            h = Hist(c.pre, me(c))
            a, b = lo(c, h, i), hi(c, h, j)
            l, g = z3.If(i < j, i, j), z3.If(i < j, j, i)
            return FA([i, j], Imp(And(a, b), And(n(c.res) == g - l + 1, forall_int(lambda k: Imp(And(0 <= k, k < n(c.res)), at(c.res, k) == h.at(l + k)), pats=lambda k: [at(c.res, k)]))))
        return f

    is_at = lambda r: (lambda c, h, i: And(h.rng(i), h.at(i) == r, forall_int(lambda k: Imp(And(0 <= k, k < i), h.at(k) != r), pats=lambda k: [h.at(k)])))
    begin = lambda c, h, i: And(i == 0, h.n > 0)
    end = lambda c, h, i: And(i == h.n - 1, h.n > 0)
    wf = ("history well-formed", lambda c: N.wf_hist(c.pre, me(c)))
    ends = [("the index holds no revision named first or last", lambda c: And(*[Not(S(TBY.dom(by(c)), sv_(x))) for x in ("first", "last")]))]
    strings = [("first and last are no numbers and no dates", lambda c: And(*[And(Not(ISO(sv_(x))), Not(lib.ISINT(sv_(x))), STRIP(sv_(x)) == sv_(x)) for x in ("first", "last")]))]
    missing = lambda *rs: (lambda c: Or(Hist(c.pre, me(c)).n == 0, *[Not(in_(H(c), r)) for r in rs]))
    ERR = lambda *rs: [("ValueError", missing(*rs), []), ("KeyError", missing(*rs), [])]
    shape("range", [a_, "..", b_], [("all revisions between, including both", slice_of(is_at(rA), is_at(rB))), ("both exist", lambda c: And(in_(H(c), rA), in_(H(c), rB)))], [wf], ERR(rA, rB))
    shape("from", [a_, ".."], [("all revisions from it to the newest", slice_of(is_at(rA), end)), ("it exists", lambda c: in_(H(c), rA))], [wf, srt] + ends + strings, ERR(rA))
    shape("upto", ["..", b_], [("all revisions from the oldest to it", slice_of(begin, is_at(rB))), ("it exists", lambda c: in_(H(c), rB))], [wf, srt] + ends + strings, ERR(rB))
    # precedence: parentheses, then unions, then intersections
    Z = z3.Const("arg_Z", LR.sort())
    z_ = lambda it: lst(it, Z)
    wz = [("lists (third)", lambda c: n(Z) >= 0)]
    shape("union-of-intersection", [x_, ",", y_, "&", z_], [("members", members(lambda c, r: Or(in_(X, r), And(in_(Y, r), in_(Z, r))))), ("no duplicates", nodup)], wz)
    shape("intersection-in-union", [x_, "&", y_, ",", z_], [("members", members(lambda c, r: Or(And(in_(X, r), in_(Y, r)), in_(Z, r)))), ("no duplicates", nodup)], wz)
    shape("group-in-intersection", ["(", x_, ",", y_, ")", "&", z_], [("members", members(lambda c, r: And(Or(in_(X, r), in_(Y, r)), in_(Z, r)))), ("no duplicates", nodup)], wz)
    shape("not-in-intersection", [x_, "&", "not", "(", y_, ")"], [("members", members(lambda c, r: And(in_(X, r), in_(H(c), r), Not(in_(Y, r))))), ("no duplicates", nodup)])

    # ------------------------------------------------------ dates
    OR = TOpt(TReal)

    def by_date(c):
        h, d = Hist(c.pre, me(c)), DATE(c.a("spec"))
        v = OR.the(c.res)
        i = bound("i", z3.IntSort())
        t = lambda k: h.f("timestamp", k)
        return And(OR.is_none(c.res) == Not(ISO(c.a("spec"))),
                   Imp(Not(OR.is_none(c.res)), And(
                       FA([i], Imp(h.rng(i), And((t(i) < d) == (z3.ToReal(i) < v), (t(i) == d) == (z3.ToReal(i) == v), (t(i) > d) == (z3.ToReal(i) > v))), [h.at(i)]),
                       v >= z3.Q(-1, 2), v <= z3.ToReal(h.n) - z3.Q(1, 2), z3.IsInt(v * 2))))

    def twice(c):
        h, d = Hist(c.pre, me(c)), DATE(c.a("spec"))
        i, j = bound("i", z3.IntSort()), bound("j", z3.IntSort())
        return z3.Exists([i, j], And(h.rng(i), h.rng(j), i != j, h.f("timestamp", i) == d, h.f("timestamp", j) == d))

    NXT = z3.Function("next_element", z3.IntSort(), z3.IntSort())

    def successors(it, c, vals):
        """names the successor of each element (a definition, for the solver)"""
        h = Hist(c.pre, me(c))
        k = bound("k", z3.IntSort())
        it.assume(FA([k], NXT(k) == h.at(k + 1), [h.at(k)]))
        it.assume(NXT(z3.IntVal(-1)) == h.at(z3.IntVal(0)))

    u.contract("repository:Repository.index_by_date", [("self", R("Repository")), ("spec", TStr)], ret=OR, requires=[srt, ("history", lambda c: Hist(c.pre, me(c)).n >= 0)],
               ensures=[("revisions before, at and after the date lie before, at and after the index", by_date)],
               raises=[("AssertionError", lambda c: And(ISO(c.a("spec")), twice(c)), [])], before=successors)
    sa, sb = z3.String("arg_SA"), z3.String("arg_SB")

    def between(c):
        h = Hist(c.pre, me(c))
        a, b = DATE(sa), DATE(sb)
        lo, hi = z3.If(a < b, a, b), z3.If(a < b, b, a)
        i, k = bound("i", z3.IntSort()), bound("k", z3.IntSort())
        t = lambda r: c.pre.f("Revision", "timestamp", r)
        off = bound("off", z3.IntSort())
        return And(FA([k], Imp(And(0 <= k, k < n(c.res)), And(lo <= t(at(c.res, k)), t(at(c.res, k)) <= hi)), [at(c.res, k)]),
                   FA([i], Imp(And(h.rng(i), lo <= t(h.at(i)), t(h.at(i)) <= hi), in_(c.res, h.at(i))), [h.at(i)]))

    def ordered(c):
        i, j = bound("i", z3.IntSort()), bound("j", z3.IntSort())
        t = lambda r: c.pre.f("Revision", "timestamp", r)
        return FA([i, j], Imp(And(0 <= i, i < j, j < n(c.res)), t(at(c.res, i)) <= t(at(c.res, j))), [z3.MultiPattern(at(c.res, i), at(c.res, j))])

    dates = [srt, ("dates", lambda c: And(ISO(sa), ISO(sb)))]
    shape("dates", [lambda it: Sym(TStr, sa), "..", lambda it: Sym(TStr, sb)], [("exactly the revisions between the dates, including both", between), ("oldest first", ordered)], dates + [("no operators", lambda c: And(sa != sv_(".."), sa != sv_(","), sa != sv_("("), sa != sv_(")"), sa != sv_("&"), sb != sv_(".."), sb != sv_(","), sb != sv_("("), sb != sv_(")"), sb != sv_("&")))],
          raises=[("AssertionError", None, [])])
    u.ns.update(locals())
    return m
