"""Shared model: revisions, repositories and schedules."""
import z3

from pyvc.interp import *  # noqa
from pyvc.ty import *  # noqa
from pyvc import lib

S = z3.Select
R = lambda n: TObj(n)


def And(*a):
    a = [x for x in a if x is not True]
    return z3.And(*a) if a else z3.BoolVal(True)


def Or(*a):
    return z3.Or(*a)


def Not(a):
    return z3.Not(a)


def Imp(a, b):
    return z3.Implies(a, b)


_n = [0]


def bound(name, sort):
    _n[0] += 1
    return z3.Const(f"{name}?{_n[0]}", sort)


from pyvc.quant import FORALL


def FA(vs, b, pats=None):
    return FORALL(vs, b, patterns=pats)


def _FA_old(vs, b, pats=None):
    """quantifier; patterns which the solver would refuse are dropped"""
    ps = []
    for p in pats or []:
        if not bad_pattern(p):
            ps.append(p)
    return z3.ForAll(vs, b, patterns=ps) if ps else z3.ForAll(vs, b)


def bad_pattern(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return True
        todo.extend(x.children())
    return False


def forall_int(fn, name="q", pats=None):
    """pats: function of the variable giving patterns"""
    k = bound(name, z3.IntSort())
    b = fn(k)
    if pats:
        return FA([k], b, pats(k))
    return z3.ForAll([k], b)


def forall(sort, fn, name="q", pats=None):
    k = bound(name, sort)
    b = fn(k)
    if pats:
        return FA([k], b, pats(k))
    return z3.ForAll([k], b)


def exists(sort, fn, name="q"):
    k = bound(name, sort)
    return z3.Exists([k], fn(k))


def exists_int(fn, name="q"):
    return exists(z3.IntSort(), fn, name)


TStats = TRec("Stats", {"bytes_written": (TInt), "duration": (TReal), "ceph-verification": TStr})
TSpec = TRec("Spec", {"interval": TDelta, "keep": TInt})
TSched = TDict(TStr, TSpec)
LRev = TList(R("Revision"))
SetStr = TSet(TStr)


def setup(u):
    m = u.model
    TTrust = m.enum("Trust")
    m.fields.update({
        ("Revision", "repository"): R("Repository"),
        ("Revision", "uuid"): TStr,
        ("Revision", "timestamp"): TDate,
        ("Revision", "stats"): TStats,
        ("Revision", "tags"): SetStr,
        ("Revision", "orig_tags"): SetStr,
        ("Revision", "trust"): TTrust,
        ("Revision", "server"): TStr,
        ("Repository", "schedule"): R("Schedule"),
        ("Repository", "history"): LRev,
        ("Repository", "report_ids"): TList(TStr),
        ("Repository", "_by_uuid"): TDict(TStr, R("Revision")),
        ("Schedule", "schedule"): TSched,
    })
    m.stubs["utils:now"] = lib.now
    m.stubs["utils:min_date"] = lambda it, a, k: Sym(TDate, z3.RealVal(0))
    return m


class Hist:
    """readable access to a repository's history in a state"""

    def __init__(self, view, repo):
        self.v, self.repo = view, repo
        t = view.f("Repository", "history", repo)
        self.n, self.arr = LRev.len(t), LRev.arr(t)

    def at(self, k):
        return S(self.arr, k)

    def f(self, field, k):
        return self.v.f("Revision", field, S(self.arr, k))

    def complete(self, k):
        return TStats.has(self.f("stats", k), "duration")

    def rng(self, k):
        return z3.And(0 <= k, k < self.n)


def MAN():
    return z3.StringVal("manual:")


def is_manual(t):
    return z3.PrefixOf(MAN(), t)
