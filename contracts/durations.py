"""Intervals of schedules as they are configured (C13)."""
from types import SimpleNamespace

from .base import *  # noqa
from . import base

SS = z3.StringSort()
sv_ = z3.StringVal
UNITS = {"w": 7 * 24 * 3600, "d": 24 * 3600, "h": 3600, "m": 60, "s": 1, "": 1}
ISINT, VALUE = z3.Function("is_int_str", SS, z3.BoolSort()), z3.Function("int_of_str", SS, z3.IntSort())


def setup(u):
    m = base.setup(u)
    # a configured duration: a number and a unit
    m.ghosts.update({"number": TStr})
    num = lambda c: c.pre.g("number")
    for x, secs in UNITS.items():
        u.contract("schedule:parse_duration#" + (x or "none"), [("duration", lambda it, x=x: Sym(TStr, z3.Concat(it.get_ghost("number"), sv_(x)) if x else it.get_ghost("number")))], ret=TDelta,
                   requires=[("a number", lambda c: And(z3.Length(num(c)) > 0, *[Not(z3.Contains(num(c), sv_(y))) for y in UNITS if y]))],
                   ensures=[("so many of the unit", lambda c, secs=secs: c.res == z3.ToReal(VALUE(num(c)) * secs))],
                   raises=[("ValueError", lambda c: Not(ISINT(num(c))), [])])
    u.ns = {**getattr(u, "ns", {}), **locals()}
    return m
