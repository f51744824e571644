#!/opt/veriftools/pyvenv/bin/python
"""usage: vacuity.py [UNIT:QUAL ...]: tries hard to derive a contradiction from
the assumptions (axioms, preconditions, loop invariants, contracts of callees)
under which functions return, with all back ends. Nothing should be printed
but "ok" lines."""
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import concurrent.futures as cf  # noqa

import z3  # noqa
import pyvc.verify as V  # noqa
from contracts.registry import PROPS  # noqa


def one(f):
    mod, qual = f
    hold = {}

    def grab(vc, timeout, verbose):
        hold["pcs"] = list(vc.return_pcs)

    V.discharge_all = grab
    r = V.verify(mod, qual, budget=200, timeout=4, verbose=True)
    pcs = sorted(hold.get("pcs", []), key=len)
    bad = []
    for pc in ([pcs[0], pcs[-1]] if len(pcs) > 1 else pcs):
        o = V.Obligation("False", pc, z3.BoolVal(False), "", None)
        V.discharge1(o, 8.0, True)
        bad.append(o.status == "proved")
    return f, r.get("unsupported", "") and r["unsupported"][:100], bad


if __name__ == "__main__":
    fs = sorted({tuple(x) for p in PROPS.values() for x in p["functions"]})
    if sys.argv[1:]:
        fs = [tuple(a.split("=")) for a in sys.argv[1:]]
    with cf.ProcessPoolExecutor(8) as ex:
        for f, u, bad in ex.map(one, fs):
            # a contradiction on all sampled paths (one may be infeasible) is a fault
            print("CONTRADICTION" if bad and all(bad) else "ok" if not any(bad) else "infeasible path", *f, u or "", bad, flush=True)
