#!/opt/veriftools/pyvenv/bin/python
"""writes MANIFEST.json from the registry"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from contracts.registry import PROPS

checks = []
for p, d in PROPS.items():
    n = len(d["functions"])
    if n:
        tech = "contract-based deductive verification of the real functions (pyvc: VC generation from /repo's source on every run, z3/cvc5), plus bounded replay of the parts out of reach"
        note = f"{n} functions proved against their contracts for all inputs: {', '.join(q.split(':')[1] for _, q in d['functions'])}. Bounded only: {'; '.join(d['bounded']) or 'nothing'}. Trusted: the VC generator and library contracts listed in the evidence."
    else:
        tech = "bounded stand-in: the real functions run against a reference model (contracts not yet in reach)"
        note = f"Bounded, not proved: {'; '.join(d['bounded'])}."
    checks.append({"property": p, "quick_cmd": f"./check.py {p}", "thorough_cmd": f"./check.py {p} --tier thorough", "technique": tech, "level": d["level"], "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [], "notes": "see DESIGN.md; level proof means that every listed function is proved, the rest of the property is checked by bounded replay and labelled so in the evidence"}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
