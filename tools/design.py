#!/usr/bin/env python3
"""writes the tables of DESIGN.md (between the marks) from the registry and the reference"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.registry import PROPS
ref = json.load(open(f"{V}/contracts/reference.json"))
title = {p["id"]: p["title"] for p in map(json.loads, open(f"{V}/properties.jsonl"))}
out = []
for p, d in sorted(PROPS.items()):
    fs, n, by = d["functions"], 0, {}
    for u, q in fs:
        n += ref[f"{u}|{q}"]["obligations"]
        by.setdefault(u.split(".")[1], []).append("`" + re.sub(r"^.*:", "", q) + "`")
    out += [f"### {p} {title[p]}", "", f"Proved: {len(fs)} functions, {n} obligations: " + "; ".join(f"{', '.join(x)} (contracts/{u}.py)" for u, x in by.items()) + ".", ""]
    if d["trusted"]:
        out += ["Trusted: " + "; ".join(d["trusted"]) + ".", ""]
    if d["assumptions"]:
        out += ["Assumed: " + "; ".join(d["assumptions"]) + ".", ""]
    out += ["Bounded, never counted as proved: " + "; ".join(d["bounded"]) + f" ({d['explanation']}).", ""]
    b = [os.path.basename(x) for x in sorted(glob.glob(f"{V}/seeded/{p.lower()}-*"))]
    if b:
        out += ["Planted: " + ", ".join(b) + ".", ""]
u = {tuple(f) for d in PROPS.values() for f in d["functions"]}
tot = sum(ref[f"{a}|{b}"]["obligations"] for a, b in u)
t = open(f"{V}/DESIGN.md").read()
t = re.sub(r"(<!-- table -->\n).*(<!-- end -->)", lambda m: m[1] + f"In all {len(u)} functions (with {sum('#' in b for _, b in u)} further shapes of a specification counted) with {tot} obligations, all discharged on the current tree.\n\n" + "\n".join(out) + "\n" + m[2], t, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(t)
print(len(u), tot)
