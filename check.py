#!/opt/veriftools/pyvenv/bin/python
"""usage: check.py PROPERTY [--tier quick|thorough] | --update-reference

Decides a property: verifies the functions under contract against /repo's
current source, and runs the replay harness against the real code (as the
bounded part of the check, and to find a failing input if a proof fails).
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from contracts.registry import COMMON_TRUST, LONG, PROPS

PY = "/opt/veriftools/pyvenv/bin/python"
REF = os.path.join(HERE, "contracts", "reference.json")


def load_ref():
    try:
        with open(REF) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {}


def prove(mod, qual, budget, timeout, tmp):
    """one function in a process of its own; never raises"""
    out = tempfile.mktemp(dir=tmp, suffix=".json")
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    t = time.time()
    try:
        p = subprocess.run([PY, "-m", "pyvc.run1", mod, qual, str(budget), str(timeout), out], env=env, cwd=HERE, timeout=budget * 1.5 + 60, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        with open(out) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        why = "time limit"
    except (OSError, ValueError):
        why = "verifier ended: " + p.stderr.decode(errors="replace")[-300:]
    return {"obligations": [], "unsupported": why, "functions": {}, "uses": [], "notes": [], "wall": time.time() - t}


def state(r):
    """proved / failed / undecided"""
    if r.get("unsupported") or not r["obligations"]:
        return "undecided"
    st = {o["status"] for o in r["obligations"]}
    if st == {"proved"}:
        return "proved"
    if st & {"refuted", "unknown"}:
        return "failed"
    return "undecided"


def harness(prop, seed, tier, budget, tmp):
    out = tempfile.mktemp(dir=tmp, suffix=".json")
    t = time.time()
    try:
        subprocess.run([os.path.join(HERE, "hrun.sh"), prop, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "--out", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=budget * 2 + 200)
        with open(out) as f:
            r = json.load(f)
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        r = {"evaluations": 0, "nontrivial": 0, "scenarios": {}, "failures": [], "incompatible": [{"scenario": "-", "index": 0, "what": f"harness: {type(e).__name__}"}], "samples": [], "skipped_for_time": 0}
    r["seed"], r["tier"], r["wall"] = seed, tier, round(time.time() - t, 1)
    return r


def replay_file(prop, name, data):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{name}.json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--only", help="with --update-reference: functions whose name contains this")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--update-reference", action="store_true")
    ap.add_argument("--proofs-only", action="store_true")
    a = ap.parse_args()
    if a.update_reference:
        return update_reference(a.prop, a.only)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    tmp = tempfile.mkdtemp(prefix="backyvc-")
    try:
        return decide(a.prop, tier, a.seed, tmp, a.proofs_only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def update_reference(only, name=None):
    """records the functions as verified on the unchanged tree"""
    ref = load_ref()
    units = sorted({u for p, d in PROPS.items() for u in d["functions"] if (not only or p == only) and (not name or name in "|".join(u))})
    tmp = tempfile.mkdtemp(prefix="backyvc-")
    bad = 0
    with cf.ThreadPoolExecutor(5) as ex:
        for (m, q), r in zip(units, ex.map(lambda u: prove(*u, 600 if u in LONG else 300, 30, tmp), units)):
            s = state(r)
            print(s, m, q, len(r["obligations"]), f"{r['wall']:.1f}s", r.get("unsupported") or "")
            bad += s != "proved"
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print("    ", o["status"], o["name"], o["pos"])
            if s == "proved":
                ref[f"{m}|{q}"] = {"functions": r["functions"], "obligations": len(r["obligations"]), "wall": r["wall"]}
    if not only and not name:
        ref = {k: v for k, v in ref.items() if tuple(k.split("|")) in units}
    with open(REF, "w") as f:
        json.dump(ref, f, indent=1, sort_keys=True)
        f.write("\n")
    shutil.rmtree(tmp, ignore_errors=True)
    return int(bad > 0)


def decide(prop, tier, seed, tmp, proofs_only=False):
    t0 = time.time()
    spec = PROPS[prop]
    units = spec["functions"]
    ref = load_ref()
    quick = tier == "quick"
    fast, slow = (220, 8) if quick else (300, 20), (230, 25)
    long = {u: 430 if quick else 800 for u in units if u in LONG}
    ex = cf.ThreadPoolExecutor(6)
    # the harness runs at the same time as the proofs
    hf = None if proofs_only else ex.submit(harness, prop, seed, tier, 45 if quick else 420, tmp)
    pf = [ex.submit(prove, m, q, long.get((m, q), fast[0]), fast[1], tmp) for m, q in units]
    proofs = [f.result() for f in pf]
    again = [i for i, r in enumerate(proofs) if state(r) != "proved" and not r.get("unsupported") and units[i] not in long]
    for i, r in zip(again, ex.map(lambda i: prove(*units[i], slow[0], slow[1], tmp), again)):
        proofs[i] = r
    runs = [hf.result()] if hf else []
    failed, undecided = [], []
    for (m, q), r in zip(units, proofs):
        s = state(r)
        base = ref.get(f"{m}|{q}", {}).get("functions")
        changed = base is None or base != r["functions"]
        if s == "failed" and changed:
            failed.append((m, q, r))
        elif s != "proved":
            undecided.append((m, q, r, "changed" if changed else "unchanged"))
    # a failed or undecided proof: look harder for a failing input
    seeds = [seed + 1000 * k for k in range(1, 5)]
    if not proofs_only and (failed or any(c == "changed" for *_, c in undecided)) and not any(r["failures"] for r in runs):
        deadline = min(time.time() + 240, t0 + 740)
        for s in seeds:
            if time.time() > deadline:
                break
            r = harness(prop, s, "thorough", 60, tmp)
            runs.append(r)
            if r["failures"]:
                break
    lines = []
    found = [(r, f) for r in runs for f in r["failures"]]
    seen = set()
    for r, f in found:
        if f["scenario"] in seen:
            continue
        seen.add(f["scenario"])
        cmd = f"{HERE}/hrun.sh {prop} --seed {r['seed']} --tier {r['tier']} --only {f['scenario']}:{f['index']}"
        p = replay_file(prop, f["scenario"], {"property": prop, "what": f["what"], "replay_command": cmd, "case": f, "failed_obligations": [{"function": q, "obligations": [o for o in x["obligations"] if o["status"] != "proved"][:10]} for _, q, x in failed]})
        lines.append(f"VIOLATION property={prop} replay={p}")
        print(f"{prop}: {f['scenario']}:{f['index']}: {f['what']}")
    if failed and not found:
        for m, q, x in failed:
            obls = [o for o in x["obligations"] if o["status"] not in ("proved", "skipped")]
            p = replay_file(prop, q.replace(":", "-"), {"property": prop, "function": q, "source": "/repo/src/backy", "failed_obligation": obls[0]["name"], "at": obls[0]["pos"], "verifier_output": obls[:20], "note": "no failing input was found by the replay harness"})
            print(f"{prop}: {q}: obligation failed: {obls[0]['name']} ({obls[0]['status']}) at {obls[0]['pos']}")
            lines.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")
            break
    for m, q, r, c in undecided:
        print(f"{prop}: {q}: not decided by proof on this tree ({c} source): {r.get('unsupported') or 'solver gave no answer'}"[:400])
    evidence(prop, spec, tier, seed, proofs, runs, failed, undecided, lines, time.time() - t0)
    ob = sum(len(r["obligations"]) for r in proofs)
    ok = sum(o["status"] == "proved" for r in proofs for o in r["obligations"])
    print(f"{prop}: {sum(state(r) == 'proved' for r in proofs)}/{len(units)} functions proved, {ok}/{ob} obligations discharged; {sum(r['evaluations'] for r in runs)} bounded cases, {len(found)} failing; {time.time() - t0:.1f}s")
    for l in lines:
        print(l)
    return 1 if lines else 0


def evidence(prop, spec, tier, seed, proofs, runs, failed, undecided, lines, wall):
    obls = [o for r in proofs for o in r["obligations"]]
    by = {}
    for o in obls:
        if o["status"] == "proved":
            by[o["backend"] or "simplifier"] = by.get(o["backend"] or "simplifier", 0) + 1
    ev = sum(r["evaluations"] for r in runs)
    nt = sum(r["nontrivial"] for r in runs)
    cov = {
        "functions_under_contract": [{"function": q, "module": m, "state": state(r), "obligations": len(r["obligations"]), "discharged": sum(o["status"] == "proved" for o in r["obligations"]), "paths": r.get("paths"), "inlined": sorted(x for x in r["functions"] if x != q and not x.startswith("= ")), "callee_contracts_used": r.get("uses"), "solver_s": round(sum(o["time"] for o in r["obligations"]), 2), "wall_s": r["wall"], **({"undecided": r["unsupported"][:300]} if r.get("unsupported") else {})} for (m, q), r in zip(spec["functions"], proofs)],
        "obligations": len(obls),
        "discharged": sum(o["status"] == "proved" for o in obls),
        "discharged_by": by,
        "solver_s": round(sum(o["time"] for o in obls), 2),
        "checker_cmd": f"{HERE}/check.py {prop} --tier {tier}",
        "trusted_base": COMMON_TRUST + spec.get("trusted", []),
        "bounded": {"functions": spec.get("bounded", []), "label": "bounded stand-in, not counted as proved", "cases": ev, "nontrivial_cases": nt, "scenarios": {n: s for r in runs for n, s in r["scenarios"].items()}, "not_applicable": [x["what"] for r in runs for x in r["incompatible"]][:5]},
        "evaluations": ev,
        "distinct_nontrivial": nt,
        "rule": "a case is one seeded random scenario run against the real code and compared with a reference; it is non-trivial if it reached the situation the scenario is about (set by the scenario); scenarios and counts are listed under bounded",
        "samples": [s for r in runs for s in r["samples"]][:6] or ["no case was run"],
        "explanation": spec["explanation"],
        "undecided_functions": [q for _, q, _, _ in undecided],
        "failed_functions": [q for _, q, _ in failed],
    }
    e = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": spec.get("assumptions", []) + sorted({n for r in proofs for n in r.get("notes", [])}), "wall_s": round(wall, 1), "violations": len(lines)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
