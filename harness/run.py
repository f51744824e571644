"""usage: run.py PROPERTY --seed N --tier quick|thorough [--budget S] [--only scenario:index] [--out FILE]"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import h

MODULES = {
    "C01": ["chunked"], "C02": ["chunked"], "C03": ["chunked"], "C04": ["diff"],
    "C05": ["rbdbackup"], "C06": ["restore"], "C07": ["housekeeping"], "C08": ["housekeeping"],
    "C09": ["rbdbackup"], "C10": ["rbdbackup"], "C11": ["snapshots"], "C12": ["revisions"],
    "C13": ["revisions"], "C14": ["specs"], "C15": ["revisions"], "C16": ["safefile"], "C17": ["locks"],
    "C18": ["revisions"], "C19": ["api"], "C20": ["peers"], "C21": ["jobs"], "C22": ["purge"],
    "C23": ["exitcodes"], "C24": ["compare"],
}


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--budget", type=float, default=None)
    p.add_argument("--only")
    p.add_argument("--out")
    a = p.parse_args()
    budget = a.budget or (60 if a.tier == "quick" else 600)
    only = None
    if a.only:
        n, i = a.only.rsplit(":", 1)
        only = (n, int(i))
    import logging

    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
    h.setup()
    try:
        for m in MODULES[a.prop]:
            importlib.import_module(m)
        out = h.run(a.prop, a.seed, a.tier, budget, only)
    except BaseException as e:
        import traceback

        out = {"evaluations": 0, "nontrivial": 0, "scenarios": {}, "failures": [], "incompatible": [{"scenario": "-", "index": 0, "kind": "incompatible", "what": f"{type(e).__name__}: {e}", "steps": [], "traceback": traceback.format_exc()}], "samples": [], "skipped_for_time": 0}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, indent=1, default=str)
    for d in out["failures"] + out["incompatible"]:
        print(d["kind"].upper(), a.prop, f"{d['scenario']}:{d['index']}", d["what"])
        if a.only:
            print("\n".join(d["steps"]))
            print(d["traceback"])
    print(f"{a.prop}: {out['evaluations']} cases, {len(out['failures'])} violations, {len(out['incompatible'])} not applicable", {k: (v["cases"], v["wall_s"]) for k, v in out["scenarios"].items()})
    return 1 if out["failures"] else 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
