#!/usr/bin/env python3
"""plant and examine bugs.
seed.py add SPEC.py      make seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
seed.py test ID...       confirm: applies, builds, tests pass, demo 0 on the clean tree and nonzero with the patch
seed.py check ID...      run the property's check against a patched copy
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

V = "/verif"
DEMO_SH = '''#!/bin/bash
d=$(dirname "$(realpath "$0")")
export PYTHONPATH=$PWD/src:$PYTHONPATH PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python
[ -x $py ] || py=python3
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
cd "$t" && timeout 250 $py "$d/demo.py" "$t"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="seedcopy-", dir="/tmp")
    sh(f"cp -a /repo {d}/repo")
    return d


def add(spec):
    s = runpy.run_path(spec)
    d = copy()
    r = f"{d}/repo"
    for f, old, new in s["EDITS"]:
        p = f"{r}/src/backy/{f}"
        t = open(p).read()
        n = s.get("COUNT", {}).get(f, 1)
        assert t.count(old) >= 1, (f, old)
        assert t.count(old) == n, (f, "occurrences", t.count(old))
        open(p, "w").write(t.replace(old, new))
    out = f"{V}/seeded/{s['ID']}"
    os.makedirs(out, exist_ok=True)
    diff = sh(f"git -C {r} diff").stdout
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.py", "w").write(s["DEMO"])
    open(f"{out}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    return s["ID"]


def patched(i):
    d = copy()
    r = f"{d}/repo"
    x = sh(f"git -C {r} apply {V}/seeded/{i}/patch.diff")
    if x.returncode:
        print(i, "DOES NOT APPLY", x.stderr)
    return d, r


def demo(i, r):
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    return sh(f"{V}/seeded/{i}/demo.sh", cwd=r, env=e)


def run_tests(d, r):
    x = sh(f"""sed 's#/repo#{r}#g; s#/opt/vp/report#{d}/report#g; s#/opt/vp/env.sh#{d}/env.sh#; s#/opt/vp/meta\\b#{d}/meta#g' /opt/vp/test.sh > {d}/test.sh
sed 's#/repo#{r}#g; s#/opt/vp/pycache#{d}/pycache#g' /opt/vp/env.sh > {d}/env.sh; bash {d}/test.sh {d}/out.json""")
    return set(json.load(open(f"{d}/out.json"))["passed"])


_clean = None


def clean():
    """what passes in an unchanged copy (some tests know their path)"""
    global _clean
    if _clean is None:
        d = copy()
        _clean = run_tests(d, f"{d}/repo")
        shutil.rmtree(d)
    return _clean


def test(i, tests=True):
    d, r = patched(i)
    try:
        a = demo(i, "/repo")
        b = demo(i, r)
        print(i, "clean:", a.returncode, "patched:", b.returncode, "" if a.returncode == 0 and b.returncode else "BAD " + (a.stdout + a.stderr)[-400:], (b.stdout + b.stderr).strip().split("\n")[-1][:200])
        if tests:
            o = run_tests(d, r)
            bad = sorted(clean() - o)
            print(i, "tests passed:", len(o), "BROKEN:" if bad else "ok", bad[:5])
    finally:
        shutil.rmtree(d)


def check(i, prop=None, tier="quick"):
    d, r = patched(i)
    try:
        p = prop or json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        x = sh(f"BACKY_REPO={r} VERIF_SEED=1 {V}/check.py {p} --tier {tier}")
        l = [l for l in x.stdout.split("\n") if l.startswith("VIOLATION")]
        how = "CAUGHT" if x.returncode == 1 and l else "MISSED" if x.returncode == 0 else "ERROR"
        print(i, p, how, "(no input)" if l and all("no-failing" in y for y in l) else "", x.stdout.strip().split("\n")[0][:260] if how != "ERROR" else x.stderr[-500:])
        return how
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "add":
        for s in ids:
            i = add(s)
            test(i, False)
    else:
        ids = ids or sorted(os.listdir(f"{V}/seeded"))
        import concurrent.futures as cf
        if cmd == "test":
            clean()
            with cf.ThreadPoolExecutor(1) as ex:
                list(ex.map(test, ids))
        else:
            with cf.ThreadPoolExecutor(3) as ex:
                list(ex.map(check, ids))
