#!/opt/veriftools/pyvenv/bin/python
"""usage: mutate.py N [PROPERTY|QUAL ...]: strength of the contracts. Makes N
small changes to each function under contract in scratch copies of the sources
and reports those with which everything is still proved (survivors)."""
import ast
import concurrent.futures as cf
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts.registry import PROPS  # noqa

SRC = "/repo/src/backy"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def sites(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare):
            out.append(("cmp", n))
        elif isinstance(n, ast.BoolOp):
            out.append(("bool", n))
        elif isinstance(n, (ast.If, ast.While)):
            out.append(("neg", n))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            out.append(("const", n))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(("flip", n))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append(("arith", n))
        if hasattr(n, "body") and isinstance(n.body, list) and n is not fn or n is fn:
            for lst in ("body", "orelse", "finalbody"):
                b = getattr(n, lst, None)
                if isinstance(b, list):
                    for i, s in enumerate(b):
                        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Assert)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            if isinstance(s, ast.Expr) and "log" in ast.unparse(s)[:12] or isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                                continue
                            out.append(("drop", (n, lst, i)))
    return out


def mutate(fn, k):
    kind, n = sites(fn)[k]
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
        return f"{n.lineno}: {ast.unparse(n)}"
    if kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return f"{n.lineno}: {ast.unparse(n)}"
    if kind == "neg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
        return f"{n.lineno}: {ast.unparse(n.test)}"
    if kind == "const":
        n.value += 1
        return f"{n.lineno}: constant {n.value}"
    if kind == "flip":
        n.value = not n.value
        return f"{n.lineno}: {n.value}"
    if kind == "arith":
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
        return f"{n.lineno}: {ast.unparse(n)}"
    m, lst, i = n
    s = getattr(m, lst)[i]
    getattr(m, lst)[i] = ast.copy_location(ast.Pass(), s)
    return f"{s.lineno}: without {ast.unparse(s)[:80]}"


def find(tree, path):
    for p in path:
        for n in tree.body:
            if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == p:
                tree = n
                break
        else:
            return None
    return tree


def run(job):
    units, q, k = job
    mod, path = q.split(":")
    rel = mod.replace(".", "/") + ".py"
    if not os.path.exists(f"{SRC}/{rel}"):
        rel = mod.replace(".", "/") + "/__init__.py"
    tree = ast.parse(open(f"{SRC}/{rel}").read())
    fn = find(tree, path.split("."))
    what = mutate(fn, k)
    d = tempfile.mkdtemp(prefix="mutant-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", f"{d}/src", ignore=shutil.ignore_patterns("__pycache__", "tests", "*.egg-info"))
        with open(f"{d}/src/backy/{rel}", "w") as f:
            f.write(ast.unparse(ast.fix_missing_locations(tree)))
        env = dict(os.environ, BACKY_REPO=d, PYTHONPATH=HERE, PYVC_JOBS="1", PYTHONDONTWRITEBYTECODE="1")
        res = []
        for u, full in units:
            p = subprocess.run([sys.executable, "-m", "pyvc.run1", u, full, "90", "3", f"{d}/o.json"], env=env, cwd=HERE, capture_output=True, text=True)
            import json
            try:
                r = json.load(open(f"{d}/o.json"))
            except (OSError, ValueError):
                res.append("error")
                continue
            st = {o["status"] for o in r["obligations"]}
            res.append("undecided" if r.get("unsupported") else "survived" if st <= {"proved"} else "killed")
        s = "killed" if "killed" in res else "survived" if set(res) == {"survived"} else "undecided"
        return q, what, s
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    n, names = int(sys.argv[1]), sys.argv[2:]
    by = {}
    for p, d in PROPS.items():
        for u, q in d["functions"]:
            if not names or p in names or q in names:
                by.setdefault(q.split("#")[0], set()).add((u, q))
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    jobs = []
    for q, us in sorted(by.items()):
        mod, path = q.split(":")
        f = f"{SRC}/{mod.replace('.', '/')}"
        f = f + ".py" if os.path.exists(f + ".py") else f + "/__init__.py"
        fn = find(ast.parse(open(f).read()), path.split("."))
        if fn is None:
            continue
        ks = list(range(len(sites(fn))))
        rnd.shuffle(ks)
        jobs += [(sorted(us), q, k) for k in ks[:n]]
    tot = {}
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for q, what, s in ex.map(run, jobs):
            tot[s] = tot.get(s, 0) + 1
            if s != "killed":
                print(s, q, what, flush=True)
    print(tot)
