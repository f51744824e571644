"""verifies one function: python -m pyvc.run1 MODULE QUAL BUDGET TIMEOUT OUT"""
import json
import resource
import sys

from .verify import verify

if __name__ == "__main__":
    mod, qual, budget, timeout, out = sys.argv[1:6]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    r = verify(mod, qual, budget=float(budget), timeout=float(timeout))
    with open(out, "w") as f:
        json.dump(r, f, default=str)
