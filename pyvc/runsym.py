"""python3-vt -m pyvc.runsym CONTRACT ROOT TIMEOUT_MS BUDGET_S OUT"""
import json
import resource
import sys
import os


def main():
    name, root, tmo, budget, out = sys.argv[1:6]
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(20000)
    from pyvc import registry, harness
    c = registry.load_all()[name]
    rec = harness.run_symbolic(c, root, timeout_ms=int(c.timeout_ms or tmo) if not os.environ.get('VC_RETRY') else int(tmo),
                               budget_s=float(budget))
    with open(out, 'w') as f:
        json.dump(rec, f, default=str)


main()
