"""/opt/venv/bin/python -m pyvc.runcon ROOT OUT SEED TRIALS BUDGET JSON([{name, models}])"""
import json
import os
import resource
import sys


def main():
    root, out, seed, trials, budget, spec = sys.argv[1:7]
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.path.insert(0, root)
    import matplotlib
    matplotlib.use('Agg')
    from pyvc import registry, concrete
    import falco
    if not os.path.abspath(falco.__file__).startswith(os.path.abspath(root)):
        raise SystemExit('falco imported from %s' % falco.__file__)
    reg = registry.load_all()
    spec = json.load(open(spec))
    res = []
    for s in spec:
        res.append(concrete.run_concrete(reg[s['name']], root, seed=int(seed), trials=int(trials),
                                         budget_s=float(s.get('budget', budget)), models=s.get('models', [])))
        with open(out, 'w') as f:
            json.dump(res, f, default=str)


main()
