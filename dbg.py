"""python3-vt dbg.py CONTRACT : run one contract symbolically with tracebacks"""
import sys, json, os, traceback
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from pyvc import registry, harness as H, core as C
import pyvc.core
os.environ['VC_DEBUG'] = '1'
reg = registry.load_all()
for n in sys.argv[1:]:
    for k, c in reg.items():
        if n in k and not c.bounded:
            r = H.run_symbolic(c, os.environ.get('VC_ROOT', '/repo'), budget_s=300)
            obs = r.pop('obligations')
            print(k, r['status'], r.get('reason', '')[:1500], r.get('where', ''), 'paths', r['paths'], 'ab', r['aborted'], r['covers'], r['wall_s'], r['stats'])
            seen = set()
            for o in obs:
                if o['status'] != 'proved' and o['name'] not in seen:
                    seen.add(o['name'])
                    print('   ', {q: str(v)[:700] for q, v in o.items() if v is not None})
            print('   proved', sum(o['status'] == 'proved' for o in obs), '/', len(obs))
