"""python3-vt tools/mkbaseline.py [PROP...] : record which contracts are discharged on the unchanged tree
(from the evidence of the last runs)"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bp = os.path.join(HERE, 'contracts', 'baseline.json')
old = json.load(open(bp))['proved'] if os.path.exists(bp) else []
keep = set(old)
for f in sorted(os.listdir(os.path.join(HERE, 'evidence'))):
    if not f.endswith('.json') or (sys.argv[1:] and f[:-5] not in sys.argv[1:]):
        continue
    ev = json.load(open(os.path.join(HERE, 'evidence', f)))
    keep = {k for k in keep if not k.startswith(ev['property'] + '.')}
    for c in ev['coverage'].get('contracts', []):
        if c['verdict'] == 'proved':
            keep.add(c['contract'])
json.dump({'proved': sorted(keep)}, open(bp, 'w'), indent=0)
print(len(keep), 'proved')
