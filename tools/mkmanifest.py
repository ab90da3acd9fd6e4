"""python3-vt tools/mkmanifest.py : MANIFEST.json from the registered contracts"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import registry
reg = registry.load_all()
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
base = json.load(open(os.path.join(HERE, 'contracts', 'baseline.json')))['proved']
REASON = {'P26': 'the objects evaluate arbitrary Python text with eval() in a caller-supplied namespace and are built by PyYAML\'s reflective '
                 'constructors; a contract for that would have to quantify over programs and over PyYAML itself, and the engine represents '
                 'configuration objects natively (they are part of its trusted base), so it cannot discharge obligations about them'}
checks, na = [], []
for p in props:
    cs = [c for c in reg.values() if c.prop == p['id']]
    if not cs:
        na.append({'property': p['id'], 'reason': REASON.get(p['id'], 'no contract within reach of the verifier has been written for it')})
        continue
    pr = [c for c in cs if c.name in base]
    bd = [c for c in cs if c.bounded]
    und = [c for c in cs if not c.bounded and c.name not in base]
    note = ('%d contracts on the real functions are discharged for all inputs by symbolic VC generation from the current '
            'source with z3/cvc5' % len(pr))
    if bd:
        note += '; %d labelled bounded stand-ins (%s) are executed concretely and not counted as proved' % (
            len(bd), ', '.join(c.name.split('.')[1] for c in bd))
    if und:
        note += '; %d contracts are stated but left undecided by the verifier and only executed on sampled inputs (%s)' % (
            len(und), ', '.join(c.name.split('.')[1] for c in und))
    note += ('. Trusted: CPython executing the transformed source, the pyvc engine, the contracts of numpy/scipy primitives, '
             'floating point as real arithmetic.')
    checks.append({'property': p['id'],
                   'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'contract-based deductive verification: VCs from the current source of each function, '
                                'callees by contract, loops by invariant, discharged by z3/cvc5; counter-models replayed on the real code'
                   if pr else 'contracts on the real code, decided by a labelled bounded check only',
                   'level': 'proof' if pr else 'exploration', 'level_note': note})
m = {'version': 1, 'setup_cmd': "python3-vt -c 'import z3'", 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in /verif/contracts and are applied to the source read from /repo on every run.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
