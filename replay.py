"""Replay a recorded violation on the real code: /opt/venv/bin/python replay.py FILE"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.environ.get('VC_ROOT', '/repo')
sys.path.insert(0, ROOT)
import matplotlib
matplotlib.use('Agg')
from pyvc import registry, concrete
rec = json.load(open(sys.argv[1]))
c = registry.load_all()[rec['contract']]
st, g, info = concrete.run_trial(c, rec.get('seed', 1), ROOT, rec.get('inject'), 0)
print(st, info)
print('inputs', json.dumps(g.inputs, default=str)[:2000])
sys.exit(1 if st == 'fail' else 0)
