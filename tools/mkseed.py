"""mkseed.py ID PROP FILE OLD NEW DEMO NEEDS BREAKS (via python import): writes seeded/ID/."""
import os, subprocess, shutil, json, sys
W = '/tmp/sd'


def fresh():
    if os.path.isdir(W):
        shutil.rmtree(W)
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])


def seed(id, prop, edits, demo, needs, breaks, tests=''):
    d = '/verif/seeded/' + id
    fresh()
    for f, old, new, *k in edits:
        p = W + '/' + f
        s = open(p).read()
        assert s.count(old) == 1 or k, (id, f, s.count(old))
        parts = s.split(old)
        k = k[0] + 1 if k else 1
        open(p, 'w').write(old.join(parts[:k]) + new + old.join(parts[k:]))
    diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n' + demo.strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    ok = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    bad = subprocess.run(['bash', d + '/demo.sh'], cwd=W, capture_output=True, text=True)
    t = ''
    if tests:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '4'] + tests.split(),
                           cwd=W, capture_output=True, text=True, env=dict(os.environ, MPLBACKEND='Agg', OMP_NUM_THREADS='1'))
        t = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
    print(id, prop, 'repo rc', ok.returncode, 'patched rc', bad.returncode, bad.stderr.strip().splitlines()[-1:], t)
    if ok.returncode:
        print(ok.stderr[-800:])
    shutil.rmtree(W)
