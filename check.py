#!/usr/bin/env python3
"""Decide one property of /repo: python3-vt check.py PROPERTY [--tier quick|thorough]

exit 0: every obligation accepted (or undecided and stated as such in the
evidence) and no failing input; exit 1: VIOLATION line printed."""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.environ.get('VC_ROOT', '/repo')
PYVT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
PYREAL = '/opt/venv/bin/python'


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONPATH=HERE, PYTHONHASHSEED='0')
    return e


def run_sym(name, tmp, tmo, budget, tag='', retry=False):
    out = os.path.join(tmp, 'sym-%s%s.json' % (name, tag))
    e = env()
    if retry:
        e['VC_RETRY'] = '1'
    try:
        p = subprocess.run([PYVT, '-m', 'pyvc.runsym', name, ROOT, str(tmo), str(budget), out],
                           cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=budget + 60)
        tail = p.stdout.decode(errors='replace')[-600:]
    except subprocess.TimeoutExpired:
        tail = 'timeout'
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:
        return {'contract': name, 'status': 'unsupported', 'reason': 'verifier gave no answer: ' + tail,
                'obligations': [], 'paths': 0, 'covers': {}, 'functions': [], 'stats': {}, 'shims': [],
                'assumptions': [], 'wall_s': 0, 'crash': True}


def run_con(spec, tmp, seed, trials, budget, tag, wall):
    sp = os.path.join(tmp, 'spec-%s.json' % tag)
    out = os.path.join(tmp, 'con-%s.json' % tag)
    work = os.path.join(tmp, 'w-%s' % tag)
    os.makedirs(work, exist_ok=True)
    with open(sp, 'w') as f:
        json.dump(spec, f)
    tail = ''
    try:
        p = subprocess.run([PYREAL, '-m', 'pyvc.runcon', ROOT, out, str(seed), str(trials), str(budget), sp],
                           cwd=work, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=wall)
        tail = p.stdout.decode(errors='replace')[-900:]
    except subprocess.TimeoutExpired:
        tail = 'timeout'
    try:
        with open(out) as f:
            res = json.load(f)
    except Exception:
        res = []
    return {r['contract']: r for r in res}, tail


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from pyvc import registry
    reg = registry.load_all()
    cs = [c for c in reg.values() if c.prop == a.property and (a.tier == 'thorough' or c.tier == 'quick')]
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    if not cs:
        print('no contract for', a.property)
        return 2
    thorough = a.tier == 'thorough'
    tmo = 30000 if thorough else 8000
    budget = 700 if thorough else 240
    trials = 2000 if thorough else 400
    cbudget = 90 if thorough else 12
    base = {}
    bp = os.path.join(HERE, 'contracts', 'baseline.json')
    if os.path.exists(bp):
        base = json.load(open(bp))
    known = {}
    kp = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kp):
        known = json.load(open(kp))
    tmp = tempfile.mkdtemp(prefix='vc-%s-' % a.property)
    try:
        return decide(a, cs, tmp, seed, tmo, budget, trials, cbudget, base, known, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(a, cs, tmp, seed, tmo, budget, trials, cbudget, base, known, t0):
    sym, con = {}, {}
    errs = []
    conlist = [c for c in cs if not c.no_concrete]
    ngroups = min(8, max(1, len(conlist)))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {}
        for gi in range(ngroups):
            grp = [{'name': c.name} for c in conlist[gi::ngroups]]
            if grp:
                fs[ex.submit(run_con, grp, tmp, seed, trials, cbudget, 'g%d' % gi, 60 + 5 * cbudget * len(grp))] = ('con', grp)
        for c in sorted([c for c in cs if not c.bounded], key=lambda c: -(c.budget_s or 0)):
            fs[ex.submit(run_sym, c.name, tmp, tmo, max(budget, c.budget_s or 0))] = ('sym', c)
        for f in cf.as_completed(fs):
            k, w = fs[f]
            if k == 'con':
                r, tail = f.result()
                con.update(r)
                for s in w:
                    if s['name'] not in r:
                        errs.append('bounded run of %s gave no result: %s' % (s['name'], tail[-400:]))
            else:
                sym[w.name] = f.result()
        # an obligation proved on the unchanged tree but open now: once more, with more time
        retry = []
        for c in cs:
            r = sym.get(c.name)
            if r is None or c.name not in base.get('proved', []):
                continue
            if r.get('crash') or r['status'] == 'budget' or any(o['status'] == 'unknown' for o in r['obligations']):
                retry.append(c)
        # a failing input is already in hand: no need to try the proof again
        if any(not match_known(known, a.property, n, f) for n, r in con.items() for f in r['fails']):
            retry = []
        # within the overall time of a check (900 s)
        left = (1.0 if tmo <= 8000 else 10.0) * 800 - (time.time() - t0)
        if left < 60:
            retry = []
        for c, r in zip(retry, ex.map(lambda c: run_sym(c.name, tmp, tmo * 4, min(left - 60, max(c.budget_s or 0, budget) * 1.4), '-r', True), retry)):
            if r['obligations']:
                sym[c.name] = r
        # replay counter-models on the real code
        spec = []
        for n, r in sym.items():
            ms = []
            for o in r['obligations']:
                if o['status'] == 'refuted' and o.get('model') and o['model'] not in ms:
                    ms.append(o['model'])
            if ms:
                spec.append({'name': n, 'models': ms[:12], 'budget': cbudget})
        rep = {}
        if spec:
            rep, tail = run_con(spec, tmp, seed + 7919, trials * 3, cbudget * 3, 'replay', 240)
    fails = []      # (contract, fail record)
    for src in (con, rep):
        for n, r in src.items():
            for f in r['fails']:
                fails.append((n, f))
            if r['error'] and not r['fails']:
                errs.append('%s: %s' % (n, r['error'][-700:]))
    # --------------------------------------------------------------- verdicts
    nob = ndis = 0
    backends = {}
    perc = []
    lost = []
    undecided = []
    funcs, shims, assum = set(), set(), set()
    solver_s = 0.0
    for c in cs:
        if c.bounded:
            continue
        r = sym[c.name]
        ob = r['obligations']
        ok = r['status'] == 'ok' and ob and all(o['status'] == 'proved' for o in ob) \
            and all(r['covers'].values())
        nob += len(ob)
        ndis += sum(o['status'] == 'proved' for o in ob)
        for o in ob:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
        solver_s += r.get('stats', {}).get('solver_s', 0) + sum(o['s'] for o in ob)
        if ok:
            funcs |= set(r['functions'])
        shims |= set(r['shims'])
        assum |= set(r['assumptions'])
        bad = [o for o in ob if o['status'] != 'proved']
        perc.append({'contract': c.name, 'target': c.target, 'verdict': 'proved' if ok else 'not proved',
                     'status': r['status'], 'reason': r.get('reason', '')[:300], 'obligations': len(ob),
                     'discharged': len(ob) - len(bad), 'paths': r['paths'], 'wall_s': r['wall_s'],
                     'vacuity_covers': r['covers'],
                     'open': [{k: str(o.get(k))[:200] for k in ('name', 'status', 'info', 'goal')} for o in bad[:4]]})
        if not ok:
            undecided.append(c.name)
            # the contract was discharged on the unchanged tree: a failed (not merely
            # unreachable) obligation is reported
            if c.name in base.get('proved', []) and bad and r['status'] == 'ok':
                lost.append((c.name, bad[0]))
    nconc = sum(r['trials'] for r in con.values()) + sum(r['trials'] for r in rep.values())
    ndist = sum(r['distinct'] for r in con.values()) + sum(r['distinct'] for r in rep.values())
    if a.v:
        for p in perc:
            print(json.dumps(p)[:900])
        for n, r in con.items():
            print('  con', n, r['trials'], 'disc', r['discarded'], 'fails', len(r['fails']), r['wall_s'], r['error'])
        for e in errs:
            print('  ERR', e)
    # ------------------------------------------------------------ known findings
    out_lines = []
    viol = []
    seen_known = set()
    for n, f in fails:
        k = match_known(known, a.property, n, f)
        if k:
            seen_known.add(k)
        else:
            viol.append((n, f))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (a.property, k))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    nviol = 0
    if viol or lost:
        os.makedirs(rdir, exist_ok=True)
    done = set()
    for n, f in viol:
        if n in done:
            continue
        done.add(n)
        nviol += 1
        p = os.path.join(rdir, '%s.json' % n)
        sr = sym.get(n)
        with open(p, 'w') as fh:
            json.dump({'property': a.property, 'contract': n, 'failed_obligation': f['obligation'], 'info': f['info'],
                       'inputs': f['inputs'], 'source': f['source'], 'seed': f['seed'],
                       'verifier': None if sr is None else [o for o in sr['obligations'] if o['status'] != 'proved'][:5],
                       'replay_cmd': 'cd %s && %s replay.py %s' % (HERE, PYREAL, p), 'inject': f['inject']},
                      fh, indent=1, default=str)
        print('contract %s: obligation "%s": %s' % (n, f['obligation'], f['info'][:300]))
        print('VIOLATION property=%s replay=%s' % (a.property, p))
    if not viol:
        for n, o in lost:
            # every failing input of this contract is a listed finding: nothing new
            if any(m == n for m, _ in fails):
                continue
            nviol += 1
            p = os.path.join(rdir, '%s.json' % n)
            with open(p, 'w') as fh:
                json.dump({'property': a.property, 'contract': n, 'failed_obligation': o['name'], 'verifier': o},
                          fh, indent=1, default=str)
            print('contract %s: obligation "%s" no longer discharged (%s)' % (n, o['name'], o['status']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.property, p))
    for e in errs:
        print('NOTE', e.replace('\n', ' | ')[:600])
    for n in undecided:
        print('UNDECIDED contract %s: %s' % (n, (sym[n].get('reason') or 'obligation open')[:160].replace('\n', ' ')))
    # ------------------------------------------------------------------ evidence
    man = {}
    try:
        for q in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            man[q['property']] = q['level']
    except Exception:
        pass
    level = man.get(a.property, 'proof')
    ev = {
        'property': a.property, 'tier': a.tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': 'cd /verif && python3-vt check.py %s --tier %s' % (a.property, a.tier),
            'trusted_base': [
                'CPython 3.12 executing the transformed statements of the /repo source (pyvc/loader.py states what is rewritten)',
                'pyvc symbolic scalars/arrays and loop rule (pyvc/core.py, arr.py, loops.py, terms.py)',
                'z3 (python bindings), cvc5 as fallback',
                'contracts of the numpy primitives used (pyvc/symnp.py): ' + ', '.join(sorted(shims)),
            ],
            'backends': backends, 'solver_s': round(solver_s, 2),
            'functions_under_contract': sorted({t for c in cs if not c.bounded for t in c.target}),
            'functions_executed_in_discharged_contracts': sorted(funcs),
            'contracts': perc,
            'undecided_contracts': undecided,
            'bounded_stand_ins': [{'contract': c.name, 'target': c.target, 'bound': c.note,
                                   'executions': con.get(c.name, {}).get('trials', 0)} for c in cs if c.bounded],
            'evaluations': nconc, 'distinct_nontrivial': ndist,
            'rule': 'concrete executions of the contracts on the real code: counter-models of refuted obligations plus '
                    'inputs sampled from VERIF_SEED; non-trivial = inputs satisfy every precondition, at least one '
                    'obligation was evaluated, and the input differs from all earlier ones of its contract. These are '
                    'replays and bounded stand-ins, never counted as discharged obligations',
            'samples': [s for r in con.values() for s in r['samples'][:1]][:8] or ['none'],
            'per_contract_executions': {n: r['trials'] for n, r in con.items()},
        },
        'assumptions': sorted(assum) + [
            'floating point is treated as exact real arithmetic (decimal value of literals); machine integers as mathematical integers',
            'numpy/scipy primitives behave as their contracts in pyvc/symnp.py state',
            'inputs are numpy arrays/scalars of the declared kind, without NaN or infinity',
        ],
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.property + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    if nviol:
        return 1
    if nob == 0 and nconc == 0:
        print('no obligation was generated and nothing ran')
        return 2
    print('%s: %d/%d obligations discharged over %d contracts (%d undecided), %d concrete executions, %.1f s' % (
        a.property, ndis, nob, len(perc), len(undecided), nconc, time.time() - t0))
    return 0


def match_known(known, prop, n, f):
    for k in known.get('findings', []):
        if k['property'] == prop and k['contract'] == n and k['obligation'] == f['obligation']:
            w = k.get('when')
            if w:
                try:
                    if not eval(w, {'__builtins__': {}}, {'i': f['inputs'], 'info': f['info'], 'len': len, 'any': any, 'all': all}):
                        continue
                except Exception:
                    continue
            return '%s: %s' % (k['contract'], k['what'])
    return None


if __name__ == '__main__':
    sys.exit(main())
