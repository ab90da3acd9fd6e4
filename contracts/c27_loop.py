"""Wavefront-sensing-and-control bookkeeping (P27)."""
from pyvc.registry import contract, bounded

W = 'falco.wfsc.'


def region(g, ny, nx):
    corr, score = g.array('corr', (ny, nx), 'bool'), g.array('score', (ny, nx), 'bool')
    g.assume(g.le(1, g.np.sum(score)))
    g.assume(g.le(1, g.np.sum(corr)))
    return corr, score


def world(g, N, modes, nitr):
    """an optical model structure, an estimate, and empty histories"""
    ny, nx = g.int('Neta', 2, 3), g.int('Nxi', 2, 3)
    corr, score = region(g, ny, nx)
    npix = g.np.sum(corr)
    m = len(modes)
    sic = g.array('scoreInCorr', (npix,), 'bool')
    g.assume(g.le(1, g.np.sum(sic)))
    sw = g.array('sbp_weights', (N, 1), 'real', lo=0)
    mp = g.params(Nsbp=N, sbp_weights=sw, Nitr=nitr, Fend=g.obj(
        Neta=ny, Nxi=nx, corr=g.obj(maskBool=corr, Npix=npix), score=g.obj(maskBool=score), scoreInCorr=sic),
        jac=g.obj(Nmode=m, sbp_inds=g.np.array(list(modes)), zerns=g.np.array([1])))
    z = g.np.zeros
    out = g.obj(**{k: z(nitr + 1) for k in ('InormHist', 'IrawCorrHist', 'IrawScoreHist', 'thput')},
                **{k: z(nitr) for k in ('IestCorrHist', 'IestScoreHist', 'IincoCorrHist', 'IincoScoreHist', 'log10regHist', 'serialDate')},
                **{'normInt%s%s' % (a, b): z((nitr, N if a == 'Meas' else m)) for a in ('Meas', 'Mod', 'Unmod') for b in ('Corr', 'Score')})
    return mp, out, npix, corr, score


def estimate(g, mp, npix, m, tag=''):
    ny, nx = mp.Fend.Neta, mp.Fend.Nxi
    return (g.array('E' + tag, (npix, m), 'complex'), g.array('I' + tag, (npix, m), 'real'),
            g.array('Im' + tag, (ny, nx), 'real'), g.array('ims' + tag, (ny, nx, 1, mp.Nsbp), 'real'))


def check_intensities(g, mp, out, k, E, I, Im, ims, modes, raw=True):
    corr, score = mp.Fend.corr.maskBool, mp.Fend.score.maskBool
    sc = mp.Fend.scoreInCorr
    mean = g.np.mean
    if raw:
        g.ensure_eq('measured intensity, correction region', g.at(out.IrawCorrHist, k), mean(Im[corr]))
        g.ensure_eq('measured intensity, scoring region', g.at(out.IrawScoreHist, k), mean(Im[score]))
        g.ensure_eq('the contrast is that of the correction region', g.at(out.InormHist, k), mean(Im[corr]))
    for s in range(mp.Nsbp):
        one = ims[:, :, 0, s]
        g.ensure_eq('measured intensity of a sub-band', g.at(out.normIntMeasCorr, k, s), mean(one[corr]))
        g.ensure_eq('measured intensity of a sub-band, scoring', g.at(out.normIntMeasScore, k, s), mean(one[score]))
    for q in range(len(modes)):
        a = abs(E[:, q]) ** 2
        g.ensure_eq('coherent intensity of a mode', g.at(out.normIntModCorr, k, q), mean(a))
        g.ensure_eq('coherent intensity of a mode, scoring', g.at(out.normIntModScore, k, q), mean(a[sc]))
        g.ensure_eq('incoherent intensity of a mode', g.at(out.normIntUnmodCorr, k, q), mean(I[:, q]))
        g.ensure_eq('incoherent intensity of a mode, scoring', g.at(out.normIntUnmodScore, k, q), mean(I[:, q][sc]))
    sw = [g.at(mp.sbp_weights, s, 0) for s in range(mp.Nsbp)]
    tc = sum([sw[s] * abs(E[:, q]) ** 2 for q, s in enumerate(modes)], 0)
    ti = sum([sw[s] * I[:, q] for q, s in enumerate(modes)], 0)
    for t, h, hc in ((tc, out.IestScoreHist, out.IestCorrHist), (ti, out.IincoScoreHist, out.IincoCorrHist)):
        full = g.np.zeros((mp.Fend.Neta, mp.Fend.Nxi))
        full[corr] = t
        g.ensure_eq('intensity of the band', g.at(hc, k), mean(full[corr]))
        g.ensure_eq('intensity of the band, scoring', g.at(h, k), mean(full[score]))


@contract('P27', W + 'store_intensities')
def recorded_intensities(g):
    N, modes = g.choice('modes', [(1, [0]), (2, [0, 1]), (2, [0, 1, 1])])
    nitr = 3
    mp, out, npix, corr, score = world(g, N, modes, nitr)
    E, I, Im, ims = estimate(g, mp, npix, len(modes))
    keep = [g.snapshot(x) for x in (E, I, Im, ims)]
    ev = g.obj(Eest=E, IincoEst=I, Im=Im, imageArray=ims)
    k = g.int('iteration', 0, 2)
    g.assume(g.le(k, 2))
    g.fn(W + 'store_intensities')(mp, out, ev, k)
    for n, x in zip(('Eest', 'IincoEst', 'Im', 'imageArray'), keep):
        g.ensure_arr('the estimate is untouched', getattr(ev, n), x)
    check_intensities(g, mp, out, k, *keep, modes)
    o = (k + 1) % 3
    for n in ('IrawCorrHist', 'IrawScoreHist', 'InormHist', 'IestCorrHist', 'IincoScoreHist'):
        g.ensure_eq('other iterations untouched', g.at(getattr(out, n), o), 0)
    g.cover('end')


@contract('P27', W + 'loop', trials=80)
def iterations(g):
    """every iteration: the mirrors of its schedule entry, the command before it, its normalisation, estimate and control;
    the Jacobian is that of the last re-linearisation, whatever the controller does with its copy"""
    kind, nitr, sched, relin, model, ws = g.choice('case', [
        ('plannedEFC', 1, [(1, 2)], [], False, False), ('plannedEFC', 3, [(1, 2), (2,), (1, 8)], [2], False, True),
        ('plannedefc', 2, [(1,), (1,)], [1], True, False), ('gridsearchEFC', 2, None, [], False, False), ('ad-efc', 2, None, [], False, False)])
    n, npix = g.int('Nact', 1, 2), g.int('Npix', 1, 2)
    ny, nx = g.int('Neta', 1, 2), g.int('Nxi', 1, 2)
    corr, score = region(g, ny, nx)
    V1, V2, V8 = g.array('V1', (n, n), 'real'), g.array('V2', (n, n), 'real'), g.array('V8', (n,), 'real')
    nele = {d: g.int('Nele%d' % d, 0, 3) for d in range(1, 10)}
    z = g.np.zeros
    mp = g.params(Nitr=nitr, controller=kind, runLabel='run', flagSVD=False, flagSim=True, flagSaveWS=ws, flagPlot=False, estimator='perfect',
                  relinItrVec=g.np.array(relin), jac=g.obj(zerns=g.np.array([1])), dm_ind=g.np.array([1, 2]),
                  dm_ind_sched=[g.np.array(list(s)) for s in sched or []], eval=g.obj(Rsens=z(0), indsZnoll=z(0)),
                  ctrl=g.obj(flagUseModel=model), path=g.obj(brief='brief', ws='ws'),
                  Fend=g.obj(corr=g.obj(maskBool=corr), score=g.obj(maskBool=score)))
    for d in range(1, 10):
        setattr(mp, 'dm%d' % d, g.obj(Nele=nele[d]))
    mp.dm1.V, mp.dm2.V, mp.dm8.V = g.snapshot(V1), g.snapshot(V2), g.snapshot(V8)
    mp.dm1.tag, mp.dm2.tag = 1, 2
    if ws:
        for k in ('P1', 'P3', 'P4', 'F3'):
            setattr(mp, k, g.obj(full=g.obj(mask=0, E=0), compact=g.obj(mask=0, E=0)))
        for d in (1, 2, 8, 9):
            getattr(mp, 'dm%d' % d).full, getattr(mp, 'dm%d' % d).compact = g.obj(mask=0), g.obj(mask=0)
    out = g.obj(**{k: z(nitr + 1) for k in ('InormHist', 'IrawCorrHist', 'IrawScoreHist', 'thput')}, log10regHist=z(nitr), serialDate=z(nitr),
                dm1=g.obj(Vall=z((n, n, nitr + 1))), dm2=g.obj(Vall=z((n, n, nitr + 1))), dm8=g.obj(Vall=z((n, nitr + 1))))
    th = [g.real('thput%d' % k, lo=0, max=1) for k in range(nitr + 1)]
    J = [g.array('J%d' % k, (npix, n, 1), 'real') for k in range(nitr)]
    E = [g.array('E%d' % k, (npix, 1), 'complex') for k in range(nitr)]
    S = [g.array('S%d' % k, (npix, 1), 'complex') for k in range(nitr)]
    dV = [g.array('dV%d' % k, (n, n), 'real') for k in range(nitr)]
    dC = [g.array('dC%d' % k, (n, n), 'real') for k in range(nitr)]
    Im = [g.array('Im%d' % k, (ny, nx), 'real') for k in range(nitr)]
    reg = [g.real('reg%d' % k, max=5) for k in range(nitr)]
    log = []
    cur = {'n': -1, 'jac': None, 'th': 0, 'sim': 0}
    before = []

    def note(*a):
        log.append((cur['n'],) + a)

    def norm(mp_):
        cur['n'] += 1
        before.append([g.snapshot(mp_.dm1.V), g.snapshot(mp_.dm2.V), g.snapshot(mp_.dm8.V)])
        note('norm', [int(x) for x in mp_.dm_ind])

    def thput(mp_):
        k = cur['th']
        cur['th'] += 1
        note('thput', k)
        return th[k], 'off-axis image'

    def jacobian(mp_):
        cur['jac'] = cur['n']
        note('jacobian')
        return g.obj(G1=g.snapshot(J[cur['n']]), number=cur['n'])

    def estimate_(mp_, ev, jac):
        k = cur['n']
        note('estimate', ev.Itr)
        ev.Eest = g.snapshot(E[k])
        if jac is not None:
            g.ensure_arr('the Jacobian of the last re-linearisation is unchanged', jac.G1, J[cur['jac']])
        else:
            g.ensure('no Jacobian', kind == 'ad-efc')

    def simulate(mp_):
        cur['sim'] += 1
        return S[cur['sim'] - 1]

    def delta(mp_, out_, e, eprev, s, sprev, itr):
        note('delta', itr)
        g.ensure_arr('new estimate', e, E[itr])
        g.ensure_arr('previous estimate', eprev, E[itr - 1])
        g.ensure_arr('new simulated field', s, S[itr])
        g.ensure_arr('previous simulated field', sprev, S[itr - 1])

    def control(mp_, cvar, jac):
        k = cur['n']
        note('control', cvar.Itr)
        g.ensure_arr('controller gets the estimate of this iteration', cvar.Eest, E[k])
        tot = 0
        for d in range(1, 10):
            tot = tot + nele[d]
        g.ensure_eq('number of controlled actuators', cvar.NeleAll, tot)
        if jac is not None:
            g.ensure_arr('controller gets the Jacobian unweighted', jac.G1, J[cur['jac']])
            jac.G1[:, :, 0] = jac.G1[:, :, 0] * 2
        mp_.dm1.V += dV[k]
        cvar.log10regUsed = reg[k]
        cvar.Im = Im[k]

    def constrain(dm):
        k = cur['n']
        note('constrain', dm.tag)
        dm.V = dm.V + (dC[k] if dm.tag == 1 else 2 * dC[k])
        return dm

    def stats(mp_, out_, itr):
        note('stats', itr)

    def intens(mp_, out_, ev, itr):
        note('intensities', itr)
        out_.InormHist[itr] = 1.
        g.ensure_arr('intensities of this estimate', ev.Eest, E[cur['n']])
    g.stub('falco.imaging.calc_psf_norm_factor', norm)
    g.stub('falco.imaging.calc_thput', thput)
    g.stub('falco.setup.falco_set_jacobian_modal_weights', lambda mp_: note('weights'))
    g.stub('falco.ctrl.include_all_actuators', lambda mp_, cvar: note('include'))
    g.stub('falco.model.jacobian', jacobian)
    g.stub('falco.ctrl.cull_weak_actuators', lambda mp_, cvar, jac: note('cull', bool(cvar.flagRelin)))
    g.stub('falco.est.wrapper', estimate_)
    g.stub('falco.plot.wfsc_progress', lambda *a: None)
    g.stub('falco.plot.delta_efield', delta)
    g.stub(W + 'compute_simulated_efield_for_delta_efield_plot', simulate)
    g.stub('falco.ctrl.wrapper', control)
    g.stub('falco.dm.enforce_constraints', constrain)
    g.stub(W + 'falco_compute_dm_stats', stats)
    g.stub(W + 'store_intensities', intens)
    saved = []
    g.stub(W + 'pickle', g.obj(dump=lambda o, f: saved.append(o)))
    g.stub(W + 'open', lambda *a: Sink())
    g.fn(W + 'loop')(mp, out)
    ad = kind == 'ad-efc'
    g.ensure('one normalisation per iteration', cur['n'] == nitr - 1)
    g.ensure('histories are saved after every iteration and at the end', [o is out for o in saved[:nitr + 1]] == [True] * (nitr + 1))
    U1, U2 = V1, V2
    for k in range(nitr):
        ev = [e[1:] for e in log if e[0] == k]
        ind = list(sched[k]) if sched else [1, 2]
        fresh = k == 0 or k in relin
        want = [('norm', ind), ('thput', k)]
        if not ad:
            want += [('weights',)] + ([('include',), ('jacobian',)] if fresh else []) + [('cull', fresh)]
        want += [('estimate', k), ('intensities', k)] + ([('delta', k)] if k else []) + [('control', k)]
        want += [('constrain', d) for d in (1, 2) if d in ind] + [('stats', k)] + ([('thput', nitr)] if k == nitr - 1 else [])
        g.ensure('every step of the iteration, in order, with the mirrors scheduled for it', ev == want)
        g.ensure_eq('throughput of the iteration', g.at(out.thput, k), th[k])
        g.ensure_eq('regularisation of the iteration', g.at(out.log10regHist, k), reg[k])
        if not model:
            g.ensure_eq('new contrast, correction region', g.at(out.IrawCorrHist, k + 1), g.np.mean(Im[k][corr]))
            g.ensure_eq('new contrast, scoring region', g.at(out.IrawScoreHist, k + 1), g.np.mean(Im[k][score]))
        g.forall('command before the iteration, mirror 1', (n, n), lambda i, j: g.eq(g.at(out.dm1.Vall, i, j, k), g.at(U1, i, j)))
        g.forall('command before the iteration, mirror 2', (n, n), lambda i, j: g.eq(g.at(out.dm2.Vall, i, j, k), g.at(U2, i, j)))
        g.forall('command before the iteration, mirror 8', (n,), lambda i: g.eq(g.at(out.dm8.Vall, i, k), g.at(V8, i)))
        U1 = U1 + dV[k] + (dC[k] if 1 in ind else 0 * dC[k])
        U2 = U2 + (2 * dC[k] if 2 in ind else 0 * dC[k])
    if not model:
        g.ensure_eq('final contrast', g.at(out.InormHist, nitr), g.at(out.IrawCorrHist, nitr))
    g.ensure_eq('final throughput', g.at(out.thput, nitr), th[nitr])
    g.forall('final command, mirror 1', (n, n), lambda i, j: g.eq(g.at(out.dm1.Vall, i, j, nitr), g.at(U1, i, j)))
    g.forall('final command, mirror 2', (n, n), lambda i, j: g.eq(g.at(out.dm2.Vall, i, j, nitr), g.at(U2, i, j)))
    g.ensure('iteration number', out.Itr == nitr - 1)
    g.cover('end')


class Sink(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contract('P27', W + 'falco_compute_dm_stats')
def command_statistics(g):
    ind = g.choice('dm_ind', [(1, 2), (2,), (1, 8)])
    n, N = g.int('Nact', 1, 3), 2 * g.int('Ndm', 1, 2)
    tied = g.choice('tied', [0, 2])
    D, dx, ID = g.real('D', pos=True, max=3), g.real('dx', pos=True, max=3), g.real('ID', lo=0, hi=1)
    z = g.np.zeros
    nitr = 2
    out = g.obj(**{'dm%d' % d: g.obj(Vpv=z(nitr), Spv=z(nitr), Srms=z(nitr)) for d in (1, 2)})
    mp = g.params(dm_ind=g.np.array(list(ind)), centering=g.choice('centering', ['pixel', 'interpixel']),
                  P2=g.obj(D=D, compact=g.obj(dx=dx)), P1=g.obj(IDnorm=ID))
    S = {}
    for d in (1, 2):
        S[d] = g.array('surf%d' % d, (N, N), 'real')
        setattr(mp, 'dm%d' % d, g.obj(V=g.array('V%d' % d, (n, n), 'real'), tied=z((tied, 2)), tag=d, compact=g.obj(dx=g.real('dx%d' % d, pos=True), Ndm=N)))
    V = {d: g.snapshot(getattr(mp, 'dm%d' % d).V) for d in (1, 2)}
    k = g.choice('iteration', [0, 1])

    def surface(dm, sampling, size):
        g.ensure_eq('sampling of that mirror', sampling, dm.compact.dx)
        g.ensure_eq('size of that mirror', size, N)
        return S[dm.tag]
    g.stub('falco.dm.gen_surf_from_act', surface)
    # the pixels of the pupil
    xs = falco_axis(g, N, dx / D, mp.centering)
    RS = g.np.sqrt(xs[None, :] ** 2 + xs[:, None] ** 2)
    m = g.np.logical_and(RS >= ID / 2, RS <= 0.5)
    g.assume(g.le(1, g.np.sum(m)))
    g.fn(W + 'falco_compute_dm_stats')(mp, out, k)
    for d in (1, 2):
        o = getattr(out, 'dm%d' % d)
        used = d in ind
        g.ensure_eq('spread of the command', g.at(o.Vpv, k), g.np.max(V[d]) - g.np.min(V[d]) if used else 0)
        g.ensure_eq('spread of the surface', g.at(o.Spv, k), g.np.max(S[d]) - g.np.min(S[d]) if used else 0)
        if used:
            g.ensure_eq('rms of the surface over the pupil', g.at(o.Srms, k) ** 2, g.np.mean(g.np.abs(S[d][m]) ** 2))
            g.ensure('rms is not negative', g.le(0, g.at(o.Srms, k)))
        for h in (o.Vpv, o.Spv, o.Srms):
            g.ensure_eq('other iterations untouched', g.at(h, 1 - k), 0)
    g.cover('end')


def falco_axis(g, N, step, centering):
    return (g.np.arange(N) - (N // 2 if centering == 'pixel' else (N - 1) / 2)) * step


@contract('P27', 'falco.setup.init_storage_arrays')
def empty_histories(g):
    """room for every iteration, for every control mode, and one more for the state after the last"""
    nitr, n, N, nz, na = g.int('Nitr', 1), g.int('Nact', 1), g.int('Nsbp', 1), g.int('Nzern', 0, max=3), g.int('Nann', 0, max=3)
    nmode, nt = g.int('Nmode', 1), g.int('NactTotal', 1)
    mp = g.params(Nitr=nitr, Nsbp=N, jac=g.obj(Nmode=nmode), compact=g.obj(star=g.obj(count=g.int('stars', 1))),
                  eval=g.obj(Rsens=g.np.zeros((na, 2)), indsZnoll=g.np.zeros(nz)),
                  Fend=g.obj(res=1, xisDL=2, etasDL=3, scoreInCorr=4, corr=g.obj(maskBool=5), score=g.obj(maskBool=6)))
    for d in (1, 2):
        setattr(mp, 'dm%d' % d, g.obj(Nact=n, V=g.np.zeros((n, n))))
    for d in (8, 9):
        setattr(mp, 'dm%d' % d, g.obj(NactTotal=nt, V=g.np.zeros(nt)))
    o = g.fn('falco.setup.init_storage_arrays')(mp)
    for d in (1, 2):
        g.ensure_shape('commands, one more than iterations', getattr(o, 'dm%d' % d).Vall, (n, n, nitr + 1))
        for k in ('Vpv', 'Spv', 'Srms'):
            g.ensure_shape('statistics per iteration', getattr(getattr(o, 'dm%d' % d), k), (nitr,))
    for d in (8, 9):
        g.ensure_shape('commands, one more than iterations', getattr(o, 'dm%d' % d).Vall, (nt, nitr + 1))
    for k in ('InormHist', 'IrawCorrHist', 'IrawScoreHist', 'thput'):
        g.ensure_shape('measurements, one more than iterations', getattr(o, k), (nitr + 1,))
    for k in ('IestCorrHist', 'IestScoreHist', 'IincoCorrHist', 'IincoScoreHist', 'log10regHist', 'serialDate'):
        g.ensure_shape('estimates per iteration', getattr(o, k), (nitr,))
    for k in ('Corr', 'Score'):
        g.ensure_shape('sub-bands', getattr(o, 'normIntMeas' + k), (nitr, N))
        g.ensure_shape('modes', getattr(o, 'normIntMod' + k), (nitr, nmode))
        g.ensure_shape('modes', getattr(o, 'normIntUnmod' + k), (nitr, nmode))
    g.ensure_shape('sensitivities', o.Zsens, (nz, na, nitr))
    g.cover('end')
