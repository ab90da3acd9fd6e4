"""Control step: stacking and splitting of commands, regularised solve, grid search, culling, tied and spatial weighting."""
from pyvc.registry import contract, bounded


def mirrors(g, sets=((1,), (2,), (1, 2)), hi=4):
    """two mirrors with symbolic actuator counts and used-actuator sets"""
    ind = g.choice('dm_ind', list(sets))
    ds = {}
    for d in (1, 2):
        n = g.int('Nact%d' % d, 2, hi)
        V = g.array('V%d' % d, (n, n), 'real')
        act = g.index_set('act%d' % d, n * n)
        w = g.real('weight%d' % d)
        ds[d] = g.obj(V=V, Nact=n, NactTotal=n * n, act_ele=act, Nele=g.len(act), weight=w)
    mp = g.params(dm_ind=g.np.array(list(ind)), dm1=ds[1], dm2=ds[2], ctrl=g.obj())
    return mp, ind, ds


def in_use(g, d, i):
    return g.exists((d.Nele,), lambda k: g.eq(g.at(d.act_ele, k), i))


@contract('P17', 'falco.ctrl.init')
def stacked_vector(g):
    mp, ind, ds = mirrors(g)
    cvar = g.obj()
    V0 = {d: g.snapshot(ds[d].V) for d in ind}
    g.fn('falco.ctrl.init')(mp, cvar)
    off = 0
    for d in ind:
        m = ds[d]
        g.forall('the entries of a mirror are its used actuators, in order', (m.Nele,), lambda k: g.and_(
            g.eq(g.at(cvar.uVec, off + k), g.at(V0[d], g.at(m.act_ele, k) // m.Nact, g.at(m.act_ele, k) % m.Nact)),
            g.eq(g.at(cvar.uLegend, off + k), d)))
        off = off + m.Nele
        g.ensure_arr('command untouched', m.V, V0[d])
    g.ensure_eq('length', cvar.NeleAll, off)
    g.ensure_shape('length', cvar.uLegend, (off,))
    g.cover('end')


@contract('P17', 'falco.ctrl.init')
def stacked_vector_fpm_mirrors(g):
    """mirrors at the focal-plane mask have 1-D commands"""
    n8, n9 = g.int('N8', 1, 4), g.int('N9', 1, 4)
    d8 = g.obj(V=g.array('V8', (n8,), 'real'), NactTotal=n8, act_ele=g.index_set('act8', n8))
    d9 = g.obj(V=g.array('V9', (n9,), 'real'), NactTotal=n9, act_ele=g.index_set('act9', n9))
    d8.Nele, d9.Nele = g.len(d8.act_ele), g.len(d9.act_ele)
    n1 = g.int('N1', 1, 3)
    d1 = g.obj(V=g.array('V1', (n1, n1), 'real'), NactTotal=n1 * n1, act_ele=g.index_set('act1', n1 * n1))
    d1.Nele = g.len(d1.act_ele)
    mp = g.params(dm_ind=g.np.array([1, 8, 9]), dm1=d1, dm8=d8, dm9=d9, ctrl=g.obj())
    cvar = g.obj()
    g.fn('falco.ctrl.init')(mp, cvar)
    o8 = d1.Nele
    g.forall('mirror 8', (d8.Nele,), lambda k: g.and_(
        g.eq(g.at(cvar.uVec, o8 + k), g.at(d8.V, g.at(d8.act_ele, k))), g.eq(g.at(cvar.uLegend, o8 + k), 8)))
    o9 = o8 + d8.Nele
    g.forall('mirror 9', (d9.Nele,), lambda k: g.and_(
        g.eq(g.at(cvar.uVec, o9 + k), g.at(d9.V, g.at(d9.act_ele, k))), g.eq(g.at(cvar.uLegend, o9 + k), 9)))
    g.ensure_eq('length', cvar.NeleAll, o9 + d9.Nele)


@contract('P17', 'falco.ctrl.wrapup')
def command_split(g):
    mp, ind, ds = mirrors(g)
    cvar = g.obj()
    g.fn('falco.ctrl.init')(mp, cvar)
    du = g.array('du', (cvar.NeleAll,), 'real')
    V0 = {d: g.snapshot(ds[d].V) for d in (1, 2)}
    nominal = {d: ds[d].V for d in ind}
    mp2, dDM = g.fn('falco.ctrl.wrapup')(mp, cvar, du)
    for d in ind:
        g.ensure_arr('the nominal command itself is untouched', nominal[d], V0[d])
        g.ensure_arr('the nominal command is kept for the next trial', getattr(cvar, 'DM%dVnom' % d), V0[d])
    off = 0
    for d in ind:
        m = ds[d]
        dV = getattr(dDM, 'dDM%dV' % d)
        N = m.Nact
        g.ensure_shape('delta map shape', dV, (N, N))
        g.forall('every used actuator moves by its own entry times the mirror weight', (m.Nele,), lambda k: g.eq(
            g.at(dV, g.at(m.act_ele, k) // N, g.at(m.act_ele, k) % N), m.weight * g.at(du, off + k)))
        g.forall('no other actuator moves', (N, N), lambda i, j: g.or_(in_use(g, m, i * N + j), g.eq(g.at(dV, i, j), 0)))
        g.forall('command = previous command + delta', (N, N), lambda i, j: g.eq(
            g.at(m.V, i, j), g.at(V0[d], i, j) + g.at(dV, i, j)))
        off = off + m.Nele
    for d in (1, 2):
        if d not in ind:
            g.ensure_arr('a mirror that is not in use keeps its command', ds[d].V, V0[d])
    g.cover('end')


def regularised(g, cvar, reg, fac):
    M = 10.0 ** reg * g.np.diag(cvar.EyeGstarGdiag) + cvar.GstarG_wsum
    return g.np.linalg.solve(M, cvar.RealGstarEab_wsum), fac


@contract('P17', 'falco.ctrl._efc')
def regularised_step(g):
    mp, ind, ds = mirrors(g)
    cvar = g.obj()
    g.fn('falco.ctrl.init')(mp, cvar)
    n = cvar.NeleAll
    g.assume(n >= 1)
    cvar.GstarG_wsum = g.array('GG', (n, n), 'real')
    cvar.RealGstarEab_wsum = g.array('GE', (n, 1), 'real')
    cvar.EyeGstarGdiag = g.array('diag', (n,), 'real', lo=1)
    reg = g.choice('reg', [-3.0, 0.0])
    fac = g.real('dmfac')
    use_model = g.bool('flagUseModel')
    Ny, Nx = g.int('Neta', 1, 4), g.int('Nxi', 1, 4)
    mask = g.array('mask', (Ny, Nx), 'bool')
    g.assume(g.exists((Ny, Nx), lambda i, j: g.at(mask, i, j)))
    img = g.array('Itotal', (Ny, Nx), 'real')
    mp.ctrl.flagUseModel = bool(use_model)
    mp.Fend = g.obj(corr=g.obj(maskBool=mask))
    V0 = {d: g.snapshot(ds[d].V) for d in (1, 2)}
    seen = {}

    def image(mp_, *a):
        for d in ind:
            seen[d] = g.snapshot(getattr(mp_, 'dm%d' % d).V)
        return img
    g.stub('falco.imaging.get_summed_image', image)
    g.stub('falco.imaging.get_expected_summed_image', image)
    g.fn('falco.ctrl.init')(mp, cvar)
    ni = g.choice('ni', [0, 1])
    vals = [(-9.0, 7.0), (-9.0, 7.0)]
    vals[ni] = (reg, fac)
    Iavg, dDM = g.fn('falco.ctrl._efc')(ni, vals, mp, cvar)
    x, _ = regularised(g, cvar, reg, fac)
    off = 0
    for d in ind:
        m, N = ds[d], ds[d].Nact
        dV = getattr(dDM, 'dDM%dV' % d)
        g.forall('delta = -dmfac * weight * (10^reg D + GG)^-1 GE', (m.Nele,), lambda k: g.eq(
            g.at(dV, g.at(m.act_ele, k) // N, g.at(m.act_ele, k) % N), -fac * m.weight * g.at(x, off + k, 0)))
        g.forall('the trial image is taken at command + delta', (N, N), lambda i, j: g.eq(
            g.at(seen[d], i, j), g.at(V0[d], i, j) + g.at(dV, i, j)))
        off = off + m.Nele
    for d in (1, 2):
        g.ensure_arr('mirror %d is back at its command' % d, ds[d].V, V0[d])
    g.ensure_eq('mean over the dark hole', Iavg, g.np.mean(img[mask]))
    g.ensure_arr('image kept', dDM.Itotal, img)
    g.cover('end')


@contract('P17', 'falco.ctrl.wrapper')
def normal_equations(g):
    """the matrices handed to the controller are the weighted normal equations of all modes"""
    ind = g.choice('dm_ind', [(1,), (2,), (1, 2)])
    ctl = g.choice('controller', ['gridsearchefc', 'plannedEFC'])
    npix, nmode, nstar = g.int('Npix', 2, 3), g.int('Nmode', 1, 3), g.int('Nstar', 1, 2)
    ds, G, n0 = {}, {}, {}
    for d in ind:
        N = g.int('Nact%d' % d, 2, 2)
        k = g.int('Nele%d' % d, 2, 3)
        ds[d] = g.obj(V=g.array('V%d' % d, (N, N), 'real'), Nact=N, NactTotal=N * N, Nele=k)
        G[d] = g.array('G%d' % d, (npix, k, nmode), 'complex')
        n0[d] = g.snapshot(ds[d].V)
    tot = sum([ds[d].Nele for d in ind], 0)
    E = g.array('Eest', (npix, nmode), 'complex')
    W = g.array('Wspatial', (npix, nstar), 'real')
    w = g.array('modew', (nmode,), 'real')
    star = g.array('star', (nmode,), 'int', lo=0, max=nstar - 1)
    jac = g.obj(Nmode=nmode, weights=w, star_inds=star, minimizeNI=False)
    mp = g.params(controller=ctl, dm_ind=g.np.array(list(ind)), jac=jac, WspatialVec=W,
                  Fend=g.obj(corr=g.obj(Npix=npix)), **{'dm%d' % d: ds[d] for d in ind})
    cvar = g.obj(NeleAll=tot, Eest=E)
    E0 = g.snapshot(E)
    jacs = g.obj(**{'G%d' % d: G[d] for d in ind})
    dDM = g.obj(**{'dDM%dV' % d: g.array('dV%d' % d, (ds[d].Nact, ds[d].Nact), 'real') for d in ind})
    g.stub('falco.ctrl.apply_spatial_weighting_to_Jacobian', lambda a, b: None)
    g.stub('falco.ctrl._planned_efc', lambda a, c: dDM)
    g.stub('falco.ctrl._grid_search_efc', lambda a, c: dDM)
    g.fn('falco.ctrl.wrapper')(mp, cvar, jacs)
    g.ensure_shape('square', cvar.GstarG_wsum, (tot, tot))
    offs = {}
    o = 0
    for d in ind:
        offs[d] = o
        o = o + ds[d].Nele
    for d in ind:
        for e in ind:
            g.forall('normal matrix', (ds[d].Nele, ds[e].Nele), lambda a, b: g.eq(
                g.at(cvar.GstarG_wsum, offs[d] + a, offs[e] + b),
                g.sum(nmode, lambda m: g.at(w, m) * g.re(g.sum(npix, lambda p: g.conj(g.at(G[d], p, a, m)) * g.at(G[e], p, b, m))))))
        g.forall('right-hand side', (ds[d].Nele,), lambda a: g.eq(
            g.at(cvar.RealGstarEab_wsum, offs[d] + a, 0),
            g.sum(nmode, lambda m: g.at(w, m) * g.re(g.sum(npix, lambda p: g.conj(g.at(G[d], p, a, m))
                                                           * (g.at(W, p, g.at(star, m)) * g.at(E0, p, m)))))))
        g.forall('the command found is added to the mirror', (ds[d].Nact, ds[d].Nact), lambda i, j: g.eq(
            g.at(ds[d].V, i, j), g.at(n0[d], i, j) + g.at(getattr(dDM, 'dDM%dV' % d), i, j)))
    top = g.np.max(g.np.diag(cvar.GstarG_wsum))
    g.forall('regularisation diagonal: the largest diagonal entry of the normal matrix, for every actuator', (tot,),
             lambda i: g.eq(g.at(cvar.EyeGstarGdiag, i), top))
    g.ensure_arr('estimate untouched', cvar.Eest, E0)
    g.cover('end')


@contract('P17', 'falco.ctrl.wrapper')
def right_hand_side_normalised(g):
    """with minimizeNI the estimated field of every mode is divided by the peak of its unocculted field"""
    npix, nmode, k, nf = g.int('Npix', 2, 3), g.choice('Nmode', [2]), g.int('Nele', 2, 3), g.int('nf', 1, 3)
    nq = g.int('nq', 1, 2)
    G = g.array('G', (npix, k, nmode), 'complex')
    E, W = g.array('Eest', (npix, nmode), 'complex'), g.array('Wspatial', (npix, 1), 'real')
    w = g.array('modew', (nmode,), 'real')
    inds = {s: g.array(s, (nmode,), 'int', lo=0, max=nq - 1) for s in ('sbp', 'zern')}
    Eun = g.array('Eun', (nq, nq, nf, nf), 'complex')
    V = g.array('V', (2, 2), 'real')
    jac = g.obj(Nmode=nmode, weights=w, star_inds=g.np.zeros(nmode, dtype=int), sbp_inds=inds['sbp'], zern_inds=inds['zern'],
                minimizeNI=True)
    mp = g.params(controller='plannedEFC', dm_ind=g.np.array([1]), jac=jac, WspatialVec=W,
                  Fend=g.obj(corr=g.obj(Npix=npix)), dm1=g.obj(V=V))
    cvar = g.obj(NeleAll=k, Eest=E)
    E0 = g.snapshot(E)
    dDM = g.obj(dDM1V=g.array('dV', (2, 2), 'real'))
    ok = []

    def compact(mp_, mv, isNorm=True, isEvalMode=False, useFPM=True, forRevGradModel=False):
        ok.append(not useFPM and mv.whichSource == 'star')
        return Eun[mv.sbpIndex, mv.zernIndex]
    g.stub('falco.ctrl.apply_spatial_weighting_to_Jacobian', lambda a, b: None)
    g.stub('falco.ctrl._planned_efc', lambda a, c: dDM)
    g.stub('falco.model.compact', compact)
    g.fn('falco.ctrl.wrapper')(mp, cvar, g.obj(G1=G))
    g.ensure('fields are of the unocculted star', all(ok) and len(ok) > 0)

    pk = []
    for m in range(nmode):
        F = Eun[g.at(inds['sbp'], m), g.at(inds['zern'], m)]
        pk.append(F[g.np.unravel_index(g.np.argmax(g.np.abs(F)), (nf, nf))])
    g.forall('right-hand side', (k,), lambda a: g.eq(
        g.at(cvar.RealGstarEab_wsum, a, 0),
        sum([g.at(w, m) * g.re(g.sum(npix, lambda p: g.conj(g.at(G, p, a, m)) * (g.at(W, p, 0) * (g.at(E0, p, m) / pk[m]))))
             for m in range(nmode)], 0)))
    g.ensure_arr('estimate untouched', cvar.Eest, E0)
    g.cover('end')


@contract('P18', 'falco.ctrl._grid_search_efc')
def best_of_the_tried(g):
    ind = g.choice('dm_ind', [(1,), (1, 2), (8, 9)])
    nr, nd = g.choice('sizes', [(1, 1), (3, 1), (1, 2), (2, 2)])
    par = g.choice('parallel', [(False, False), (False, True), (True, False), (True, True)])
    regs = g.array('log10regVec', (nr,), 'real')
    facs = g.array('dmfacVec', (nd,), 'real')
    Ny, Nx = g.int('Neta', 2, 3), g.int('Nxi', 2, 3)
    n = nr * nd
    Inorm = g.array('Inorm', (n,), 'real')
    ims = g.array('ims', (n, Ny, Nx), 'real')
    mp = g.params(dm_ind=g.np.array(list(ind)), flagParallel=par[0], Nthreads=2,
                  ctrl=g.obj(log10regVec=regs, dmfacVec=facs, flagUseModel=par[1]), Fend=g.obj(Neta=Ny, Nxi=Nx))
    dV = {}
    for d in ind:
        N = g.int('Nact%d' % d, 2, 3)
        setattr(mp, 'dm%d' % d, g.obj(Nact=N, NactTotal=N))
        dV[d] = g.array('dV%d' % d, (n, N, N) if d < 3 else (n, N), 'real')
    cvar = g.obj()
    calls = []

    def efc(ni, vals, mp_, cvar_):
        calls.append((ni, vals[ni][0], vals[ni][1], len(vals)))
        o = g.obj(Itotal=ims[ni])
        for d in ind:
            setattr(o, 'dDM%dV' % d, dV[d][ni])
        return Inorm[ni], o
    g.stub('falco.ctrl._efc', efc)

    class Pool(object):
        def __init__(self, *a, **k):
            pass

        def starmap(self, f, args, *a):
            return [f(*x) for x in args]

        def close(self):
            pass
        join = terminate = close
    g.stub('falco.ctrl.multiprocessing', g.obj(Pool=Pool))
    out = g.fn('falco.ctrl._grid_search_efc')(mp, cvar)
    g.ensure('every combination once, in order', [c[0] for c in calls] == list(range(n)) and all(c[3] == n for c in calls))
    for c in calls:
        g.ensure_eq('regularisation varies fastest', c[1], g.at(regs, c[0] % nr))
        g.ensure_eq('then the command scale', c[2], g.at(facs, c[0] // nr))
    best = g.np.argmin(Inorm)
    g.forall('contrast is the smallest', (n,), lambda k: g.le(cvar.cMin, g.at(Inorm, k)))
    g.ensure_eq('contrast is the one of the applied command', cvar.cMin, g.at(Inorm, best))
    g.ensure_eq('regularisation is the one of the applied command', cvar.log10regUsed, g.at(regs, best % nr))
    for d in ind:
        N = getattr(mp, 'dm%d' % d).Nact
        o = getattr(out, 'dDM%dV' % d)
        if d < 3:
            g.forall('command of the best combination', (N, N), lambda i, j: g.eq(g.at(o, i, j), g.at(dV[d], best, i, j)))
        else:
            g.forall('command of the best combination', (N,), lambda i: g.eq(g.at(o, i), g.at(dV[d], best, i)))
    g.forall('image of the best combination', (Ny, Nx), lambda i, j: g.eq(g.at(cvar.Im, i, j), g.at(ims, best, i, j)))
    g.ensure_arr('all contrasts reported', cvar.InormVec, Inorm)
    g.cover('end')


@contract('P18', 'falco.ctrl._planned_efc')
def planned_step(g):
    """scheduled control: a flagged iteration searches the whole grid; the step taken is the best of it, or the one of the
    regularisation the schedule asks for (its real part, on top of the best one so far if it has an imaginary part)"""
    ad = g.choice('algorithmic differentiation', [False, True])
    ind = g.choice('dm_ind', [(1,), (2, 8), (1, 2, 9)])
    nr, nd = g.choice('sizes', [(1, 1), (2, 1), (1, 2), (2, 2)])
    before = g.choice('searched before', [False, True])
    regs, facs = g.array('log10regVec', (nr,), 'real'), g.array('dmfacVec', (nd,), 'real')
    Ny, Nx, n = g.int('Neta', 2, 3), g.int('Nxi', 2, 3), nr * nd
    nitr = g.int('Nitr', 1, 3)
    itr = g.int('Itr', 0, max=2)
    g.assume(g.le(itr + 1, nitr))
    sched = g.array('log10regSchedIn', (nitr,), 'complex')
    ngs = g.int('Nsearch', 1, 2)
    gs = g.array('gridSearchItrVec', (ngs,), 'int', lo=0, max=3)
    Inorm, ims = g.array('Inorm', (n + 1,), 'real'), g.array('ims', (n + 1, Ny, Nx), 'real')
    mp = g.params(dm_ind=g.np.array(list(ind)), gridSearchItrVec=gs, Fend=g.obj(Neta=Ny, Nxi=Nx),
                  ctrl=g.obj(log10regVec=regs, dmfacVec=facs, flagUseModel=g.choice('model', [False, True]), log10regSchedIn=sched))
    dV = {}
    for d in ind:
        N = g.int('Nact%d' % d, 2, 3)
        setattr(mp, 'dm%d' % d, g.obj(Nact=N, NactTotal=N))
        dV[d] = g.array('dV%d' % d, (n + 1, N, N) if d < 3 else (n + 1, N), 'real')
    s = g.at(sched, itr)
    use = g.not_(g.eq(g.im(s), 0))
    search = g.exists((ngs,), lambda k: g.eq(g.at(gs, k), itr))
    cvar = g.obj(Itr=itr)
    reg0, fac0 = g.real('reg0', max=3), g.real('fac0', max=3)
    if before:
        cvar.latestBestlog10reg = reg0
        cvar.latestBestDMfac = fac0
    else:
        g.assume(g.or_(search, g.not_(use)))
    calls = []

    def efc(ni, vals, mp_, cvar_):
        one = len(vals) == 1 and (len(calls) == n or n > 1 or not len(calls) and not did)
        k = n if one else ni
        calls.append((k, ni, vals[ni][0], vals[ni][1]))
        o = g.obj(Itotal=ims[k])
        for d in ind:
            setattr(o, 'dDM%dV' % d, dV[d][k])
        return Inorm[k], o
    did = bool(search)
    g.stub('falco.ctrl._ad_efc' if ad else 'falco.ctrl._efc', efc)
    out = g.fn('falco.ctrl._planned_ad_efc' if ad else 'falco.ctrl._planned_efc')(mp, cvar)
    direct = did and bool(g.and_(use, g.eq(g.re(s), 0)))
    want = (list(range(n)) if did else []) + ([] if direct else [n])
    g.ensure('every combination once in order, then the scheduled step', [c[0] for c in calls] == want)
    g.ensure('own place in the list', all(c[1] == (0 if c[0] == n else c[0]) for c in calls))
    breg, bfac = (reg0, fac0) if before else (0, 1)
    if did:
        best = g.np.argmin(Inorm[0:n])
        for c in calls[:n]:
            g.ensure_eq('regularisation varies fastest', c[2], g.at(regs, c[0] % nr))
            g.ensure_eq('then the command scale', c[3], g.at(facs, c[0] // nr))
        breg, bfac = g.at(regs, best % nr), g.at(facs, best // nr)
        g.ensure_eq('best regularisation remembered', cvar.latestBestlog10reg, breg)
        g.ensure_eq('best command scale remembered', cvar.latestBestDMfac, bfac)
    if direct:
        g.forall('contrast is the smallest', (n,), lambda k: g.le(cvar.cMin, g.at(Inorm, k)))
        used, k = breg, best
    else:
        used, k = g.re(s) + (breg if bool(use) else 0), n
        g.ensure_eq('scheduled regularisation', calls[-1][2], used)
        g.ensure_eq('best command scale so far', calls[-1][3], bfac)
    g.ensure_eq('reported regularisation', cvar.log10regUsed, used)
    g.ensure_eq('reported contrast', cvar.cMin, g.at(Inorm, k))
    g.forall('reported image', (Ny, Nx), lambda i, j: g.eq(g.at(cvar.Im, i, j), g.at(ims, k, i, j)))
    for d in ind:
        N, o = getattr(mp, 'dm%d' % d).Nact, getattr(out, 'dDM%dV' % d)
        if d < 3:
            g.forall('command of that step', (N, N), lambda i, j: g.eq(g.at(o, i, j), g.at(dV[d], k, i, j)))
        else:
            g.forall('command of that step', (N,), lambda i: g.eq(g.at(o, i), g.at(dV[d], k, i)))
    g.cover('search' if did else 'no search')
    g.cover('direct' if direct else 'scheduled')


@contract('P19', 'falco.ctrl.cull_weak_actuators')
def strong_or_tied(g):
    """first iteration, or other mirrors than before: from a Jacobian of all actuators, exactly the strong and the tied
    ones stay, in increasing order, and the Jacobian columns, the lists and the counts agree"""
    when, ind, ntied = g.choice('case', [('other mirrors', (1, 2), {1: 1, 2: 0}), ('first', (1,), {1: 2}), ('other mirrors', (1,), {1: 0}), ('first', (2,), {2: 1}),
                                         ('other mirrors', (2,), {2: 2}),
                                         ('first', (1, 2), {1: 0, 2: 1}), ('first', (8, 9), {})])
    npix, nmode = g.int('Npix', 1, 3), g.int('Nmode', 1, 3)
    lg = g.real('logGmin', max=3)
    sched = [g.np.array([1, 2, 8]), g.np.array(list(ind)[::-1])]
    itr = 0 if when == 'first' else 1
    mp = g.params(dm_ind=g.np.array(list(ind)), logGmin=lg, Nitr=2, dm_ind_sched=sched)
    G, tied, N = {}, {}, {}
    jac = g.obj()
    for d in (1, 2, 8, 9):
        o = g.obj(Nele=g.int('stale%d' % d, 0, 4))
        if d in ind:
            N[d] = g.int('Nact%d' % d, 2, 6)
            nt = ntied.get(d, 0)
            tied[d] = g.array('tied%d' % d, (nt, 2), 'int', lo=0, max=N[d] - 1)
            o.NactTotal, o.tied = N[d], g.snapshot(tied[d])
            G[d] = g.array('G%d' % d, (npix, N[d], nmode), 'complex')
            setattr(jac, 'G%d' % d, g.snapshot(G[d]))
        setattr(mp, 'dm%d' % d, o)
    cvar = g.obj(Itr=itr, flagRelin=True)
    g.fn('falco.ctrl.cull_weak_actuators')(mp, cvar, jac)
    g.ensure('culled', bool(cvar.flagCullAct))
    for d in (1, 2, 8, 9):
        o = getattr(mp, 'dm%d' % d)
        if d not in ind:
            g.ensure_eq('no actuators of an unused mirror', o.Nele, 0)
            continue
        st = g.np.sum(g.np.mean(g.np.abs(G[d])**2, axis=2), axis=0)
        st = st / g.np.max(st)
        want = g.np.nonzero(st >= 10**lg)[0]
        if tied[d].shape[0] > 0:
            want = g.np.unique(g.np.concatenate((want, tied[d].flatten())))
        g.ensure_arr('exactly the strong and the tied actuators, in increasing order', o.act_ele, want)
        g.ensure_eq('count', o.Nele, g.len(want))
        J = getattr(jac, 'G%d' % d)
        g.ensure_shape('Jacobian columns', J, (npix, g.len(want), nmode))
        g.forall('column of the listed actuator', (npix, g.len(want), nmode), lambda p, a, m: g.eq(
            g.at(J, p, a, m), g.at(G[d], p, g.at(want, a), m)))
    g.cover('end')


@contract('P19', 'falco.ctrl.cull_weak_actuators')
def nothing_culled(g):
    """same mirrors as before: lists, counts and Jacobian stay as they are"""
    ind = g.choice('dm_ind', [(1,), (2, 1)])
    hist = g.choice('schedule', [False, True])
    relin = g.choice('relin', [False, True])
    npix, nmode = g.int('Npix', 1, 3), g.int('Nmode', 1, 3)
    itr = g.int('Itr', 1, max=2)
    mp = g.params(dm_ind=g.np.array(list(ind)), logGmin=g.real('logGmin', max=3), Nitr=3)
    if hist:
        sched = [g.np.array(list(ind)), g.np.array(list(ind)[::-1]), g.np.array(list(ind))]
        mp.dm_ind_sched = sched
        itr = g.choice('Itr_', [1, 2])
    jac, G, E = g.obj(), {}, {}
    for d in (1, 2):
        N = g.int('Nact%d' % d, 2, 6)
        k = g.int('k%d' % d, 1, max=N)
        E[d] = g.array('ele%d' % d, (k,), 'int', lo=0, max=N - 1)
        G[d] = g.array('G%d' % d, (npix, k, nmode), 'complex')
        setattr(mp, 'dm%d' % d, g.obj(NactTotal=N, Nele=k, act_ele=g.snapshot(E[d]), tied=g.np.zeros((0, 2))))
        setattr(jac, 'G%d' % d, g.snapshot(G[d]))
    cvar = g.obj(Itr=itr, flagRelin=relin)
    g.fn('falco.ctrl.cull_weak_actuators')(mp, cvar, jac)
    g.ensure('not culled', not cvar.flagCullAct)
    for d in (1, 2):
        o = getattr(mp, 'dm%d' % d)
        g.ensure_arr('list', o.act_ele, E[d])
        g.ensure_eq('count', o.Nele, g.len(E[d]))
        g.ensure_arr('Jacobian', getattr(jac, 'G%d' % d), G[d])
    g.cover('end')
