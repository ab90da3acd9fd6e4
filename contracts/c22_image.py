"""Images, normalisation, perfect estimate, Jacobian assembly: serial values, and parallel evaluation under interference."""
from pyvc.registry import contract, bounded
from pyvc import pools

# (sub-bands, wavelengths per sub-band, index of the unique wavelength of every sample, polarisations, stars)
BANDS = [(1, 1, [0], [10], 1), (1, 3, [0, 1, 2], [-1, 1], 1), (3, 1, [0, 1, 2], [10], 2),
         (2, 2, [0, 1, 1, 2], [5], 1), (2, 3, [0, 1, 2, 2, 3, 4], [-2, -1, 1, 2], 1), (1, 2, [0, 1], [-2, 2], 2)]


def world(g, parallel, module='imaging'):
    """model parameters with the spectral structure set up by falco_set_spectral_properties (P10): the samples sharing a
    wavelength are merged, their weights are added, the index of a wavelength is that of its first sample"""
    N, W, lab, pols, stars = g.choice('band', BANDS)
    ny, nx = g.int('Neta', 2, 3), g.int('Nxi', 2, 3)
    sw, lw = g.array('sbp_weights', (N, 1), 'real', lo=0), g.array('lambda_weights', (W, 1), 'real', lo=0)
    nu = max(lab) + 1
    allw = [sum([g.at(sw, k // W, 0) * g.at(lw, k % W, 0) for k in range(N * W) if lab[k] == u], 0) for u in range(nu)]
    I00 = g.array('I00', (N, W), 'real', lo=1)
    n = g.int('Nact', 2, 3)
    V1, V2 = g.array('V1', (n, n), 'real'), g.array('V2', (n, n), 'real')
    mp = g.params(Nsbp=N, Nwpsbp=W, sbp_weights=sw, flagSim=True, flagParallel=parallel, Nthreads=2, flagImageNoise=False,
                  dm_ind=g.np.array([1, 2]), flagPlot=False,
                  full=g.obj(lambda_weights=lw, lambda_weights_all=g.np.array(allw), NlamUnique=nu, pol_conds=list(pols), polaxis=0,
                             indsLambdaMat=g.np.array([[k // W, k % W] for k in range(N * W)]),
                             indsLambdaUnique=g.np.array([lab.index(u) for u in range(nu)])),
                  star=g.obj(count=stars), Fend=g.obj(Neta=ny, Nxi=nx, full=g.obj(I00=I00)),
                  dm1=g.obj(V=V1, Nact=n), dm2=g.obj(V=V2, Nact=n))
    w = pools.install(g, module) if parallel else pools.World()
    seen = []

    def field(si, wi, pol, star, zern=1, norm=True, off=None):
        return g.opaque('model.full', [mp.dm1.V, mp.dm2.V], (ny, nx), 'complex', params=(lab[si * W + wi], int(pol), star, zern, norm, off))

    def full(mp_, modvar, isNorm=True):
        w.point()
        seen.append((modvar.whichSource, bool(isNorm)))
        return field(int(modvar.sbpIndex), int(modvar.wpsbpIndex), mp_.full.polaxis, int(modvar.starIndex), int(modvar.zernIndex), bool(isNorm))
    g.stub('falco.model.full', full)
    mp.keep = [g.snapshot(V1), g.snapshot(V2), g.snapshot(I00)]

    def frame():
        g.ensure_arr('mirror 1 untouched', mp.dm1.V, mp.keep[0])
        g.ensure_arr('mirror 2 untouched', mp.dm2.V, mp.keep[1])
        g.ensure_arr('normalisation untouched', mp.Fend.full.I00, mp.keep[2])
        g.ensure('normalised model of the star', all(s == ('star', True) for s in seen) and len(seen) > 0)

    def inten(si, wi, i, j):
        return sum([g.abs(g.at(field(si, wi, p, s), i, j))**2 for p in pols for s in range(stars)], 0) / len(pols)
    return mp, (N, W, lab, pols, stars), field, inten, frame, w


def sub_band(g, parallel):
    mp, (N, W, lab, pols, stars), field, inten, frame, w = world(g, parallel)
    si = g.choice('si', list(range(N)))
    noise = g.choice('noise', [False, True])
    mp.flagImageNoise = noise
    raw = []

    def add_noise(mp_, im, k):
        raw.append((g.snapshot(im), k))
        return g.opaque('noisy', [im], (mp.Fend.Neta, mp.Fend.Nxi), 'real', params=(int(k),))
    g.stub('falco.imaging.add_noise_to_subband_image', add_noise)
    im = g.fn('falco.imaging.get_sbp_image')(mp, si)
    if noise:
        g.ensure('noise of that sub-band', len(raw) == 1 and raw[0][1] == si)
        g.ensure_arr('noisy image', im, g.opaque('noisy', [raw[0][0]], (mp.Fend.Neta, mp.Fend.Nxi), 'real', params=(si,)))
        im = raw[0][0]
    g.ensure_shape('size', im, (mp.Fend.Neta, mp.Fend.Nxi))
    g.forall('weighted sum over wavelengths, polarisations and stars', (mp.Fend.Neta, mp.Fend.Nxi), lambda i, j: g.eq(
        g.at(im, i, j), sum([g.at(mp.full.lambda_weights, wi, 0) * inten(si, wi, i, j) for wi in range(W)], 0)))
    frame()
    g.cover('end')


def broadband(g, parallel):
    mp, (N, W, lab, pols, stars), field, inten, frame, w = world(g, parallel)
    noise = g.choice('noise', [False, True])
    mp.flagImageNoise = noise
    ny, nx = mp.Fend.Neta, mp.Fend.Nxi
    raw = []

    def add_noise(mp_, im, k):
        raw.append((g.snapshot(im), int(k)))
        return g.opaque('noisy', [], (ny, nx), 'real', params=(int(k),))
    g.stub('falco.imaging.add_noise_to_subband_image', add_noise)
    im = g.fn('falco.imaging.get_summed_image')(mp)
    g.ensure_shape('size', im, (ny, nx))
    sw, lw = mp.sbp_weights, mp.full.lambda_weights
    if noise:
        g.ensure('noise once per sub-band', sorted(k for _, k in raw) == list(range(N)))
        g.forall('weighted sum of the noisy sub-band images', (ny, nx), lambda i, j: g.eq(
            g.at(im, i, j), sum([g.at(sw, s, 0) * g.at(g.opaque('noisy', [], (ny, nx), 'real', params=(s,)), i, j) for s in range(N)], 0)))
        for r, s in raw:
            g.forall('noise is added to the sub-band image', (ny, nx), lambda i, j: g.eq(
                g.at(r, i, j), sum([g.at(lw, wi, 0) * inten(s, wi, i, j) for wi in range(W)], 0)))
    else:
        g.forall('weighted sum of the sub-band images', (ny, nx), lambda i, j: g.eq(
            g.at(im, i, j), sum([g.at(sw, s, 0) * g.at(lw, wi, 0) * inten(s, wi, i, j) for s in range(N) for wi in range(W)], 0)))
    frame()
    g.cover('end')


@contract('P24', 'falco.imaging.get_sbp_image')
def sub_band_image(g):
    sub_band(g, False)


@contract('P24', 'falco.imaging.get_summed_image')
def broadband_image(g):
    broadband(g, False)


@contract('P24', 'falco.imaging.get_sbp_image')
@contract('P22', 'falco.imaging.get_sbp_image')
def sub_band_image_parallel(g):
    sub_band(g, True)


@contract('P24', 'falco.imaging.get_summed_image')
@contract('P22', 'falco.imaging.get_summed_image')
def broadband_image_parallel(g):
    broadband(g, True)


def normalisation(g, parallel):
    mp, (N, W, lab, pols, stars), field, inten, frame, w = world(g, parallel)
    ny, nx = mp.Fend.Neta, mp.Fend.Nxi
    m = g.int('Narr', 2, 3)
    mp.P1 = g.obj(compact=g.obj(mask=g.array('pupil', (m, m), 'real'), E=g.array('Epupil', (m, m, N), 'complex')))
    calls = []

    def compact_field(si, ev):
        return g.opaque('model.compact', [], (ny, nx), 'complex', params=(si, ev))

    def compact(mp_, modvar, isNorm=True, isEvalMode=False, **k):
        calls.append((modvar.whichSource, bool(isNorm), int(modvar.starIndex), int(modvar.zernIndex)))
        return compact_field(int(modvar.sbpIndex), bool(isEvalMode))
    g.stub('falco.model.compact', compact)
    fulls = []

    def full(mp_, modvar, isNorm=True):
        w.point()
        fulls.append((modvar.whichSource, bool(isNorm), int(modvar.starIndex), int(modvar.zernIndex)))
        return field(int(modvar.sbpIndex), int(modvar.wpsbpIndex), 0, 0, norm=False)
    g.stub('falco.model.full', full)
    if not parallel:
        mp.flagSim = g.choice('flagSim', [True, False])
    g.fn('falco.imaging.calc_psf_norm_factor')(mp)
    for si in range(N):
        g.ensure_eq('peak of the unocculted compact image', g.at(mp.Fend.compact.I00, si), g.np.max(g.np.abs(compact_field(si, False))**2))
        g.ensure_eq('peak at the evaluation sampling', g.at(mp.Fend.eval.I00, si), g.np.max(g.np.abs(compact_field(si, True))**2))
        for wi in range(W):
            g.ensure_eq('peak of the unocculted full image', g.at(mp.Fend.full.I00, si, wi),
                        g.np.max(g.np.abs(field(si, wi, 0, 0, norm=False))**2) if mp.flagSim else 1)
    g.ensure('unnormalised models of the first star', all(c == ('star', False, 0, 1) for c in calls + fulls) and len(calls) == 2 * N)
    g.ensure_arr('mirror 1 untouched', mp.dm1.V, mp.keep[0])
    g.ensure_arr('mirror 2 untouched', mp.dm2.V, mp.keep[1])
    g.cover('end')


@contract('P24', 'falco.imaging.calc_psf_norm_factor')
def normalisation_factors(g):
    normalisation(g, False)


@contract('P24', 'falco.imaging.calc_psf_norm_factor')
@contract('P22', 'falco.imaging.calc_psf_norm_factor')
def normalisation_factors_parallel(g):
    normalisation(g, True)


@contract('P24', 'falco.imaging.get_expected_summed_image')
def expected_image(g):
    """estimate plus the change of the compact model's field between the two commands, one star and piston modes only"""
    ind = g.choice('dm_ind', [(1,), (2,), (1, 2), (8, 9)])
    N = g.choice('Nsbp', [1, 2])
    ny, nx = g.int('Neta', 2, 3), g.int('Nxi', 2, 3)
    mask = g.array('mask', (ny, nx), 'bool')
    sw = g.array('sbp_weights', (N, 1), 'real', lo=0)
    npix = g.np.sum(mask)
    Eest = g.array('Eest', (npix, N), 'complex')
    mp = g.params(dm_ind=g.np.array(list(ind)), Nsbp=N, sbp_weights=sw, Fend=g.obj(Neta=ny, Nxi=nx, corr=g.obj(maskBool=mask, Npix=npix)))
    dDM, V, D = g.obj(), {}, {}
    for d in (1, 2, 8, 9):
        n = g.int('Nact%d' % d, 2, 3)
        sh = (n, n) if d < 3 else (n,)
        V[d], D[d] = g.array('V%d' % d, sh, 'real'), g.array('D%d' % d, sh, 'real')
        setattr(mp, 'dm%d' % d, g.obj(V=g.snapshot(V[d])))
        if d in ind:
            setattr(dDM, 'dDM%dV' % d, g.snapshot(D[d]))

    def model(vs, si):
        return g.opaque('model.compact', vs, (ny, nx), 'complex', params=(si,))
    ok = []

    def compact(mp_, modvar, **k):
        ok.append((modvar.whichSource, int(modvar.zernIndex), int(modvar.starIndex)) == ('star', 1, 0))
        return model([getattr(mp_, 'dm%d' % d).V for d in (1, 2, 8, 9)], int(modvar.sbpIndex))
    g.stub('falco.model.compact', compact)
    cvar = g.obj(Eest=g.snapshot(Eest))
    im = g.fn('falco.imaging.get_expected_summed_image')(mp, cvar, dDM)
    new = [V[d] for d in (1, 2, 8, 9)]
    old = [V[d] - D[d] if d in ind else V[d] for d in (1, 2, 8, 9)]
    Es = []
    for si in range(N):
        E2 = g.np.zeros((ny, nx), dtype=complex)
        E2[mask] = Eest[:, si]
        Es.append(E2)
    g.ensure_shape('size', im, (ny, nx))
    g.forall('weighted intensity of estimate + model change, zero outside the control region', (ny, nx), lambda i, j: g.eq(
        g.at(im, i, j), g.ite(g.at(mask, i, j), sum([g.at(sw, s, 0) * g.abs(
            g.at(Es[s], i, j) + g.at(model(new, s), i, j) - g.at(model(old, s), i, j))**2 for s in range(N)], 0), 0)))
    for d in (1, 2, 8, 9):
        g.ensure_arr('mirror %d is back at its command' % d, getattr(mp, 'dm%d' % d).V, V[d])
    g.ensure_arr('estimate untouched', cvar.Eest, Eest)
    g.ensure('fields of the unaberrated star', all(ok) and len(ok) == 2 * N)
    g.cover('end')


@contract('P24', 'falco.imaging.get_sim_offaxis_image_compact')
def off_axis_image(g):
    N, stars, ev = g.choice('case', [(1, 1, False), (3, 1, True), (2, 2, False)])
    ny, nx = g.int('Neta', 2, 3), g.int('Nxi', 2, 3)
    x, y = g.real('x'), g.real('y')
    wm = g.array('weightMat', (N, 2), 'real')
    mp = g.params(Nsbp=N, star=g.obj(count=stars), jac=g.obj(weightMat=wm))

    def model(si, st, ev_, x_, y_):
        return g.opaque('model.compact', [], (ny, nx), 'complex', params=(si, st, ev_), sym=(x_, y_))

    def compact(mp_, modvar, isNorm=True, isEvalMode=False, **k):
        g.ensure('normalised, unaberrated, off axis', modvar.whichSource == 'offaxis' and bool(isNorm) and int(modvar.zernIndex) == 1)
        return model(int(modvar.sbpIndex), int(modvar.starIndex), bool(isEvalMode), modvar.x_offset, modvar.y_offset)
    g.stub('falco.model.compact', compact)
    im = g.fn('falco.imaging.get_sim_offaxis_image_compact')(mp, x, y, isEvalMode=ev)
    g.forall('weighted sum over sub-bands and stars', (ny, nx), lambda i, j: g.eq(
        g.at(im, i, j), sum([g.at(wm, s, 0) * g.abs(g.at(model(s, t, ev, x, y), i, j))**2 for s in range(N) for t in range(stars)], 0)))
    g.cover('end')


# --------------------------------------------------------------------------------------------------- perfect estimate
MODES = [(1, 1, [(0, 1, 0)], [10], 10), (2, 2, [(0, 1, 0), (1, 1, 0), (1, 2, 0)], [-1, 1], 5), (1, 2, [(0, 1, 0), (0, 1, 1)], [-2, 2], 6),
         (2, 1, [(0, 1, 0), (0, 3, 0), (1, 1, 0), (0, 1, 1), (0, 3, 1), (1, 1, 1)], [-2, -1, 1, 2], 10), (1, 1, [(0, 1, 0)], [0], 0)]


def perfect(g, parallel):
    N, W, modes, pols, pol = g.choice('modes', MODES)
    ny, nx = g.int('Neta', 2, 4), g.int('Nxi', 2, 4)
    mask = g.array('mask', (ny, nx), 'bool')
    npix = g.np.sum(mask)
    lw = g.array('lambda_weights', (W, 1), 'real', lo=0)
    n = g.int('Nact', 2, 3)
    V1 = g.array('V1', (n, n), 'real')
    mp = g.params(Nsbp=N, Nwpsbp=W, flagParallel=parallel, Nthreads=2, Fend=g.obj(Neta=ny, Nxi=nx, corr=g.obj(maskBool=mask, Npix=npix)),
                  full=g.obj(pol_conds=list(pols), polaxis=-7, lambda_weights=lw), dm1=g.obj(V=g.snapshot(V1)),
                  jac=g.obj(Nmode=len(modes), sbp_inds=g.np.array([m[0] for m in modes]), zern_inds=g.np.array([m[1] for m in modes]),
                            star_inds=g.np.array([m[2] for m in modes])))
    w = pools.install(g, 'est') if parallel else pools.World()
    seen = []

    def field(si, wi, z, st):
        return g.opaque('model.full', [V1], (ny, nx), 'complex', params=(si, wi, z, st))

    def full(mp_, modvar, isNorm=True):
        w.point()
        seen.append((modvar.whichSource, bool(isNorm), int(mp_.full.polaxis)))
        return field(int(modvar.sbpIndex), int(modvar.wpsbpIndex), int(modvar.zernIndex), int(modvar.starIndex))
    g.stub('falco.model.full', full)
    ev = g.obj()
    g.fn('falco.est.perfect')(mp, ev)
    g.ensure('normalised model of the stars at the mean polarisation', all(s == ('star', True, pol) for s in seen) and len(seen) >= W * len(modes))

    def mean(m, i, j):
        si, z, st = modes[m]
        return sum([g.at(lw, wi, 0) * g.at(field(si, wi, z, st), i, j) for wi in range(W)], 0)
    g.ensure_shape('one column per mode', ev.Eest, (npix, len(modes)))
    for m, (si, z, st) in enumerate(modes):
        M = sum([g.at(lw, wi, 0) * field(si, wi, z, st) for wi in range(W)], 0)[mask]
        g.forall('field of the mode in the order of the control region', (npix,), lambda p: g.eq(g.at(ev.Eest, p, m), g.at(M, p)))
    for s in range(N):
        g.forall('image of a sub-band: intensity of its piston modes', (ny, nx), lambda i, j: g.eq(
            g.at(ev.imageArray, i, j, 0, s), sum([g.abs(mean(m, i, j))**2 for m, q in enumerate(modes) if q[0] == s and q[1] == 1], 0)))
    g.ensure_shape('no incoherent part', ev.IincoEst, (npix, len(modes)))
    g.forall('no incoherent part', (npix, len(modes)), lambda p, m: g.eq(g.at(ev.IincoEst, p, m), 0))
    g.ensure_arr('mirror untouched', mp.dm1.V, V1)
    g.cover('end')


@contract('P22', 'falco.est.perfect')
def perfect_estimate_parallel(g):
    perfect(g, True)


@contract('P22', 'falco.est.perfect')
def perfect_estimate_serial(g):
    perfect(g, False)


# ---------------------------------------------------------------------------------------------------------- Jacobian
@contract('P22', 'falco.model.models.jacobian')
def jacobian_columns(g):
    """serial and parallel: every column is the response of its own actuator, mode by mode"""
    par, ind, ele, nmode = g.choice('case', [(False, (1, 2), {1: [1, 3], 2: [0]}, 2), (True, (1, 2), {1: [1, 3], 2: [0]}, 2), (True, (2,), {1: [0], 2: [0, 2, 3]}, 1),
                                             (False, (1,), {1: [2], 2: [1]}, 2), (True, (1,), {1: [0, 3], 2: [1]}, 3)])
    npix, N = g.int('Npix', 1, 3), 4
    pad = 6
    mp = g.params(dm_ind=g.np.array(list(ind)), flagParallel=par, Nthreads=2, compact=g.obj(NdmPad=pad), layout='fourier', coro='vortex',
                  Fend=g.obj(corr=g.obj(Npix=npix)), jac=g.obj(Nmode=nmode))
    for d in (1, 2):
        setattr(mp, 'dm%d' % d, g.obj(V=g.array('V%d' % d, (2, 2), 'real'), act_ele=g.np.array(ele[d]), Nele=len(ele[d]), compact=g.obj(dx=0.5)))

    def layer(imode, d, a):
        return g.opaque('layer', [mp.dm1.compact.surfM, mp.dm2.compact.surfM], (npix,), 'complex', params=(imode, d, a))
    w = pools.install(g, 'model.models') if par else pools.World()
    steps = []

    def middle(mp_, imode, idm, iact):
        w.point()
        g.ensure('surfaces and fields are ready', 'precomp' in steps)
        return layer(int(imode), int(idm), int(iact))
    g.stub('falco.model.models._jac_middle_layer', middle)
    g.stub('falco.model.jacobians.precomp', lambda mp_: steps.append('precomp'))
    surf = {d: g.array('surf%d' % d, (pad, pad), 'real') for d in (1, 2)}

    def gen(dm, dx, n):
        g.ensure('compact sampling', dx == 0.5 and n == pad)
        return surf[1 if dm is mp.dm1 else 2]
    g.stub('falco.dm.gen_surf_from_act', gen)
    g.stub('falco.model.models.apply_ties_to_jac', lambda mp_, j: steps.append('ties'))
    J = g.fn('falco.model.models.jacobian')(mp)
    g.ensure('ties applied last', steps == ['precomp', 'ties'])
    for d in (1, 2):
        G = getattr(J, 'G%d' % d)
        g.ensure_arr('surface of the mirror, flat when it is not in use', getattr(mp, 'dm%d' % d).compact.surfM, surf[d] if d in ind else g.np.zeros((pad, pad)))
        g.ensure_shape('size', G, (npix, len(ele[d]), nmode))
        for k, a in enumerate(ele[d]):
            for m in range(nmode):
                L = layer(m, d, a)
                g.forall('column of the actuator', (npix,), lambda p: g.eq(g.at(G, p, k, m), g.at(L, p) if d in ind else 0))
    g.cover('end')


def input_field(g, kind, hlc=False):
    """what a model sends into the optics for one wavelength, star and source position"""
    full = kind == 'full'
    lab2, lab3 = [0, 1, 1, 2], [0, 1, 2, 2, 3, 4, 4, 5, 6]
    N, W, lab, si, wi = g.choice('band', [(1, 1, [0], 0, 0), (2, 2, lab2, 0, 1), (2, 2, lab2, 1, 0), (3, 3, lab3, 2, 1), (3, 3, lab3, 1, 2)])
    wi = wi if full else 0
    ny, nx = g.int('ny', 2, 3), g.int('nx', 2, 3)
    norm, off, own = g.choice('image', [(True, 'star', False), (True, 'offaxis', True), (False, 'star', True), (False, 'offaxis', False)])
    ev = False if full else g.choice('evaluation', [False, True])
    coros = [('HLC', 'fourier', 1), ('HLC', 'fourier', 0), ('HLC', 'fpm_scale', 1)]
    coro = g.choice('coronagraph', coros if hlc else [('vortex', 'fourier', 0)] + coros[:1])
    X, Y = g.array('X', (ny, nx), 'real'), g.array('Y', (ny, nx), 'real')
    sx, sy, w = g.array('sx', (2,), 'real'), g.array('sy', (2,), 'real'), g.array('w', (2,), 'real', lo=0)
    ax, ay, x0, y0 = g.real('ax', max=3), g.real('ay', max=3), g.real('xo', max=3), g.real('yo', max=3)
    lams = [500 + 10 * u for u in range(max(lab) + 1)]
    mat = g.np.array([[float(lams[lab[k * W + v]]) for v in range(W)] for k in range(N)])
    cen = g.np.array([float(lams[lab[k * W + W // 2]]) for k in range(N)])
    lam0 = g.real('lambda0', pos=True)
    E = g.array('E', (ny, nx, W, N) if full else (ny, nx, N), 'complex')
    my, mx = g.int('my', 1, 2), g.int('mx', 1, 2)
    nw = max(lab) + 1
    cube = g.array('fpms', (my, mx, nw if full else N), 'complex')

    def table(s, v):
        return g.opaque('lut', [], (my, mx), 'complex', params=(int(s), int(v)))
    I00 = g.array('I00', (N, W) if full else (N,), 'real', lo=1)
    J00 = g.array('J00', (N,), 'real', lo=1)
    stars = g.obj(xiOffsetVec=sx, etaOffsetVec=sy, weights=w)
    P2, P1 = g.obj(XsDL=X, YsDL=Y), g.obj(E=E)
    part = g.obj(lambdas=g.np.array([float(x) for x in lams]), lambdasMat=mat, star=stars)
    if coro[2]:
        part.fpmCube = cube
    mask0 = g.array('mask0', (my, mx), 'complex')
    if full:
        mp = g.params(full=part, star=stars, P2=g.obj(full=P2), P1=g.obj(full=P1), Fend=g.obj(full=g.obj(I00=I00)),
                      F3=g.obj(full=g.obj(mask=mask0)))
    else:
        mp = g.params(compact=part, P2=g.obj(compact=P2), P1=g.obj(compact=P1), F3=g.obj(compact=g.obj(mask=mask0)),
                      Fend=g.obj(compact=g.obj(I00=I00), eval=g.obj(I00=J00)))
    mp.sbp_centers, mp.lambda0, mp.coro, mp.layout = cen, lam0, coro[0], coro[1]
    mp.source_x_offset_norm, mp.source_y_offset_norm = ax, ay
    st = g.choice('star', [0, 1])
    mv = g.mvar()
    mv.sbpIndex, mv.wpsbpIndex, mv.starIndex, mv.zernIndex, mv.whichSource = si, wi, st, 1, off
    mv.x_offset, mv.y_offset = x0, y0
    own_wvl = float(lams[lab[si * W + wi]]) if full else g.at(cen, si)
    if own:
        mv.wvl = own_wvl
    E0 = g.snapshot(E)
    got = []
    res = g.array('Eout', (ny, nx), 'complex')

    def optics(mp_, wvl, Ein, normFac, *a, **k):
        m = getattr(mp_.F3, kind).mask
        got.append((wvl, g.snapshot(Ein), normFac, g.snapshot(m), a, k))
        return res
    luts = []

    def lut(mp_, s, v, which):
        luts.append((s, v, which))
        return table(s, v)
    g.stub('falco.hlc.gen_fpm_from_LUT', lut)
    g.stub('falco.model.models.' + ('full_Fourier' if full else 'compact_general'), optics)
    kw = dict(isNorm=norm) if full else dict(isNorm=norm, isEvalMode=ev)
    out = g.fn('falco.model.models.' + kind)(mp, mv, **kw)
    g.ensure_arr('the field of the optics is returned', out, res)
    g.ensure('the optics are used once', len(got) == 1)
    wvl, Ein, nf, m, a, k = got[0]
    g.ensure_eq('wavelength of the sub-band', wvl, own_wvl)
    want = (g.at(I00, si, wi) if full else g.at(J00 if ev else I00, si)) if norm else 0
    g.ensure_eq('normalisation of that wavelength and model', nf, want)

    def tilt(x, y, i, j):
        return g.expi(-(2 * g.np.pi * (x * g.at(X, i, j) + y * g.at(Y, i, j))) * lam0 / own_wvl)

    def field(i, j):
        f = g.sqrt(g.at(w, st)) * tilt(g.at(sx, st), g.at(sy, st), i, j)
        f = f * (g.at(E0, i, j, wi, si) if full else g.at(E0, i, j, si))
        if off == 'offaxis':
            f = f * tilt(x0, y0, i, j)
        return f if norm else f * tilt(ax, ay, i, j)
    g.ensure_shape('input field size', Ein, (ny, nx))
    g.forall('weighted, tilted pupil field', (ny, nx), lambda i, j: g.eq(g.at(Ein, i, j), field(i, j)))
    g.ensure_arr('the stored pupil field is untouched', getattr(mp.P1, kind).E, E0)
    g.ensure('fixed-size or wavelength-scaled mask', (a[0] if full and a else k.get('flagScaleFPM', False)) == (coro[1] == 'fpm_scale'))
    if not full:
        g.ensure('sampling of the requested plane', bool(a[0] if a else k.get('flagEval', False)) == ev)
    if coro[0] == 'HLC':
        if coro[2]:
            pg = lab[si * W + wi] if full else si
            g.forall('mask of that wavelength', (my, mx), lambda i, j: g.eq(g.at(m, i, j), g.at(cube, i, j, pg)))
        else:
            g.ensure('mask looked up for that wavelength', len(luts) == 1 and luts[0][0] == si and luts[0][2] == kind and
                     (not full or luts[0][1] == wi))
            g.ensure_arr('the looked-up mask is used', m, table(luts[0][0], luts[0][1]))
    if full:
        g.ensure_arr('the shared mask is untouched', mp.F3.full.mask, mask0)
    g.cover('end')


@contract('P24', 'falco.model.models.full')
def full_model_input(g):
    input_field(g, 'full')


@contract('P24', 'falco.model.models.compact')
def compact_model_input(g):
    input_field(g, 'compact')


@contract('P30', 'falco.model.models.full')
def full_model_mask(g):
    input_field(g, 'full', True)


@contract('P30', 'falco.model.models.compact')
def compact_model_mask(g):
    input_field(g, 'compact', True)
