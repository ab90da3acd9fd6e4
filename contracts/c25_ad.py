"""Control by algorithmic differentiation (P25)."""
from pyvc.registry import contract, bounded
from c17_ctrl import mirrors, in_use

M = 'falco.model.models.'
ADJ = [  # coronagraph, apodiser, rotations, distances P2-DM1 and DM1-DM2, array sizes at the mirrors and at the Lyot stop,
    # sub-bands of the modes, regularisation
    ('vortex', True, True, 0, 0.2, 4, 2, [1, 0], -2.0), ('FLC', False, True, 0.1, 0.2, 3, 3, [1], 0.0),
    ('LC', False, True, 0, 0.2, 4, 2, [0], -1.0), ('HLC', True, True, 0.1, -0.1, 2, 4, [0], 0.0),
    ('SPLC', True, False, 0, 0.2, 4, 4, [0], -2.0)]


class Chain(object):
    """propagation steps replaced by logged operators with arbitrary results; the specification replays the chain and checks
    that each step got the field and the settings it should"""
    SIG = dict(relay=(('E', 'n', 'centering'), dict(centering='pixel')), ptp=(('E', 'L', 'lam', 'z'), {}),
               mft_p2f=(('E', 'fl', 'lam', 'dx', 'dxi', 'Nxi', 'deta', 'Neta', 'centering'), dict(centering='pixel')),
               mft_f2p=(('E', 'fl', 'lam', 'dxi', 'deta', 'dx', 'N', 'centering'), dict(centering='pixel')),
               mft_p2v2p=(('E', 'charge', 'beam', 'inVal', 'outVal', 'reverseGradient'), dict(reverseGradient=False)))

    def __init__(self, g):
        self.g, self.log = g, {}
        for k in self.SIG:
            g.stub('falco.prop.' + k, self.step(k))

    def bind(self, k, a, kw):
        names, dflt = self.SIG[k]
        v = dict(dflt)
        v.update(zip(names, a))
        v.update(kw)
        return v

    def shape(self, k, v):
        return (v['Neta'], v['Nxi']) if k == 'mft_p2f' else (v['N'], v['N']) if k == 'mft_f2p' else v['E'].shape

    def step(self, k):
        def f(*a, **kw):
            v = self.bind(k, a, kw)
            if k == 'relay' and int(v['n']) == 0:
                return v['E']
            v['E'] = self.g.snapshot(v['E'])
            n = len(self.log.setdefault(k, []))
            r = self.g.array('%s_%d' % (k, n), self.shape(k, v), 'complex')
            self.log[k].append((v, self.g.snapshot(r)))
            return r
        return f

    def spec(self, k, *a, **kw):
        g, v = self.g, self.bind(k, a, kw)
        if k == 'relay' and v['n'] == 0:
            return v['E']
        g.ensure('%s is used' % k, bool(self.log.get(k)))
        same = [c for c in self.log[k] if all(c[0][q] == v[q] for q in v if isinstance(v[q], (str, bool, int)) and isinstance(c[0][q], (str, bool, int)))]
        w, r = (same or self.log[k])[0]
        self.log[k] = [c for c in self.log[k] if c[0] is not w]
        for q in v:
            if q == 'E':
                g.ensure_arr('field given to %s' % k, w['E'], v['E'])
            elif isinstance(v[q], (str, bool)):
                g.ensure('%s of %s' % (q, k), w[q] == v[q])
            else:
                g.ensure_eq('%s of %s' % (q, k), w[q], v[q])
        return r

    def done(self):
        self.g.ensure('no further propagation', not any(self.log.values()))


@contract('P25', M + 'compact_reverse_gradient')
def cost_and_gradient(g):
    """cost, and back-propagation of its derivative through the planes of the model in reverse"""
    coro, apod, rot, d1, d12, npad, n4, modes, reg = g.choice('optics', ADJ)
    nm = len(modes)
    ny, nx, n3 = g.int('Neta', 2, 3), g.int('Nxi', 2, 3), g.int('Nfpm', 2, 3)
    N = {d: g.int('Nact%d' % d, 2, 3) for d in (1, 2)}
    dm, u_of, n = {}, {}, 0
    for d in (1, 2):
        act = g.index_set('act%d' % d, N[d] * N[d])
        dm[d] = g.obj(V=g.array('V%d' % d, (N[d], N[d]), 'real'), Nact=N[d], NactTotal=N[d] * N[d], act_ele=act, Nele=g.len(act),
                      VtoH=g.array('VtoH%d' % d, (N[d], N[d]), 'real'), dead_map=g.array('dead%d' % d, (N[d], N[d]), 'bool'),
                      useDifferentiableModel=True)
    for d in (1, 2):
        g.assume(g.le(1, dm[d].Nele))
    n = dm[1].Nele + dm[2].Nele
    got = {}

    def back(d):
        def render_backprop(protograd, wfe=True):
            got[d] = (g.snapshot(protograd), wfe)
            a = g.array('back%d' % d, (N[d], N[d]), 'real')
            got['out%d' % d] = g.snapshot(a)
            return a
        return g.obj(render_backprop=render_backprop)
    for d in (1, 2):
        dm[d].differentiableModel = back(d)
    ones = g.np.ones
    legend = g.np.concatenate((1 * ones(dm[1].Nele, dtype=int), 2 * ones(dm[2].Nele, dtype=int)))
    mask = g.array('corr', (ny, nx), 'bool')
    g.assume(g.le(1, g.np.sum(mask)))
    npix = g.np.sum(mask)
    w = g.array('weights', (nm,), 'real', lo=0)
    lam, I00 = g.array('lam', (2,), 'real', lo=1), g.array('I00', (2,), 'real', lo=1)
    fl, dx2, dx4, dx3 = (g.real(k, pos=True, max=3) for k in ('fl', 'dx2', 'dx4', 'dxi3'))
    dxi, deta, beam, utu = (g.real(k, pos=True, max=3) for k in ('dxi', 'deta', 'Nbeam', 'utu'))
    lyot, ap = g.array('lyot', (n4, n4), 'complex'), g.array('apod', (npad, npad), 'complex')
    fpm = g.array('fpm', (n3, n3), 'complex')
    nrel = dict(Nrelay2to3=1, Nrelay3to4=2, NrelayFend=3)
    mp = g.params(coro=coro, flagRotation=rot, flagApod=apod, d_P2_dm1=d1, d_dm1_dm2=d12, fl=fl, centering='pixel',
                  dm1=dm[1], dm2=dm[2], sbp_centers=lam,
                  compact=g.obj(NdmPad=npad), ctrl=g.obj(uLegend=legend, ad=g.obj(utu_scale_fac=utu)),
                  jac=g.obj(Nmode=nm, sbp_inds=g.np.array(modes), zern_inds=g.np.array([3, 1][:nm]), star_inds=g.np.array([0, 2][:nm]), weights=w),
                  Fend=g.obj(corr=g.obj(maskBool=mask), compact=g.obj(I00=I00), dxi=dxi, deta=deta),
                  P1=g.obj(compact=g.obj(Nbeam=beam)), P2=g.obj(compact=g.obj(dx=dx2)), P3=g.obj(compact=g.obj(mask=ap)),
                  P4=g.obj(compact=g.obj(dx=dx4, Narr=n4, croppedMask=lyot)),
                  F3=g.obj(VortexCharge=6, compact=g.obj(mask=fpm, dxi=dx3, deta=dx3, Nxi=n3, Neta=n3)), **nrel)
    ch = Chain(g)
    f = ch.spec
    u = g.array('u', (n,), 'real')
    Eest = g.array('Eest', (npix, nm), 'complex')
    arrs = {k: [g.array('%s%d' % (k, m), s, t) for m in range(nm)] for k, s, t in (
        ('EA', (ny, nx), 'complex'), ('E1', (npad, npad), 'complex'), ('E2', (npad, npad), 'complex'), ('S2', (npad, npad), 'real'))}
    EB = [g.array('EB%d' % m, (ny, nx), 'complex') for m in range(nm)]
    V0 = {d: g.snapshot(dm[d].V) for d in (1, 2)}
    u0, Eest0 = g.snapshot(u), g.snapshot(Eest)
    EA0 = [g.snapshot(x) for x in arrs['EA']]
    calls = []

    def model(mp_, mv, isNorm=True, isEvalMode=False, useFPM=True, forRevGradModel=False):
        calls.append((mv.sbpIndex, mv.zernIndex, mv.starIndex, mv.whichSource, isNorm, isEvalMode, useFPM, forRevGradModel,
                      g.snapshot(mp_.dm1.V), g.snapshot(mp_.dm2.V)))
        k = [m for m in range(nm) if modes[m] == int(mv.sbpIndex)][0]
        return g.snapshot(EB[k])
    g.stub(M + 'compact', model)
    cost, grad = g.fn(M + 'compact_reverse_gradient')(u, reg, mp, Eest, arrs['EA'], arrs['E1'], arrs['E2'], arrs['S2'])
    g.ensure('one model run per mode', len(calls) == nm)
    off = {1: 0, 2: dm[1].Nele}
    for m, c in enumerate(calls):
        g.ensure('the mode of the control', int(c[0]) == modes[m] and int(c[1]) == [3, 1][m] and int(c[2]) == [0, 2][m] and c[3] == 'star')
        g.ensure('normalised, with the mask, at the detector sampling', (c[4], c[5], c[6], c[7]) == (True, False, True, False))
        for d in (1, 2):
            V = c[7 + d]
            g.forall('the change is added to the actuators in use', (dm[d].Nele,), lambda k: g.eq(
                g.at(V, g.at(dm[d].act_ele, k) // N[d], g.at(dm[d].act_ele, k) % N[d]),
                g.at(V0[d], g.at(dm[d].act_ele, k) // N[d], g.at(dm[d].act_ele, k) % N[d]) + g.at(u0, off[d] + k)))
            g.forall('and to no others', (N[d], N[d]), lambda i, j: g.or_(
                in_use(g, dm[d], i * N[d] + j), g.eq(g.at(V, i, j), g.at(V0[d], i, j))))
    for d in (1, 2):
        g.ensure_arr('the mirrors are back at their commands', dm[d].V, V0[d])
    for a, b in zip([u, Eest] + arrs['EA'], [u0, Eest0] + EA0):
        g.ensure_arr('inputs untouched', a, b)
    # cost
    new = []
    for m in range(nm):
        E2 = g.np.zeros((ny, nx), dtype=complex)
        E2[mask] = Eest0[:, m]
        new.append(E2 + (EB[m] - EA0[m]))
    coef = utu * 10.0 ** reg
    want = sum([g.at(w, m) * g.np.sum(abs(new[m][mask]) ** 2) for m in range(nm)], 0) + coef * g.np.sum(u0 ** 2)
    g.ensure_eq('cost', cost, want)
    # gradient
    bar = {1: 0, 2: 0}
    conj, exp, pad = g.np.conj, g.np.exp, g.fn('falco.util.pad_crop')
    k0 = 1 if rot else 0
    for m in range(nm):
        wl = g.at(lam, modes[m])
        kk = 2. * 2 * g.np.pi / wl
        E = g.at(w, m) * 2 / g.sqrt(g.at(I00, modes[m])) * new[m] * mask
        E = f('mft_f2p', E, -fl, wl, dxi, deta, dx4, n4)
        E = conj(pad(lyot, n4)) * f('relay', E, k0 * 3)
        if coro == 'vortex':
            E = f('mft_p2v2p', f('relay', pad(E, npad), k0 * 2 - 1), 6, beam / 2., 0.3, 5, reverseGradient=True)
        else:
            sign = 1 if coro in ('FLC', 'SPLC') else -1
            m3 = fpm if sign > 0 else (g.at(fpm, 0, 0) if coro == 'HLC' else 1.) - fpm
            F = f('mft_p2f', f('relay', sign * E, k0 * 2 - 1), -fl, wl, dx2, dx3, n3, dx3, n3)
            F = f('mft_f2p', conj(m3) * F, -fl, wl, dx3, dx3, dx4, npad)
            E = F if sign > 0 else pad(f('relay', E, k0 * 2), npad) + F
        if apod:
            E = conj(pad(ap, npad)) * E
        E = f('relay', E, k0)
        if d1 + d12:
            E = f('ptp', E, dx2 * npad, wl, d1 + d12)
        E = conj(exp(1j * kk * arrs['S2'][m])) * E
        bar[2] = bar[2] - kk * g.np.imag(E * conj(arrs['E2'][m]))
        E = f('ptp', E, dx2 * npad, wl, -d12)
        bar[1] = bar[1] - kk * g.np.imag(E * conj(arrs['E1'][m]))
    ch.done()
    g.ensure_shape('one entry per actuator in use', grad, (n,))
    for d in (1, 2):
        g.ensure('surfaces, not wavefronts', got[d][1] is False)
        g.forall('surface derivative at the mirror', (npad, npad), lambda i, j: g.eq(g.at(got[d][0], i, j), g.at(bar[d], i, j)))
        o, a, m = got['out%d' % d], dm[d].act_ele, N[d]

        def entry(k):
            i, j = g.at(a, k) // m, g.at(a, k) % m
            return g.ite(g.at(dm[d].dead_map, i, j), 0, g.at(dm[d].VtoH, i, j) * g.at(o, i, j))
        g.forall('derivative with respect to the actuator', (dm[d].Nele,), lambda k: g.eq(
            g.at(grad, off[d] + k), entry(k) + 2 * coef * g.at(u0, off[d] + k)))
    g.cover('end')


@contract('P25', 'falco.ctrl._ad_efc')
def optimised_step(g):
    """start, bounds, objective and use of the optimiser's answer"""
    mp, ind, ds = mirrors(g, sets=((1, 2),), hi=3)
    for d in (1, 2):
        m = ds[d]
        m.Vmin, m.Vmax, m.biasMap = g.real('Vmin%d' % d), g.real('Vmax%d' % d), g.array('bias%d' % d, (m.Nact, m.Nact), 'real')
    modes, model, ni = g.choice('case', [([0], False, 1), ([1, 0], True, 0)])
    nm = len(modes)
    Ny, Nx = g.int('Neta', 1, 3), g.int('Nxi', 1, 3)
    mask = g.array('mask', (Ny, Nx), 'bool')
    g.assume(g.le(1, g.np.sum(mask)))
    for d in (1, 2):
        g.assume(g.le(1, ds[d].Nele))
    img = g.array('Itotal', (Ny, Nx), 'real')
    mp.ctrl.flagUseModel = model
    mp.ctrl.ad = g.obj(maxiter=5, maxfun=6, maxcor=7, iprint=0)
    mp.Fend = g.obj(corr=g.obj(maskBool=mask))
    mp.jac = g.obj(Nmode=nm, sbp_inds=g.np.array(modes), zern_inds=g.np.array([3, 1][:nm]), star_inds=g.np.array([0, 2][:nm]))
    cvar = g.obj(Eest=g.array('Eest', (2, nm), 'complex'))
    fields = {(m, k): g.array('f%s%d' % (k, m), (2, 2), 'complex') for m in range(nm) for k in ('E', 'D1', 'D2', 'S1', 'S2')}
    V0 = {d: g.snapshot(ds[d].V) for d in (1, 2)}
    n = ds[1].Nele + ds[2].Nele
    x = g.array('solution', (n,), 'real')
    seen, runs, opt = {}, [], []

    def compact(mp_, mv, isNorm=True, isEvalMode=False, useFPM=True, forRevGradModel=False):
        m = [k for k in range(nm) if modes[k] == int(mv.sbpIndex)][0]
        runs.append((m, int(mv.zernIndex), int(mv.starIndex), mv.whichSource, isNorm, isEvalMode, useFPM, forRevGradModel,
                     g.snapshot(mp_.dm1.V), g.snapshot(mp_.dm2.V)))
        return tuple(fields[m, k] for k in ('E', 'D1', 'D2', 'S1', 'S2'))

    def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, **k):
        opt.append((fun, g.snapshot(x0), args, jac, g.snapshot(bounds), g.snapshot(ds[1].V), g.snapshot(ds[2].V)))
        return g.obj(x=x, success=True, nit=3)

    def image(which):
        def f(mp_, *a):
            seen['image'] = which
            for d in (1, 2):
                seen[d] = g.snapshot(getattr(mp_, 'dm%d' % d).V)
            return img
        return f
    objective = lambda *a: None
    g.stub('falco.model.compact', compact)
    g.stub('falco.model.compact_reverse_gradient', objective)
    g.stub('scipy.optimize.minimize', minimize)
    g.stub('falco.imaging.get_summed_image', image('full'))
    g.stub('falco.imaging.get_expected_summed_image', image('compact'))
    reg = g.real('reg')
    vals = [(g.real('other'), 7.0), (g.real('other2'), 7.0)]
    vals[ni] = (reg, 1.0)
    Iavg, dDM = g.fn('falco.ctrl._ad_efc')(ni, vals, mp, cvar)
    g.ensure('one optimisation', len(opt) == 1)
    fun, x0, args, jac, bounds, *_ = opt[0]
    g.ensure('cost and gradient together', jac is True)
    g.ensure('every mode linearised once, in order', [r[0] for r in runs] == list(range(nm)))
    for r in runs:
        g.ensure('mode', r[1:8] == ([3, 1][r[0]], [0, 2][r[0]], 'star', True, False, True, True))
        for d in (1, 2):
            g.ensure_arr('at the current command', r[7 + d], V0[d])
    g.ensure_eq('regularisation of the trial', args[0], reg)
    g.ensure_arr('estimated field', args[2], cvar.Eest)
    for k, q in zip(('E', 'D1', 'D2', 'S2'), args[3:]):
        g.ensure('one linearisation per mode', len(q) == nm)
        for m in range(nm):
            g.ensure_arr('linearisation of the mode', q[m], fields[m, k])
    g.ensure_shape('start', x0, (n,))
    g.forall('starts from no change', (n,), lambda k: g.eq(g.at(x0, k), 0))
    g.ensure_shape('bounds', bounds, (n, 2))
    off = 0
    for d in (1, 2):
        m, N = ds[d], ds[d].Nact

        def total(k):
            a = g.at(m.act_ele, k)
            return g.at(V0[d], a // N, a % N) + g.at(m.biasMap, a // N, a % N)
        g.forall('at the lower bound the total voltage is the smallest allowed', (m.Nele,), lambda k: g.eq(
            total(k) + g.at(bounds, off + k, 0), m.Vmin))
        g.forall('at the upper bound the total voltage is the largest allowed', (m.Nele,), lambda k: g.eq(
            total(k) + g.at(bounds, off + k, 1), m.Vmax))
        dV = getattr(dDM, 'dDM%dV' % d)
        g.forall('the solution is the change of command', (m.Nele,), lambda k: g.eq(
            g.at(dV, g.at(m.act_ele, k) // N, g.at(m.act_ele, k) % N), m.weight * g.at(x, off + k)))
        g.forall('unused actuators do not move', (N, N), lambda i, j: g.or_(in_use(g, m, i * N + j), g.eq(g.at(dV, i, j), 0)))
        g.forall('the image is taken at command + change', (N, N), lambda i, j: g.eq(
            g.at(seen[d], i, j), g.at(V0[d], i, j) + g.at(dV, i, j)))
        g.ensure_arr('mirror back at its command', m.V, V0[d])
        off = off + m.Nele
    g.ensure('image of the model or of the instrument', seen['image'] == ('compact' if model else 'full'))
    g.ensure_eq('mean over the dark hole', Iavg, g.np.mean(img[mask]))
    g.ensure_arr('image kept', dDM.Itotal, img)
    g.cover('end')


@contract('P25', 'falco.ctrl.set_utu_scale_fac')
def penalty_scale(g):
    """scale of the command penalty, and the actuator selection it borrows"""
    ind, nmode, masks = g.choice('case', [((1,), 2, (9, 7)), ((2,), 1, (15, 13)), ((1, 2), 1, (6, 11)), ((1, 2), 2, (14, 5))])
    npix = g.int('Npix', 2, 3)
    ds, G, sel, old = {}, {}, {}, {}
    for d in (1, 2):
        N = 2
        act = g.index_set('act%d' % d, N * N)
        bits = [bool(masks[d - 1] >> q & 1) for q in range(4)]
        sel[d] = g.np.array(bits)
        k = sum(bits)
        ds[d] = g.obj(V=g.array('V%d' % d, (N, N), 'real'), Nact=N, NactTotal=N * N, act_ele=act, Nele=g.len(act))
        old[d] = (g.snapshot(act), ds[d].Nele)
        G[d] = g.array('G%d' % d, (npix, k, nmode), 'complex')
    w = g.array('modew', (nmode,), 'real', lo=0)
    mp = g.params(dm_ind=g.np.array(list(ind)), jac=g.obj(Nmode=nmode, weights=w), Fend=g.obj(corr=g.obj(Npix=npix)), dm1=ds[1], dm2=ds[2],
                  ctrl=g.obj(ad=g.obj(dm1_act_mask_for_jac_norm=sel[1], dm2_act_mask_for_jac_norm=sel[2])))
    order = []

    def jacobian(mp_):
        order.append('jacobian')
        for d in ind:
            a = getattr(mp_, 'dm%d' % d)
            want = [q for q in range(4) if masks[d - 1] >> q & 1]
            g.ensure_shape('selected actuators', a.act_ele, (len(want),))
            g.ensure_eq('their number', a.Nele, len(want))
            for k, q in enumerate(want):
                g.ensure_eq('selected, in order', g.at(a.act_ele, k), q)
        return g.obj(**{'G%d' % d: G[d] for d in ind})
    g.stub('falco.imaging.calc_psf_norm_factor', lambda mp_: order.append('normalise'))
    g.stub('falco.model.jacobian', jacobian)
    g.fn('falco.ctrl.set_utu_scale_fac')(mp)
    g.ensure('normalised before the Jacobian', order == ['normalise', 'jacobian'])
    s = mp.ctrl.ad.utu_scale_fac
    hit = False
    for d in ind:
        def diag(a):
            return sum([g.at(w, m) * g.sum(npix, lambda p: g.re(g.conj(g.at(G[d], p, a, m)) * g.at(G[d], p, a, m))) for m in range(nmode)], 0)
        n = bin(masks[d - 1]).count('1')
        for a in range(n):
            g.ensure('no diagonal entry is larger', g.le(diag(a), s + (0 if g.sym else 1e-9)))
            hit = g.or_(hit, g.eq(diag(a), s))
    g.ensure('it is one of them', hit)
    for d in (1, 2):
        g.ensure_arr('actuators in use again', ds[d].act_ele, old[d][0])
        g.ensure_eq('their number again', ds[d].Nele, old[d][1])
    g.cover('end')
