"""Deformable-mirror commands: constraints, quantisation, gain, rendered height map."""
from pyvc.registry import contract, bounded


def mirror(g, pins=True, ties=False, dead=True):
    n = g.int('n', 1, 6)
    V = g.array('V', (n, n), 'real')
    bias = g.array('bias', (n, n), 'real')
    vmin = g.real('vmin')
    vmax = vmin + g.real('range', pos=True)
    P = g.index_set('pinned', n * n) if pins else g.np.array([])
    npin = g.len(P) if pins else 0
    Vp = g.array('Vpinned', (npin,), 'real') if pins else g.np.array([])
    dmap = g.array('dead', (n, n), 'bool') if dead else None
    dm = g.obj(Nact=n, V=V, biasMap=bias, Vmin=vmin, Vmax=vmax, pinned=P, Vpinned=Vp, tied=g.np.zeros((0, 2)), dead=[])
    if dead:
        dm.dead_map = dmap
    if pins:
        # pinned commands respect the limits
        g.assume_forall((npin,), lambda k: g.and_(
            g.le(vmin, g.at(Vp, k) + g.at(bias, g.at(P, k) // n, g.at(P, k) % n)),
            g.le(g.at(Vp, k) + g.at(bias, g.at(P, k) // n, g.at(P, k) % n), vmax)))
    return n, dm, V, bias, vmin, vmax, P, npin, Vp, dmap


def limited(g, V, bias, vmin, vmax, dmap, i, j):
    v = g.ite(g.at(dmap, i, j), 0, g.at(V, i, j)) if dmap is not None else g.at(V, i, j)
    b = g.at(bias, i, j)
    return g.ite(v + b < vmin, vmin - b, g.ite(v + b > vmax, vmax - b, v))


@contract('P13', 'falco.dm.enforce_constraints')
def limits_without_pins(g):
    n, dm, V, bias, vmin, vmax, P, npin, Vp, dmap = mirror(g, pins=False)
    V0 = g.snapshot(V)
    g.fn('falco.dm.enforce_constraints')(dm)
    g.ensure_shape('map shape', dm.V, (n, n))
    g.forall('total voltage within the limits', (n, n), lambda i, j: g.and_(
        g.le(vmin, g.at(dm.V, i, j) + g.at(bias, i, j)), g.le(g.at(dm.V, i, j) + g.at(bias, i, j), vmax)))
    g.forall('only out-of-range and dead actuators move', (n, n), lambda i, j: g.eq(
        g.at(dm.V, i, j), limited(g, V0, bias, vmin, vmax, dmap, i, j)))
    g.ensure_arr('bias untouched', dm.biasMap, bias)
    g.cover('end')


@contract('P13', 'falco.dm.enforce_constraints')
def pinned_keep_their_command(g):
    n, dm, V, bias, vmin, vmax, P, npin, Vp, dmap = mirror(g)
    V0 = g.snapshot(V)
    P0, Vp0 = g.snapshot(P), g.snapshot(Vp)
    g.fn('falco.dm.enforce_constraints')(dm)
    g.forall('pinned actuators sit at their pinned command', (npin,), lambda k: g.eq(
        g.at(dm.V, g.at(P0, k) // n, g.at(P0, k) % n), g.at(Vp0, k)))
    g.forall('total voltage within the limits', (n, n), lambda i, j: g.and_(
        g.le(vmin, g.at(dm.V, i, j) + g.at(bias, i, j)), g.le(g.at(dm.V, i, j) + g.at(bias, i, j), vmax)))
    g.forall('other actuators: limited command', (n, n), lambda i, j: g.implies(
        g.not_(g.exists((npin,), lambda k: g.eq(g.at(P0, k), i * n + j))),
        g.eq(g.at(dm.V, i, j), limited(g, V0, bias, vmin, vmax, dmap, i, j))))
    g.cover('end')


@contract('P13', 'falco.dm.enforce_constraints')
def enforcing_again_changes_nothing(g):
    n, dm, V, bias, vmin, vmax, P, npin, Vp, dmap = mirror(g, pins=g.choice('pins', [False, True]))
    f = g.fn('falco.dm.enforce_constraints')
    # the state after one call, by its contract: in range, pinned at their command, dead at zero
    g.assume_forall((n, n), lambda i, j: g.and_(g.le(vmin, g.at(V, i, j) + g.at(bias, i, j)),
                                                g.le(g.at(V, i, j) + g.at(bias, i, j), vmax)))
    g.assume_forall((n, n), lambda i, j: g.implies(g.at(dmap, i, j), g.eq(g.at(V, i, j), 0)))
    g.assume_forall((npin,), lambda k: g.eq(g.at(V, g.at(P, k) // n, g.at(P, k) % n), g.at(Vp, k)))
    V0 = g.snapshot(V)
    f(dm)
    g.ensure_arr('commands unchanged', dm.V, V0)
    g.ensure_eq('no actuator added to the pinned list', g.len(dm.pinned), npin)
    g.ensure_eq('no value added to the pinned list', g.len(dm.Vpinned), npin)
    g.cover('end')


@contract('P13', 'falco.dm.enforce_constraints')
def dead_actuators_and_tied_pairs(g):
    n = g.int('n', 1, 5)
    V = g.array('V', (n, n), 'real')
    bias = g.real('bias')
    vmin, vmax = bias - g.real('lo', pos=True), bias + g.real('hi', pos=True)
    nd, npair = g.choice('dead, pairs', [(0, 1), (1, 0), (1, 1), (2, 0), (0, 2)])
    dead = [g.int('dead%d' % k, 0, 24) for k in range(nd)]
    for d in dead:
        g.assume(d < n * n)
    T = [g.int('tie%d' % k, 0, 24) for k in range(4)]
    for t in T:
        g.assume(t < n * n)
    for a in range(4):
        for b in range(a):
            g.assume(g.not_(g.eq(T[a], T[b])))
    tied = g.np.array([[T[0], T[1]], [T[2], T[3]]][:npair]) if npair else g.np.zeros((0, 2))
    dm = g.obj(Nact=n, V=V, biasMap=bias * g.np.ones((n, n)), Vmin=vmin, Vmax=vmax, pinned=g.np.array([]),
               Vpinned=g.np.array([]), tied=tied, dead=dead)
    V0 = g.snapshot(V)
    g.fn('falco.dm.enforce_constraints')(dm)
    at = lambda q: g.at(dm.V, q // n, q % n)
    for k in range(npair):
        g.ensure_eq('tied pair at one command', at(T[2 * k + 1]), at(T[2 * k]))
    g.forall('limits hold', (n, n), lambda i, j: g.and_(
        g.le(vmin, g.at(dm.V, i, j) + bias), g.le(g.at(dm.V, i, j) + bias, vmax)))
    seconds = [T[2 * k + 1] for k in range(npair)]

    def expected(i, j):
        isdead = g.or_(False, *[g.eq(d, i * n + j) for d in dead])
        v = g.ite(isdead, 0, g.at(V0, i, j))
        v = g.ite(v + bias < vmin, vmin - bias, g.ite(v + bias > vmax, vmax - bias, v))
        return g.or_(g.eq(g.at(dm.V, i, j), v), *[g.eq(s, i * n + j) for s in seconds])
    g.forall('dead actuators at zero command, others limited', (n, n), expected)
    g.cover('end')


@contract('P15', 'falco.dm.discretize_surf')
def whole_steps(g):
    m, n = g.int('m', 1, 5), g.int('n', 1, 5)
    V = g.array('V', (m, n), 'real')
    G = g.array('VtoH', (m, n), 'real')
    g.assume_forall((m, n), lambda i, j: g.not_(g.eq(g.at(G, i, j), 0)))
    step = g.real('step', 1e-3, pos=True)
    how = g.choice('how', ['round', 'floor', 'ceil', 'fix', 'Round', 'FLOOR'])
    dm = g.obj(V=V, VtoH=G, HminStep=step)
    V0, G0 = g.snapshot(V), g.snapshot(G)
    out = g.fn('falco.dm.discretize_surf')(dm, how)
    g.ensure('returns the mirror', out is dm)
    g.ensure_shape('shape', dm.Vquantized, (m, n))
    g.ensure_arr('command untouched', dm.V, V0)
    g.ensure_arr('gain untouched', dm.VtoH, G0)
    h = lambda i, j: g.at(V0, i, j) * g.at(G0, i, j)
    q = lambda i, j: g.at(dm.Vquantized, i, j) * g.at(G0, i, j)
    tol = 1e-9 if not g.sym else 0
    k = lambda i, j: g.floor(q(i, j) / step + g.frac(1, 2))
    g.forall('whole steps', (m, n), lambda i, j: g.eq(q(i, j), k(i, j) * step))
    lo = how.lower()
    if lo == 'round':
        g.forall('nearest step', (m, n), lambda i, j: g.and_(
            g.le(q(i, j) - h(i, j), step / 2), g.le(h(i, j) - q(i, j), step / 2)))
    if lo == 'floor':
        g.forall('below, within a step', (m, n), lambda i, j: g.and_(
            g.le(q(i, j), h(i, j)), g.le(h(i, j), q(i, j) + step)))
    if lo == 'ceil':
        g.forall('above, within a step', (m, n), lambda i, j: g.and_(
            g.le(h(i, j), q(i, j)), g.le(q(i, j), h(i, j) + step)))
    if lo == 'fix':
        g.forall('towards zero, within a step', (m, n), lambda i, j: g.ite(
            h(i, j) >= 0,
            g.and_(g.le(q(i, j), h(i, j)), g.le(h(i, j), q(i, j) + step), g.le(0, q(i, j))),
            g.and_(g.le(h(i, j), q(i, j)), g.le(q(i, j), h(i, j) + step), g.le(q(i, j), 0))))
    def less_than_a_step(i, j):
        if g.sym:
            return g.and_(g.not_(g.le(step, q(i, j) - h(i, j))), g.not_(g.le(step, h(i, j) - q(i, j))))
        from fractions import Fraction as F
        v, a, s = (F(float(x)) for x in (V0[i, j], G0[i, j], step))
        if F(float(v) * float(a)) != v * a or F(float(v) * float(a) / float(s)) != v * a / s:
            return True     # rounded arithmetic: only the bounds above
        return abs(F(float(dm.Vquantized[i, j])) * a - v * a) < s
    g.forall('never a full step away', (m, n), less_than_a_step)
    g.cover('end')


@contract('P15', 'falco.dm.discretize_surf')
def rounding_rule_checked(g):
    n = g.int('n', 1, 4)
    dm = g.obj(V=g.array('V', (n, n), 'real'), VtoH=g.np.ones((n, n)), HminStep=g.real('step', 1e-3, pos=True))
    f = g.fn('falco.dm.discretize_surf')
    g.raises('unknown rule', ValueError, lambda: f(dm, 'nearest'))
    g.raises('not a string', TypeError, lambda: f(dm, 3))
    g.raises('not a string', TypeError, lambda: f(dm, None))


@contract('P16', 'falco.dm.update_gain_map')
def gain_is_the_derivative_of_the_height(g):
    n = g.int('n', 1, 5)
    V = g.array('V', (n, n), 'real')
    bias = g.array('bias', (n, n), 'real')
    G = g.array('VtoH', (n, n), 'real')
    fit = g.choice('fit', ['linear', 'poly1', 'quadratic', 'poly2', 'fourier2', 'Quadratic', 'LINEAR', 'Fourier2'])
    perpix = g.choice('maps', [False, True])
    co = (lambda s: g.array(s, (n, n), 'real')) if perpix else (lambda s: g.real(s))
    cf = {s: co(s) for s in ('p1', 'p2', 'p3', 'a0', 'a1', 'a2', 'b1', 'b2', 'w')}
    dm = g.obj(V=V, biasMap=bias, VtoH=G, fitType=fit, **cf)
    V0, G0 = g.snapshot(V), g.snapshot(G)
    g.fn('falco.dm.update_gain_map')(dm)
    g.ensure_arr('command untouched', dm.V, V0)
    c = lambda s, i, j: g.at(cf[s], i, j) if perpix else cf[s]
    U = lambda i, j: g.at(V0, i, j) + g.at(bias, i, j)
    lo = fit.lower()
    if lo in ('linear', 'poly1'):
        g.ensure_arr('constant gain kept', dm.VtoH, G0)
    elif lo in ('quadratic', 'poly2'):
        g.forall('d/dV of p1 V^2 + p2 V + p3', (n, n), lambda i, j: g.eq(
            g.at(dm.VtoH, i, j), 2 * c('p1', i, j) * U(i, j) + c('p2', i, j)))
    else:
        def der(i, j):
            w = c('w', i, j)
            e1, e2 = g.expi(w * U(i, j)), g.expi(2 * w * U(i, j))
            return w * (-c('a1', i, j) * g.im(e1) + c('b1', i, j) * g.re(e1)
                        - 2 * c('a2', i, j) * g.im(e2) + 2 * c('b2', i, j) * g.re(e2))
        g.forall('d/dV of the two-harmonic series', (n, n), lambda i, j: g.eq(g.at(dm.VtoH, i, j), der(i, j)))
    g.cover('end')


@contract('P16', 'falco.dm.update_gain_map')
def missing_coefficients_rejected(g):
    n = g.int('n', 1, 4)
    Z = g.np.zeros((n, n))
    f = g.fn('falco.dm.update_gain_map')
    names = {'quadratic': ['p1', 'p2', 'p3'], 'fourier2': ['a0', 'a1', 'a2', 'b1', 'b2', 'w']}
    for fit in names:
        for miss in names[fit]:
            dm = g.obj(V=Z, biasMap=Z, VtoH=Z, fitType=fit, **{s: 1.0 for s in names[fit] if s != miss})
            g.raises('%s without %s' % (fit, miss), ValueError, lambda: f(dm))
    g.raises('unknown fit', ValueError, lambda: f(g.obj(V=Z, biasMap=Z, VtoH=Z, fitType='cubic')))


ORI = {'rot0': lambda n, i, j: (i, j), 'rot90': lambda n, i, j: (j, n - 1 - i), 'rot180': lambda n, i, j: (n - 1 - i, n - 1 - j),
       'rot270': lambda n, i, j: (n - 1 - j, i)}


def oriented(name, n, i, j):
    """position in the command map of the actuator shown at row i, column j"""
    a, b = ORI[name[-6:].lstrip('x') if False else 'rot' + name.split('rot')[1]](n, i, j)
    return (a, n - 1 - b) if name.startswith('flipx') else (a, b)


@contract('P14', 'falco.dm.gen_surf_from_act')
def surface_uses_the_constrained_oriented_command(g):
    n = g.int('n', 1, 5)
    ori = g.choice('orientation', ['rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0', 'flipxrot90', 'flipxrot180', 'flipxrot270', 'Rot90', None])
    quant = g.choice('quantised', [None, 'default', 'floor'])
    cen = g.choice('centering', ['pixel', 'interpixel'])
    zyx = g.choice('zyx', [None, False, True])
    Nout = g.int('Nout', 1, 8)
    dx = g.real('dx', 1e-3, pos=True)
    sp = g.real('spacing', 1e-3, pos=True)
    V = g.array('V', (n, n), 'real')
    Vc = g.array('Vconstrained', (n, n), 'real')
    Vq = g.array('Vquantised', (n, n), 'real')
    G = g.array('VtoH', (n, n), 'real')
    S = g.array('surface', (Nout, Nout), 'real')
    kw = dict(xtilt=g.real('xt'), ytilt=g.real('yt'), zrot=g.real('zr'), inf_sign='+', inf_fn='f.fits', xc=g.real('xc'), yc=g.real('yc'))
    dm = g.obj(Nact=n, V=V, VtoH=G, centering=cen, dm_spacing=sp, useDifferentiableModel=False, **kw)
    if ori is not None:
        dm.orientation = ori
    if zyx is not None:
        dm.flagZYX = zyx
    if quant is not None:
        dm.HminStep = 1.0
    if quant == 'floor':
        dm.HminStepMethod = 'floor'
    log = []

    def enforce(d):
        log.append('enforce')
        g.ensure('constraints enforced on this mirror', d is dm)
        d.V = Vc
        return d

    def disc(d, how):
        log.append('discretize')
        g.ensure('quantised after the constraints', d.V is Vc and d is dm)
        g.ensure('configured rounding rule', how == ('floor' if quant == 'floor' else 'round'))
        d.Vquantized = Vq
        return d

    def prop(wf, hm, xc, yc, spacing=0., **k):
        log.append('render')
        src = Vc if quant is None else Vq
        g.ensure_shape('height map shape', hm, (n, n))
        o = (ori or 'rot0').lower()
        g.forall('height map is the gain times the command, oriented', (n, n), lambda i, j: g.eq(
            g.at(hm, i, j), g.at(G, *oriented(o, n, i, j)) * g.at(src, *oriented(o, n, i, j))))
        sh = g.ite(cen == 'interpixel', -(dx / 2 / sp), 0)
        g.ensure_eq('x centre', xc, kw['xc'] - sh)
        g.ensure_eq('y centre', yc, kw['yc'] - sh)
        g.ensure_eq('actuator spacing', spacing, sp)
        for q, w in (('XTILT', 'xtilt'), ('YTILT', 'ytilt'), ('ZTILT', 'zrot')):
            g.ensure_eq('tilt ' + q, k[q], kw[w])
        g.ensure('rotation order', ('ZYX' in k) == (zyx is True) and ('XYZ' in k) == (zyx is not True))
        g.ensure('influence function', k['inf_sign'] == '+' and k['inf_fn'] == 'f.fits')
        return S
    g.stub('falco.dm.enforce_constraints', enforce)
    g.stub('falco.dm.discretize_surf', disc)
    g.stub('falco.dm.propcustom_dm', prop)
    g.stub('falco.proper.prop_begin', lambda *a, **k: None)
    out = g.fn('falco.dm.gen_surf_from_act')(dm, dx, Nout)
    g.ensure('each step once, in order', log == ['enforce'] + (['discretize'] if quant else []) + ['render'])
    g.ensure_arr('rendered surface returned', out, S)
    g.cover('end')


@contract('P14', 'falco.dm.gen_surf_from_poke_cube')
def surface_is_the_sum_of_pokes(g):
    n = g.int('n', 1, 3)
    Nb = g.int('Nbox', 1, 4)
    N = g.int('Npad', 1, 9)
    model = g.choice('model', ['compact', 'full'])
    V = g.array('V', (n, n), 'real')
    G = g.array('VtoH', (n, n), 'real')
    C = g.array('cube', (Nb, Nb, n * n), 'real')
    ll = g.array('lowerleft', (2, n * n), 'int', lo=0, max=5)
    g.assume_forall((2, n * n), lambda i, k: g.le(g.at(ll, i, k) + Nb, N))
    # no influence function small enough to be skipped
    g.assume_forall((n * n,), lambda k: g.np.sum(g.np.abs(C[:, :, k])) > 1e-12)
    part = dict(NdmPad=N, Nbox=Nb, inf_datacube=C, xy_box_lowerLeft=ll)
    dm = g.obj(V=V, VtoH=G, NactTotal=n * n, **({} if model == 'compact' else part))
    if model == 'compact':
        dm.compact = g.obj(**part)
    V0 = g.snapshot(V)
    out = g.fn('falco.dm.gen_surf_from_poke_cube')(dm, model)
    g.ensure_shape('surface shape', out, (N, N))

    def ref(i, j):
        def term(k):
            r, c = i - g.at(ll, 1, k), j - g.at(ll, 0, k)
            inside = g.and_(r >= 0, r < Nb, c >= 0, c < Nb)
            return g.ite(inside, g.at(V0, k // n, k % n) * g.at(G, k // n, k % n) * g.at(C, g.ite(inside, r, 0), g.ite(inside, c, 0), k), 0)
        return g.sum(n * n, term)
    g.forall('sum over actuators of command x gain x influence', (N, N), lambda i, j: g.eq(g.at(out, i, j), ref(i, j)))
    g.ensure_arr('command untouched', dm.V, V0)
    g.cover('end')
