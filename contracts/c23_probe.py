"""Pairwise probing (P23)."""
from pyvc.registry import contract, bounded

E = 'falco.est.'


def abs2(g, x):
    return g.re(x) * g.re(x) + g.im(x) * g.im(x)


def probe_world(g, star=False):
    which = g.choice('whichDM', [1, 2])
    n = g.int('Nact', 2, 4, max=12)
    m = g.int('NactOther', 2, 4)
    dms = {which: g.obj(Nact=n, dm_spacing=g.real('pitch', 0.001, pos=True, hi=0.002)), 3 - which: g.obj(Nact=m, dm_spacing=1.0)}
    got = []

    def fit(dm, surf):
        g.ensure('fitted to the probing mirror', dm is dms[which])
        g.ensure_shape('one height per actuator', surf, (n, n))
        got.append(surf)
        return surf
    g.stub('falco.dm.fit_surf_to_act', fit)
    return which, n, dms, got


@contract('P23', E + 'gen_pairwise_probe')
def rectangular_probe(g):
    """the probe's surface, and the opposite surface half a turn later"""
    which, n, dms, got = probe_world(g)
    D = g.real('D', 0.04, pos=True, hi=0.06)
    lam = g.real('lambda0', 5e-7, pos=True, hi=6e-7)
    I = g.real('Inorm', 1e-6, pos=True, hi=1e-4)
    x, y = g.real('xOffset', -3, hi=3), g.real('yOffset', -3, hi=3)
    s = g.choice('star', [0, 1])
    xi = [g.real('xi%d' % k, 1, hi=5, pos=True) for k in range(2)]
    eta = [g.real('eta%d' % k, -5, hi=5) for k in range(2)]
    w = [g.real('w%d' % k, 1, hi=5, pos=True) for k in range(2)]
    h = [g.real('h%d' % k, 1, hi=5, pos=True) for k in range(2)]
    gain = [g.real('gain%d' % k, 0.5, hi=2, pos=True) for k in range(2)]
    psi = g.real('psi', -3, hi=3)
    mp = g.params(lambda0=lam, dm1=dms[1], dm2=dms[2], P2=g.obj(D=D), est=g.obj(probe=g.obj(
        whichDM=which, xOffset=x, yOffset=y, xiOffset=xi, etaOffset=eta, width=w, height=h, gainFudge=gain)))
    f = g.fn(E + 'gen_pairwise_probe')
    a = f(mp, I, psi, s, 0)
    b = f(mp, I, psi + g.np.pi, s, 0)
    g.forall('opposite half a turn later', (n, n), lambda i, j: g.eq(g.at(a, i, j) + g.at(b, i, j), 0))

    def want(i, j):
        X = (j - (n - 1) / 2 - g.np.round(x)) / n
        Y = (i - (n - 1) / 2 - g.np.round(y)) / n
        c = n / (D / dms[which].dm_spacing)
        return gain[s] * 4 * g.np.pi * lam * g.sqrt(I) * g.np.sinc(w[s] * c * X) * g.np.sinc(h[s] * c * Y) * \
            g.np.cos(2 * g.np.pi * (xi[s] * c * X + eta[s] * c * Y) + psi)
    g.forall('height of the probe', (n, n), lambda i, j: g.eq(g.at(a, i, j), want(i, j)))
    g.cover('end')


@contract('P23', E + 'gen_pairwise_probe_square')
def square_probe(g):
    """the probe's surface along either axis, and the opposite surface half a turn later"""
    which, n, dms, got = probe_world(g)
    lam = g.real('lambda0', 5e-7, pos=True, hi=6e-7)
    I = g.real('Inorm', 1e-6, pos=True, hi=1e-4)
    x, y = g.real('xOffset', -3, hi=3), g.real('yOffset', -3, hi=3)
    R0 = g.real('radius', 0.5, pos=True, hi=4)
    gain = g.real('gain', 0.5, hi=2, pos=True)
    axis = g.choice('axis', ['x', 'y', 'X', 'Y'])
    psi = g.choice('psi', [0, None])
    if psi is None:
        psi = g.real('psi_', 0.1, hi=3, pos=True)
    mp = g.params(lambda0=lam, dm1=dms[1], dm2=dms[2], est=g.obj(probe=g.obj(
        whichDM=which, xOffset=x, yOffset=y, radius=R0, gainFudge=gain)))
    f = g.fn(E + 'gen_pairwise_probe_square')
    wide = g.choice('wide', [False, True])
    if wide:
        g.assume(R0 > n / 2)
        f(mp, I, psi, axis, 0)
        g.ensure_eq('radius limited to what the mirror can make', mp.est.probe.radius, n / 2)
        g.cover('wide')
        return
    g.assume(g.le(R0, n / 2))
    R = R0
    a = f(mp, I, psi, axis, 0)
    sinc, cos, pi = g.np.sinc, g.np.cos, g.np.pi

    def XY(i, j):
        return (j - (n - 1) / 2 - g.np.round(x)) / n, (i - (n - 1) / 2 - g.np.round(y)) / n
    A = gain * 4 * pi * lam * g.sqrt(I)

    def wave(i, j, ph):
        X, Y = XY(i, j)
        if axis.lower() == 'y':
            return A * sinc(R * X) * sinc(2 * R * Y) * cos(2 * pi * (R / 2) * X + ph)
        return A * sinc(2 * R * X) * sinc(R * Y) * cos(2 * pi * (R / 2) * Y + ph)

    def flat(i, j):
        X, Y = XY(i, j)
        return A * sinc(2 * R * X) * sinc(2 * R * Y)
    g.forall('height of the probe', (n, n), lambda i, j: g.eq(g.at(a, i, j), flat(i, j) if isinstance(psi, int) else wave(i, j, psi)))
    b = f(mp, I, psi + pi, axis, 0)
    g.forall('height half a turn later', (n, n), lambda i, j: g.eq(g.at(b, i, j), wave(i, j, psi + pi)))
    if not isinstance(psi, int):
        g.forall('opposite half a turn later', (n, n), lambda i, j: g.eq(g.at(a, i, j) + g.at(b, i, j), 0))
    g.cover('end')


def probing_world(g, npix, pairs, wavelengths, stars=1, drop=()):
    """probe commands of one actuator per pair; images and model fields linear in the commands of both mirrors"""
    which, used, itr, method, axis, sched = g.choice('setting', [
        (1, (1, 2), 0, 'pairwise', 'y', False), (2, (1, 2), 1, 'pairwise', 'alt', True), (1, (2,), 1, 'pairwise-rect', 'x', True),
        (2, (1,), 0, 'pwp-bp', 'y', False), (1, (1,), 0, 'pwp-bp-square', 'alternate', True)])
    na = {1: 2, 2: 3}
    V = {d: g.array('V%d' % d, (na[d], na[d]), 'real', max=3) for d in (1, 2)}
    mask = g.np.array([[True, False], [True, npix == 3]]) if npix > 1 else g.np.array([[False, True], [False, False]])
    pos = [(0, 0), (1, 0), (1, 1)][:npix] if npix > 1 else [(0, 1)]
    probes = [] if g.sym else [g.array('probe%d' % k, (na[which], na[which]), 'real', lo=0.1, max=2) for k in range(pairs)]
    # symbolic runs: given responses and probes (so that every probe reaches every pixel); fields and commands are arbitrary
    if g.sym:
        probes = [g.np.array([[1.0 + (a + 2 * b) * k for b in range(na[which])] for a in range(na[which])]) for k in range(1, pairs + 1)]
        G = {(s, d): g.np.array([[[[complex(1 + i + a, 2 * j - b + s) for b in range(na[d])] for a in range(na[d])] for j in range(2)] for i in range(2)])
             for s in range(wavelengths) for d in (1, 2)}
    else:
        G = {(s, d): g.array('G%d%d' % (s, d), (2, 2, na[d], na[d]), 'complex') for s in range(wavelengths) for d in (1, 2)}
    true = g.array('Etrue', (wavelengths, 2, 2), 'complex')
    model = g.array('Emodel', (wavelengths, 2, 2), 'complex')
    inco = g.array('inco', (wavelengths, 2, 2), 'real', lo=0, max=2)
    wts = g.array('weights', (wavelengths,), 'real', lo=0, max=1)
    probe = g.obj(whichDM=which, Npairs=pairs, axis=axis, rotation=0, xOffset=1, yOffset=2)
    ps = g.obj(xOffsetVec=None, yOffsetVec=None, rotationVec=None, InormProbeVec=None)
    if sched:
        ps = g.obj(xOffsetVec=g.np.array([4, 5]), yOffsetVec=g.np.array([6, 7]), rotationVec=g.np.array([8, 9]),
                   InormProbeVec=g.np.array([1e-5, 1e-6]))
    mp = g.params(dm_ind=g.np.array(list(used)), estimator=method, Nitr=2, Nsbp=wavelengths, sbp_weights=wts, flagPlot=False,
                  dm1=g.obj(Nact=2, V=g.snapshot(V[1]), act_ele=g.np.arange(4)), dm2=g.obj(Nact=3, V=g.snapshot(V[2]), act_ele=g.np.arange(9)),
                  est=g.obj(probe=probe, probeSchedule=ps, flagUseJac=False, InormProbeMax=1e-4, Ithreshold=1e9),
                  compact=g.obj(star=g.obj(count=stars)), jac=g.obj(Nmode=wavelengths),
                  Fend=g.obj(Neta=2, Nxi=2, corr=g.obj(Npix=npix, maskBool=mask), score=g.obj(maskBool=mask)))

    def field(base, s, v1, v2):
        def at(i, j):
            e = g.at(base, s, i, j)
            for d, v in ((1, v1), (2, v2)):
                for a in range(na[d]):
                    for b in range(na[d]):
                        e = e + g.at(G[s, d], i, j, a, b) * g.at(v, a, b)
            return e
        return at

    def loss(k, i, j):
        return 1e4 if k and ((k - 1) // 2, (i, j)) in drop else 0

    def grid(f):
        return g.np.array([[f(i, j) for j in range(2)] for i in range(2)])
    log = g.obj(images=[], settings=[])

    def image(mp_, s):
        f = field(true, s, mp_.dm1.V, mp_.dm2.V)
        k = len(log.images) % (1 + 2 * pairs)
        log.images.append((s, g.snapshot(mp_.dm1.V), g.snapshot(mp_.dm2.V)))
        return grid(lambda i, j: abs2(g, f(i, j)) + g.at(inco, s, i, j) - loss(k, i, j))

    def compact(mp_, mv, **kw):
        f = field(model, mv.sbpIndex, mp_.dm1.V, mp_.dm2.V)
        return grid(f)
    count = [0]

    def command(mp_, inorm, phase, *rest):
        k = count[0] % (2 * pairs)
        count[0] += 1
        log.settings.append((inorm, phase, rest, mp_.est.probe.xOffset, mp_.est.probe.yOffset))
        return probes[k // 2] * (1 if k % 2 == 0 else -1)
    g.stub('falco.imaging.get_sbp_image', image)
    g.stub('falco.model.compact', compact)
    g.stub(E + 'gen_pairwise_probe_square', command)
    g.stub(E + 'gen_pairwise_probe', command)
    g.stub('falco.plot.pairwise_probes', lambda *a: None)
    w = g.obj(which=which, used=used, itr=itr, V=V, pos=pos, probes=probes, G=G, true=true, inco=inco, wts=wts, sched=sched, axis=axis,
              method=method, log=log, loss=loss, grid=grid, field=field, na=na, pairs=pairs, n=wavelengths)
    return mp, w


def check_records(g, mp, ev, w):
    for d in (1, 2):
        g.ensure_arr('mirrors as found', getattr(mp, 'dm%d' % d).V, w.V[d])
    g.ensure_shape('mirrors in use as found', mp.dm_ind, (len(w.used),))
    for q, d in enumerate(w.used):
        g.ensure_eq('mirrors in use as found', g.at(mp.dm_ind, q), d)
    per = 1 + 2 * w.pairs
    g.ensure_eq('images taken', len(w.log.images), w.n * per)
    for q, (s, v1, v2) in enumerate(w.log.images):
        k = q % per
        g.ensure_eq('sub-band of the image', s, q // per)
        for d, v in ((1, v1), (2, v2)):
            def want(i, j):
                e = g.at(w.V[d], i, j)
                if d == w.which and k:
                    e = e + (1 if k % 2 else -1) * g.at(w.probes[(k - 1) // 2], i, j)
                return e
            g.forall('mirror command of the image: nominal plus probe', (w.na[d], w.na[d]), lambda i, j: g.eq(g.at(v, i, j), want(i, j)))
            if d == w.which:
                g.forall('recorded command of the image', (w.na[d], w.na[d]), lambda i, j: g.eq(
                    g.at(getattr(ev, 'dm%d' % d).Vall, i, j, k, s), want(i, j)))
        f = w.field(w.true, s, v1, v2)
        for i in range(2):
            for j in range(2):
                g.ensure_eq('recorded image', g.at(ev.imageArray, i, j, k, s), abs2(g, f(i, j)) + g.at(w.inco, s, i, j) - w.loss(k, i, j))
    g.forall('unprobed image', (2, 2), lambda i, j: g.eq(g.at(ev.Im, i, j), sum(
        g.at(w.wts, s) * g.at(ev.imageArray, i, j, 0, s) for s in range(w.n))))
    st = w.log.settings
    P = w.pairs
    for q, (inorm, phase, rest, x, y) in enumerate(st):
        k = q % (2 * P)
        g.ensure_eq('phases of a pair half a turn apart, pairs evenly spread', phase, (k // 2 + P * (k % 2)) * g.np.pi / P)
        g.ensure_eq('probe position', x, (4, 5)[w.itr] if w.sched else 1)
        g.ensure_eq('probe position', y, (6, 7)[w.itr] if w.sched else 2)
        g.ensure_eq('probe rotation', rest[-1], (8, 9)[w.itr] if w.sched else 0)
        if w.sched:
            g.ensure_eq('probe intensity', inorm, (1e-5, 1e-6)[w.itr])
        if w.method in ('pairwise', 'pwp-bp-square'):
            # alternating: every second pair, the other way round at every second iteration
            want = w.axis if len(w.axis) == 1 else 'xy'[(k // 2 + w.itr) % 2]
            g.ensure('axis of the discontinuity', rest[0] == want)


@contract('P23', E + 'pairwise_probing')
def mirrors_images_and_records(g):
    pairs, npix, n = g.choice('case', [(2, 1, 1), (1, 1, 2), (3, 1, 1)])
    mp, w = probing_world(g, npix, pairs, n)
    ev = g.obj(Itr=w.itr)
    g.fn(E + 'pairwise_probing')(mp, ev)
    check_records(g, mp, ev, w)
    g.cover('end')


@bounded('P23', E + 'pairwise_probing', 'one or three dark-hole pixels, 2 or 3 probe pairs, 1 or 2 sub-bands, random fields, responses and incoherent light')
def field_is_recovered(g):
    """with responses known exactly, the estimate is the field at the mirrors as found, and the incoherent remainder is exact"""
    pairs, npix, n = g.choice('case', [(2, 1, 1), (2, 3, 2), (3, 3, 1)])
    mp, w = probing_world(g, npix, pairs, n)
    dE = {}
    for s in range(n):
        for p, (i, j) in enumerate(w.pos):
            for k in range(pairs):
                dE[s, p, k] = sum(g.at(w.G[s, w.which], i, j, a, b) * g.at(w.probes[k], a, b) for a in range(w.na[w.which]) for b in range(w.na[w.which]))
            # two probes of clearly different phase reach the pixel
            z = [dE[s, p, k] for k in range(pairs)]
            g.assume(min(abs(v) for v in z) > 1e-2)
            g.assume(abs((z[0] * g.conj(z[1])).imag) > 1e-2)
    jac = g.choice('flagUseJac', [False, True])
    ev = g.obj(Itr=w.itr)
    J = g.obj()
    if jac:
        mp.est.flagUseJac = True
        d = w.which
        setattr(J, 'G%d' % d, g.np.stack([g.np.array([[w.G[s, d][i, j, a, b] for a in range(w.na[d]) for b in range(w.na[d])] for (i, j) in w.pos])
                                          for s in range(n)], axis=2))
    g.fn(E + 'pairwise_probing')(mp, ev, J)
    check_records(g, mp, ev, w)
    for s in range(n):
        f = w.field(w.true, s, w.V[1], w.V[2])
        for p, (i, j) in enumerate(w.pos):
            g.ensure('field of the pixel', abs(g.at(ev.Eest, p, s) - f(i, j)) <= 1e-6 * (1 + abs(f(i, j))))
            g.ensure('incoherent light of the pixel', abs(g.at(ev.IincoEst, p, s) - g.at(w.inco, s, i, j)) <= 1e-5 * (1 + abs(f(i, j))**2))
    g.cover('end')


@bounded('P23', E + 'pairwise_probing', 'three dark-hole pixels, 3 probe pairs, 1 sub-band, random fields; 0, 1 or 2 pairs of a pixel without measured amplitude')
def unusable_pairs(g):
    """a pair that measures no amplitude at a pixel is left out there; with fewer than two, or beyond the threshold, the estimate is zero"""
    bad = g.choice('bad', [(), (1,), (0, 2), (0, 1)])
    px = g.choice('pixel', [0, 1, 2])
    at = [(0, 0), (1, 0), (1, 1)]
    mp, w = probing_world(g, 3, 3, 1, drop=tuple((k, at[px]) for k in bad))
    good = [k for k in range(3) if k not in bad]
    for p, (i, j) in enumerate(w.pos):
        z = [sum(g.at(w.G[0, w.which], i, j, a, b) * g.at(w.probes[k], a, b) for a in range(w.na[w.which]) for b in range(w.na[w.which]))
             for k in range(3)]
        g.assume(min(abs(v) for v in z) > 1e-2)
        g.assume(max(abs(v) for v in z) < 50)
        u = [z[k] for k in (good if p == px else range(3))]
        g.assume(len(u) < 2 or max(abs((u[0] * g.conj(v)).imag) for v in u[1:]) > 1e-1)
    f = w.field(w.true, 0, w.V[1], w.V[2])
    limit = g.choice('limit', [False, True])
    lim = abs(f(*w.pos[0])) ** 2 * 1.01
    if limit:
        for p in (1, 2):
            g.assume(not 0.9 < abs(f(*w.pos[p])) ** 2 / lim < 1.1)
        mp.est.Ithreshold = lim
    ev = g.obj(Itr=w.itr)
    g.fn(E + 'pairwise_probing')(mp, ev)
    check_records(g, mp, ev, w)
    for p, (i, j) in enumerate(w.pos):
        want = 0 if (p == px and len(good) < 2) or (limit and abs(f(i, j)) ** 2 > lim) else f(i, j)
        g.ensure('field of the pixel', abs(g.at(ev.Eest, p, 0) - want) <= 1e-5 * (1 + abs(want)))
        rest = g.at(ev.imageArray, i, j, 0, 0) - abs(g.at(ev.Eest, p, 0)) ** 2
        g.ensure('incoherent light of the pixel', abs(g.at(ev.IincoEst, p, 0) - rest) <= 1e-5 * (1 + abs(rest)))
    g.cover('end')
