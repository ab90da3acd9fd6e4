"""Focal-plane masks: thickness lookup (P30) and dark-hole regions (P31)."""
from pyvc.registry import contract, bounded

HLC = 'falco.hlc.'


@contract('P30', HLC + 'discretize_fpm_surf')
def thickness_indices(g):
    ny, nx, n = g.int('ny', 1, 4), g.int('nx', 1, 4), g.int('n', 1, 6)
    t0, dt = g.real('t0', lo=0), g.real('dt', pos=True)
    surf = g.array('surf', (ny, nx), 'real')
    surf0 = g.snapshot(surf)
    # the table's thicknesses: equally spaced, in increasing order
    t = t0 + dt * g.np.arange(n)
    ind = g.fn(HLC + 'discretize_fpm_surf')(surf, t, dt)
    g.ensure_shape('one index per pixel', ind, (ny, nx))
    g.forall('index within the table', (ny, nx), lambda i, j: g.and_(g.le(0, g.at(ind, i, j)), g.le(g.at(ind, i, j), n - 1)))
    top = t0 + dt * (n - 1)

    def nm(i, j):
        return g.min2(g.max2(10**9 * g.at(surf0, i, j), t0), top)
    g.forall('nearest tabulated thickness', (ny, nx), lambda i, j: g.le(
        g.abs(t0 + dt * g.at(ind, i, j) - nm(i, j)), dt / 2 + (0 if g.sym else 1e-9 * (1 + abs(top)))))
    g.ensure_arr('surface untouched', surf, surf0)
    g.cover('end')


def lut_world(g, N, W, lab):
    ny, nx = g.int('ny', 1, 3), g.int('nx', 1, 3)
    nd, nm = 3, 2
    lams = [500 + 10 * u for u in range(max(lab) + 1)]
    cc = g.array('tableC', (nd, nm, N), 'complex')
    cf = g.array('tableF', (nd, nm, max(lab) + 1), 'complex')
    mp = g.params(Nsbp=N, Nwpsbp=W, complexTransCompact=cc, complexTransFull=cf, t_diel_bias_nm=g.real('bias', lo=0),
                  t_metal_nm_vec=g.np.array([0., 1.]), t_diel_nm_vec=g.np.array([0., 1., 2.]), dt_metal_nm=1., dt_diel_nm=2.,
                  sbp_centers=g.np.array([float(500 + 10 * lab[k * W + W // 2]) for k in range(N)]),
                  full=g.obj(lambdas=g.np.array([float(x) for x in lams]),
                             lambdasMat=g.np.array([[float(lams[lab[k * W + w]]) for w in range(W)] for k in range(N)])),
                  dm8=g.obj(name=8), dm9=g.obj(name=9))
    s8, s9 = g.array('metal', (ny, nx), 'real'), g.array('diel', (ny, nx), 'real')
    i8, i9 = g.array('imetal', (ny, nx), 'int', lo=0, max=nm - 1), g.array('idiel', (ny, nx), 'int', lo=0, max=nd - 1)
    g.assume_forall((ny, nx), lambda i, j: g.and_(g.le(g.at(i8, i, j), nm - 1), g.le(g.at(i9, i, j), nd - 1)))
    kinds, calls = [], []

    def surface(dm, kind):
        kinds.append((dm.name, kind))
        return (s8 if dm.name == 8 else s9) * 1.0

    def disc(s, t, dt):
        calls.append((g.snapshot(s), g.len(t), dt))
        return i8 if g.len(t) == 2 else i9
    g.stub(HLC + 'gen_fpm_surf_from_cube', surface)
    g.stub(HLC + 'discretize_fpm_surf', disc)

    def check(kind):
        g.ensure('surfaces of both layers at that model', sorted(set(kinds)) == [(8, kind), (9, kind)])
        g.ensure('each layer with its own table', sorted((c[1], c[2]) for c in calls) == [(2, 1.), (3, 2.)])
        for s, n, dt in calls:
            if n == 2:
                g.ensure_arr('metal thickness', s, s8)
            else:
                g.forall('dielectric thickness includes its bias', (ny, nx), lambda i, j: g.eq(
                    g.at(s, i, j), g.at(s9, i, j) + mp.t_diel_bias_nm * 1e-9))
    return mp, ny, nx, cc, cf, i8, i9, check


BANDS = [(1, 1, [0]), (3, 1, [0, 1, 2]), (1, 3, [0, 1, 2]), (2, 2, [0, 1, 1, 2]), (3, 3, [0, 1, 2, 2, 3, 4, 4, 5, 6]), (2, 3, [0, 1, 2, 2, 3, 4])]


@contract('P30', HLC + 'gen_fpm_from_LUT')
def mask_from_table(g):
    N, W, lab = g.choice('band', BANDS)
    mp, ny, nx, cc, cf, i8, i9, check = lut_world(g, N, W, lab)
    si, wi = g.choice('si', list(range(N))), g.choice('wi', list(range(W)))
    kind = g.choice('model', ['compact', 'full'])
    fpm = g.fn(HLC + 'gen_fpm_from_LUT')(mp, si, wi, kind)
    g.ensure_shape('mask size', fpm, (ny, nx))
    tab, page = (cc, si) if kind == 'compact' else (cf, lab[si * W + wi])
    g.forall('table entry of both thicknesses at that wavelength', (ny, nx), lambda i, j: g.eq(
        g.at(fpm, i, j), g.at(tab, g.at(i9, i, j), g.at(i8, i, j), page)))
    check(kind)
    g.cover('end')


@contract('P30', HLC + 'gen_fpm_cube_from_LUT')
def mask_cube_from_table(g):
    N, W, lab = g.choice('band', BANDS)
    mp, ny, nx, cc, cf, i8, i9, check = lut_world(g, N, W, lab)
    kind = g.choice('model', ['compact', 'full'])
    cube, a8, a9 = g.fn(HLC + 'gen_fpm_cube_from_LUT')(mp, kind)
    tab, n = (cc, N) if kind == 'compact' else (cf, max(lab) + 1)
    g.ensure_shape('one page per wavelength', cube, (ny, nx, n))
    g.forall('table entry of both thicknesses at each wavelength', (ny, nx, n), lambda i, j, k: g.eq(
        g.at(cube, i, j, k), g.at(tab, g.at(i9, i, j), g.at(i8, i, j), k)))
    check(kind)
    g.cover('end')


@contract('P30', HLC + 'gen_fpm_surf_from_cube')
def surface_is_superposition(g):
    """one influence function per actuator, placed at the actuator's box"""
    N, nb, nact = g.int('N', 2, 5), g.int('nb', 1, 2), g.choice('actuators', [1, 2, 3])
    g.assume(nb <= N)
    kind = g.choice('model', ['compact', 'full'])
    V, H = g.array('V', (nact,), 'real'), g.array('VtoH', (nact,), 'real')
    cube = g.array('inf', (nb, nb, nact), 'real')
    low = g.array('box', (2, nact), 'int', lo=0, max=1)
    g.assume_forall((2, nact), lambda i, k: g.le(g.at(low, i, k), N - nb))
    part = g.obj(NdmPad=N, Nbox=nb, inf_datacube=cube, xy_box_lowerLeft=low)
    other = g.obj(NdmPad=N + 1, Nbox=nb, inf_datacube=cube, xy_box_lowerLeft=low)
    dm = g.obj(NactTotal=nact, V=V, VtoH=H, compact=part if kind == 'compact' else other, NdmPad=N, Nbox=nb,
               inf_datacube=cube, xy_box_lowerLeft=low)
    if kind == 'compact':
        dm.NdmPad = N + 1
    s = g.fn(HLC + 'gen_fpm_surf_from_cube')(dm, kind)
    g.ensure_shape('size of that model', s, (N, N))

    # actuators without influence or gain are left out
    used = [g.and_(g.le(1e-8, g.np.sum(g.np.abs(cube[:, :, k]))), g.le(1e-12, g.abs(g.at(H, k)))) for k in range(nact)]

    def total(i, j):
        r = 0
        for k in range(nact):
            y, x = i - g.at(low, 1, k), j - g.at(low, 0, k)
            r = r + g.ite(g.and_(used[k], g.le(0, y), y < nb, g.le(0, x), x < nb), g.at(V, k) * g.at(H, k) * g.at(cube, y, x, k), 0)
        return g.max2(r, 0)
    g.forall('superposition of the actuators, never negative', (N, N), lambda i, j: g.eq(g.at(s, i, j), total(i, j)))
    g.cover('end')


# ------------------------------------------------------------ P31 software masks
SW = 'falco.mask.falco_gen_SW_mask'
SIDES = [('right', 0, 1), ('l', 2, 1), ('top', 1, 1), ('bottom', 3, 1), ('both', 0, 2), ('tb', 1, 2)]
ALL = [('r', 0, 1), ('right', 0, 1), ('l', 2, 1), ('left', 2, 1), ('t', 1, 1), ('top', 1, 1), ('u', 1, 1), ('up', 1, 1),
       ('b', 3, 1), ('bottom', 3, 1), ('d', 3, 1), ('down', 3, 1), ('lr', 0, 2), ('rl', 0, 2), ('leftright', 0, 2),
       ('rightleft', 0, 2), ('both', 0, 2), ('tb', 1, 2), ('bt', 1, 2), ('ud', 1, 2), ('du', 1, 2), ('topbottom', 1, 2),
       ('bottomtop', 1, 2), ('updown', 1, 2), ('downup', 1, 2)]


def even_ceil_spec(g, name, n, x):
    g.ensure(name + ' even', n % 2 == 0)
    g.ensure(name + ' smallest', g.and_(g.le(x, n + (0 if g.sym else 1e-9)), n - 2 < x))


@contract('P31', SW)
def axes_and_size(g):
    res, fov = g.real('res', lo=1, hi=3), g.real('FOV', pos=True, hi=3)
    c = g.choice('centering', ['pixel', 'interpixel'])
    shape = g.choice('shape', [None, 'circle', 'square', 'rect', 'D'])
    given = g.choice('size', ['derived', 'FOV', 'xiFOV', 'N'])
    inp = dict(pixresFP=res, rhoInner=0.5, rhoOuter=fov, angDeg=180, whichSide='both', centering=c)
    xo, yo = g.real('xo', hi=2), g.real('yo', hi=2)
    inp.update(xiOffset=xo, etaOffset=yo)
    if shape is not None:
        inp['shape'] = shape
    wx = wy = fov
    k = 2 if shape in ('square', 'rect') else 1
    if given == 'FOV':
        inp['rhoOuter'] = 1.25
        inp['FOV'] = fov
    wx, wy = k * fov + g.abs(xo), k * fov + g.abs(yo)
    if given == 'xiFOV':
        wx, wy = g.real('xiFOV', pos=True, hi=3), g.real('etaFOV', pos=True, hi=3)
        inp.update(xiFOV=wx, etaFOV=wy)
    if given == 'N':
        nx, ny = 2 * g.int('hx', 1, 4), 2 * g.int('hy', 1, 4)
        inp.update(Nxi=nx, Neta=ny)
    m, xis, etas = g.fn(SW)(inp)
    half = 1 if c == 'pixel' else 0
    NX, NY = g.len(xis), g.len(etas)
    if given == 'N':
        g.ensure_eq('columns as given', NX, nx)
        g.ensure_eq('rows as given', NY, ny)
    else:
        even_ceil_spec(g, 'columns', NX, 2 * wx * res + half)
        even_ceil_spec(g, 'rows', NY, 2 * wy * res + half)
    g.ensure_shape('rows are eta, columns are xi', m, (NY, NX))
    off = 0 if c == 'pixel' else 1
    g.forall('xi in units of lambda/D', (NX,), lambda j: g.eq(2 * res * g.at(xis, j), 2 * j - NX + off))
    g.forall('eta in units of lambda/D', (NY,), lambda i: g.eq(2 * res * g.at(etas, i), 2 * i - NY + off))
    g.cover('end')


def sector(g, shapes, sides, centerings):
    res = g.real('res', lo=1, hi=3)
    rin, rout = g.real('rin', lo=0, hi=2), g.real('rout', pos=True, hi=4)
    ang, clock = g.real('ang', lo=0, hi=360), g.real('clock', hi=360)
    xo, yo = g.real('xo', hi=2), g.real('yo', hi=2)
    nx, ny = 2 * g.int('hx', 1, 4), 2 * g.int('hy', 1, 4)
    side, q, both = g.choice('side', sides)
    c = g.choice('centering', centerings)
    shape = g.choice('shape', shapes)
    inp = dict(pixresFP=res, rhoInner=rin, rhoOuter=rout, angDeg=ang, whichSide=side, centering=c, Nxi=nx, Neta=ny,
               xiOffset=xo, etaOffset=yo, clockAngDeg=clock, shape=shape)
    keep = dict(inp)
    m, xis, etas = g.fn(SW)(inp)
    g.ensure('inputs untouched', sorted(inp) == sorted(keep) and all(inp[k] is keep[k] for k in keep))
    off = 0 if c == 'pixel' else 1
    rad = g.np.pi / 180
    kind = shape.lower()
    axis = clock * rad + q * (g.np.pi / 2)
    tol = 1e-9

    def regions(i, j):
        x = (2 * j - nx + off) / (2 * res) - xo
        y = (2 * i - ny + off) / (2 * res) - yo
        rho, th = g.np.sqrt(x * x + y * y), g.np.arctan2(y, x)
        u, v = rho * g.np.cos(th - axis), rho * g.np.sin(th - axis)

        def inside(e):
            ri, ro = rin - e, rout + e
            if kind in ('circle', 'annulus'):
                s = g.and_(g.le(ri, rho), g.le(rho, ro))
            elif kind == 'd':
                s = g.and_(g.or_(g.le(ri, u), g.le(u, -ri)), g.le(rho, ro))
            else:
                s = g.and_(g.le(-ro, u), g.le(u, ro), g.le(-ro, v), g.le(v, ro))
                s = g.and_(s, g.le(ri, rho) if kind == 'square' else g.or_(g.le(ri, u), g.le(u, -ri)))

            def near(a):
                return g.le(g.abs(g.np.angle(g.np.exp(1j * (th - a)))), ang * rad / 2 + e)
            return g.and_(s, g.or_(near(axis), near(axis + g.np.pi)) if both == 2 else near(axis))
        return inside
    g.ensure_shape('size', m, (ny, nx))
    g.forall('pixels of the region are selected', (ny, nx), lambda i, j: g.implies(regions(i, j)(-tol), g.at(m, i, j)))
    g.forall('no other pixel is selected', (ny, nx), lambda i, j: g.implies(g.at(m, i, j), regions(i, j)(tol)))
    g.cover('end')


@contract('P31', SW, trials=120)
def circular_regions(g):
    sector(g, ['circle', 'annulus'], ALL, ['pixel'])


@contract('P31', SW, trials=120)
def other_shapes(g):
    sector(g, ['square', 'rect', 'rectangle', 'D', 'Square'], SIDES, ['interpixel'])


@contract('P31', SW)
def unknown_settings_rejected(g):
    f = g.fn(SW)
    base = dict(pixresFP=2., rhoInner=0., rhoOuter=2., angDeg=180., whichSide='both')
    g.raises('side', ValueError, lambda: f(dict(base, whichSide='outside')))
    g.raises('shape', ValueError, lambda: f(dict(base, shape='hexagon')))
    g.raises('centring', ValueError, lambda: f(dict(base, centering='corner')))
    g.raises('not a dictionary', TypeError, lambda: f([1, 2]))


@contract('P31', 'falco.setup.falco_configure_dark_hole_region', trials=60)
def configured_regions(g):
    """correction and scoring regions are the unions of their zones, each drawn with its own settings"""
    nz = g.choice('zones', [1, 2])
    extra = g.choice('offsets', [False, True])
    shapes, given = g.choice('shapes', [(None, 'FOV'), (['square', 'circle'], 'N')])
    sides = ['left', 'top'][:nz] if extra else ['both', 'both'][:nz]
    res, eres = g.real('res', lo=1, hi=3), g.real('eres', lo=1, hi=3)
    tx, ty = g.real('thx', hi=3), g.real('thy', hi=3)
    cor, sco = (g.obj(**{k: g.np.array([g.real(n + k + str(z), lo=0, hi=5) for z in range(nz)]) for k in ('Rin', 'Rout', 'ang')})
                for n in 'cs')
    end = g.obj(res=res, sides=sides if nz > 1 else sides[0], corr=cor, score=sco, eval=g.obj(res=eres))
    sizes = [(2 * g.int('hy%d' % z, 1, 3), 2 * g.int('hx%d' % z, 1, 3)) for z in range(nz)]
    if given == 'FOV':
        end.FOV = g.real('FOV', pos=True, hi=3)
    else:
        end.Nxi, end.Neta = sizes[0][1], sizes[0][0]
        sizes = [sizes[0]] * nz
    if shapes:
        end.shape = shapes[:nz]
    names = ('clockAngDeg', 'xiOffset', 'etaOffset')
    if extra:
        for k in names:
            setattr(end, k, g.np.array([g.real(k + str(z), hi=3) for z in range(nz)]))
    own = {(n, k): [g.at(getattr(o, k), z) for z in range(nz)] for n, o in (('c', cor), ('s', sco)) for k in ('Rin', 'Rout', 'ang')}
    offs = {k: [g.at(getattr(end, k), z) for z in range(nz)] for k in names} if extra else {}
    mp = g.params(Fend=end, centering='pixel', thput_eval_x=tx, thput_eval_y=ty)
    NY, NX = sizes[0]
    for y, x in sizes[1:]:
        NY, NX = g.max2(NY, y), g.max2(NX, x)
    EY, EX = 2 * g.int('ey', 1, 4), 2 * g.int('ex', 1, 4)
    dims = sizes + [(NY, NX), (EY, EX)] + [(NY, NX)] * nz
    masks = [g.array('mask%d' % k, d, 'real', vals=[0, 1]) for k, d in enumerate(dims)]
    for k, d in enumerate(dims):
        g.assume_forall(d, lambda i, j, k=k: g.or_(g.eq(g.at(masks[k], i, j), 0), g.eq(g.at(masks[k], i, j), 1)))
    xs = [g.array('x%d' % k, (d[1],), 'real') for k, d in enumerate(dims)]
    ys = [g.array('y%d' % k, (d[0],), 'real') for k, d in enumerate(dims)]
    calls = []
    evens = []

    def draw(inputs):
        k = len(calls)
        calls.append(dict(inputs))
        return masks[k] * 1.0, xs[k] * 1.0, ys[k] * 1.0

    def even(x):
        evens.append(x)
        return EX if len(evens) == 1 else EY
    g.stub('falco.mask.falco_gen_SW_mask', draw)
    g.stub('falco.setup.ceil_even', even)
    g.fn('falco.setup.falco_configure_dark_hole_region')(mp)
    g.ensure('one mask per zone, plus the axes of the image and of the evaluation image', len(calls) == 2 * nz + 2)
    for n, first in (('c', 0), ('s', nz + 2)):
        for z in range(nz):
            c = calls[first + z]
            g.ensure_eq('inner radius of the zone', c['rhoInner'], own[n, 'Rin'][z])
            g.ensure_eq('outer radius of the zone', c['rhoOuter'], own[n, 'Rout'][z])
            g.ensure_eq('opening angle of the zone', c['angDeg'], own[n, 'ang'][z])
            g.ensure_eq('resolution', c['pixresFP'], res)
            g.ensure('side, shape and centring', str(c['whichSide']) == sides[z] and c['centering'] == 'pixel' and
                     str(c.get('shape', 'circle')) == (shapes[z] if shapes else 'circle'))
            for k in names:
                if extra:
                    g.ensure_eq('rotation and offset of the zone', c[k], offs[k][z])
                else:
                    g.ensure('no rotation or offset', k not in c or bool(g.eq(c[k], 0)))
            if n == 's':
                g.ensure_eq('columns of the image', c['Nxi'], NX)
                g.ensure_eq('rows of the image', c['Neta'], NY)
            elif given == 'FOV':
                g.ensure_eq('field of view', c['FOV'], end.FOV)
                g.ensure('size follows from the field of view', 'Nxi' not in c and 'Neta' not in c)
            else:
                g.ensure_eq('columns as given', c['Nxi'], NX)
                g.ensure_eq('rows as given', c['Neta'], NY)
    for c, d, r in ((calls[nz], (NY, NX), res), (calls[nz + 1], (EY, EX), eres)):
        g.ensure_eq('columns of the axes', c['Nxi'], d[1])
        g.ensure_eq('rows of the axes', c['Neta'], d[0])
        g.ensure_eq('resolution of the axes', c['pixresFP'], r)
    g.ensure_eq('evaluation image covers the same field', evens[0] * res, eres * NX)
    g.ensure_eq('evaluation image covers the same field', evens[1] * res, eres * NY)
    F = mp.Fend
    g.ensure_eq('image columns', F.Nxi, NX)
    g.ensure_eq('image rows', F.Neta, NY)
    for f, k, x0, y0 in ((F, nz, 0, 0), (F.eval, nz + 1, tx, ty)):
        g.ensure_arr('horizontal axis', f.xisDL, xs[k])
        g.ensure_arr('vertical axis', f.etasDL, ys[k])
        g.forall('distance from the centre', dims[k], lambda i, j: g.eq(g.at(f.RHOS, i, j) ** 2, (g.at(xs[k], j) - x0) ** 2 + (
            g.at(ys[k], i) - y0) ** 2))
        g.forall('distance is not negative', dims[k], lambda i, j: g.le(0, g.at(f.RHOS, i, j)))
    g.ensure_shape('correction region', F.corr.maskBool, (NY, NX))
    g.ensure_shape('scoring region', F.score.maskBool, (NY, NX))

    def inside(k, i, j):
        y, x = i - (NY - dims[k][0]) // 2, j - (NX - dims[k][1]) // 2
        return g.and_(g.le(0, y), y < dims[k][0], g.le(0, x), x < dims[k][1], g.not_(g.eq(g.at(masks[k], y, x), 0)))
    for m, first in ((F.corr.maskBool, 0), (F.score.maskBool, nz + 2)):
        g.forall('union of the zones', (NY, NX), lambda i, j: g.eq(g.at(m, i, j), g.or_(*[inside(first + z, i, j) for z in range(nz)])))
    g.ensure_eq('pixels of the correction region', F.corr.Npix, g.sum(NY, lambda i: g.sum(NX, lambda j: g.ite(g.at(F.corr.maskBool, i, j), 1, 0))))
    g.ensure_eq('pixels of the scoring region', F.score.Npix, g.sum(NY, lambda i: g.sum(NX, lambda j: g.ite(g.at(F.score.maskBool, i, j), 1, 0))))
    g.ensure_arr('scoring pixels among the correction pixels', F.scoreInCorr, F.score.maskBool[F.corr.maskBool])
    g.cover('end')
