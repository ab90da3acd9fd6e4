"""Control Jacobian assembly, tied actuators, spatial weights."""
from pyvc.registry import contract, bounded


@contract('P20', 'falco.model.models.apply_ties_to_jac')
def tied_columns(g):
    """enforce_constraints (P13) returns the same mirror with its tied pairs unchanged"""
    ind, ntied, alllist = g.choice('case', [((1,), {1: 1}, False), ((2,), {2: 2}, False), ((1, 2), {1: 1, 2: 1}, False), ((1,), {1: 2}, True), ((1, 2), {1: 0, 2: 1}, True)])
    npix, nmode = g.int('Npix', 1, 3), g.int('Nmode', 1, 3)
    mp = g.params(dm_ind=g.np.array(list(ind)))
    jac, G, P = g.obj(), {}, {}
    for d in (1, 2):
        n = g.int('Nact%d' % d, 2, 3)
        nt = ntied.get(d, 0)
        act = g.seq(n * n, lambda i: i) if alllist else g.index_set('act%d' % d, n * n)
        k = g.len(act)
        pos = g.array('pos%d' % d, (nt, 2), 'int', lo=0, max=k - 1)
        if nt:
            at = [g.at(pos, i, j) for i in range(nt) for j in range(2)]
            for i in range(len(at)):
                for j in range(i):
                    g.assume(g.not_(g.eq(at[i], at[j])))
        tied = g.np.array([[g.at(act, g.at(pos, i, j)) for j in range(2)] for i in range(nt)]) if nt else g.np.zeros((0, 2))
        P[d] = pos
        G[d] = g.array('G%d' % d, (npix, k, nmode), 'complex')
        setattr(mp, 'dm%d' % d, g.obj(Nact=n, NactTotal=n * n, act_ele=act, Nele=k, tied=tied))
        setattr(jac, 'G%d' % d, g.snapshot(G[d]))
    seen = []

    def constraints(dm):
        seen.append(dm)
        return dm
    g.stub('falco.dm.enforce_constraints', constraints)
    g.fn('falco.model.models.apply_ties_to_jac')(mp, jac)
    for d in (1, 2):
        J, pos = getattr(jac, 'G%d' % d), P[d]
        k = g.len(getattr(mp, 'dm%d' % d).act_ele)
        pairs = [(g.at(pos, i, 0), g.at(pos, i, 1)) for i in range(ntied.get(d, 0))] if d in ind else []

        def want(p, a, m):
            w = g.at(G[d], p, a, m)
            for i1, i2 in pairs:
                w = g.ite(g.eq(a, i1), g.at(G[d], p, i1, m) + g.at(G[d], p, i2, m), g.ite(g.eq(a, i2), 0, w))
            return w
        g.ensure_shape('size', J, (npix, k, nmode))
        g.forall('first column is the sum, second is zero, others are kept', (npix, k, nmode), lambda p, a, m: g.eq(g.at(J, p, a, m), want(p, a, m)))
    g.cover('end')


@contract('P21', 'falco.setup.falco_set_spatial_weights')
def annulus_weights(g):
    K = g.choice('annuli', [-1, 0, 1, 3, 2])
    ny, nx = g.int('Neta', 1, 4), g.int('Nxi', 1, 4)
    xs, es = g.array('xisDL', (nx,), 'real'), g.array('etasDL', (ny,), 'real')
    mask = g.array('mask', (ny, nx), 'bool')
    stars = g.choice('stars', [1, 2])
    sw = g.array('starweights', (stars,), 'real')
    mp = g.params(Fend=g.obj(xisDL=xs, etasDL=es, corr=g.obj(maskBool=g.snapshot(mask))),
                  compact=g.obj(star=g.obj(count=stars)), jac=g.obj(star=g.obj(weights=sw)))
    D = g.array('annulus', (max(K, 0), 3), 'real', lo=0)
    if K == 1:
        mp.WspatialDef = g.snapshot(D)[0, :]
    elif K == 0:
        mp.WspatialDef = g.choice('empty', [[], g.np.zeros((0, 3))])
    elif K > 0:
        mp.WspatialDef = g.snapshot(D)
    g.fn('falco.setup.falco_set_spatial_weights')(mp)

    def weight(i, j):
        rho = g.sqrt(g.at(xs, j)**2 + g.at(es, i)**2)
        w = 1.0
        for k in range(max(K, 0)):
            w = w * g.ite(g.and_(rho >= g.at(D, k, 0), rho < g.at(D, k, 1)), g.sqrt(g.at(D, k, 2)), 1)
        return w
    inside = g.exists((ny, nx), lambda i, j: g.at(mask, i, j))
    g.forall('map of weights in the control region', (ny, nx), lambda i, j: g.eq(
        g.at(mp.Wspatial, i, j), g.ite(g.at(mask, i, j), weight(i, j), 0)))
    ref = mp.Wspatial[mask]
    g.ensure_shape('one weight per pixel and star', mp.WspatialVec, (g.len(ref), stars))
    for s in range(stars):
        g.forall('in the order of the pixels, times the star weight', (g.len(ref),), lambda p: g.eq(
            g.at(mp.WspatialVec, p, s), g.at(sw, s) * g.at(ref, p)))
    g.ensure_arr('control region kept', mp.Fend.corr.maskBool, mask)
    g.cover('end')


@contract('P21', 'falco.ctrl.apply_spatial_weighting_to_Jacobian')
def weighted_jacobian(g):
    ind = g.choice('dm_ind', [(1,), (2,), (1, 2)])
    stars = g.choice('stars', [1, 2, 3])
    npix, per = g.int('Npix', 1, 3), g.int('NmodePerStar', 1, 3)
    W = g.array('WspatialVec', (npix, stars), 'real')
    inds = g.np.concatenate([s * g.np.ones(per, dtype=int) for s in range(stars)])
    mp = g.params(dm_ind=g.np.array(list(ind)), WspatialVec=g.snapshot(W), compact=g.obj(star=g.obj(count=stars)),
                  jac=g.obj(star_inds=inds, NmodePerStar=per, Nmode=stars * per))
    jac, G = g.obj(), {}
    for d in (1, 2):
        k = g.int('Nele%d' % d, 1, 3)
        G[d] = g.array('G%d' % d, (npix, k, stars * per), 'complex')
        setattr(mp, 'dm%d' % d, g.obj(Nele=k))
        setattr(jac, 'G%d' % d, g.snapshot(G[d]))
    g.fn('falco.ctrl.apply_spatial_weighting_to_Jacobian')(mp, jac)
    for d in (1, 2):
        J, k = getattr(jac, 'G%d' % d), getattr(mp, 'dm%d' % d).Nele
        g.ensure_shape('size', J, (npix, k, stars * per))
        g.forall('every row is weighted by its pixel and star', (npix, k, stars * per), lambda p, a, m: g.eq(
            g.at(J, p, a, m), g.at(G[d], p, a, m) * (g.at(W, p, g.at(inds, m)) if d in ind else 1)))
    g.ensure_arr('weights kept', mp.WspatialVec, W)
    g.cover('end')
