"""Jacobian modes (P11) and control schedule (P12)."""
from pyvc.registry import contract, bounded


def modes_world(g, N, zs, stars):
    n = len(zs)
    coef = g.array('Zcoef', (n,), 'real', lo=0, max=2)
    ref = g.int('si_ref', 0, max=5)
    g.assume(g.le(ref, N - 1))
    perfect = g.choice('estimator', ['Perfect', 'pairwise'])
    mp = g.params(Nsbp=N, si_ref=ref, estimator=perfect, jac=g.obj(zerns=g.np.array(list(zs)), Zcoef=coef),
                  compact=g.obj(star=g.obj(count=stars)))
    c0 = g.snapshot(coef)
    half = perfect.lower() == 'perfect'

    def used(k, z):
        if zs[z] == 1:
            return True
        return g.and_(g.or_(g.eq(k, 0), g.eq(k, ref), g.eq(k, N - 1)), g.not_(g.eq(g.at(c0, z), 0)))

    def raw(k, z):
        e = 1
        if half:
            e = g.ite(g.eq(k, 0), 0.5, 1) * g.ite(g.eq(k, N - 1), 0.5, 1)
        return g.ite(used(k, z), e, 0)
    return mp, ref, used, raw


@contract('P11', 'falco.setup.falco_set_jacobian_modal_weights')
def jacobian_modes(g):
    N, zs, stars = g.choice('case', [(1, (1,), 3), (1, (2, 1), 1), (2, (1, 8), 2), (3, (1,), 2), (3, (3, 1), 1), (4, (1, 2), 1), (5, (1,), 1),
                                     (3, (5, 4, 1), 1), (5, (1, 16), 2)])
    mp, ref, used, raw = modes_world(g, N, zs, stars)
    g.fn('falco.setup.falco_set_jacobian_modal_weights')(mp)
    J = mp.jac
    # one mode per used combination, sub-band by sub-band, star by star
    want = [(s, k, z) for s in range(stars) for k in range(N) for z in range(len(zs)) if bool(used(k, z))]
    m = len(want)
    g.ensure_eq('number of modes', J.Nmode, m)
    g.ensure_eq('number of modes of each star', J.NmodePerStar * stars, m)
    for a in ('weights', 'sbp_inds', 'zern_inds', 'star_inds'):
        g.ensure_shape('one entry per mode', getattr(J, a), (m,))
    for q, (s, k, z) in enumerate(want):
        g.ensure_eq('star of the mode', g.at(J.star_inds, q), s)
        g.ensure_eq('sub-band of the mode', g.at(J.sbp_inds, q), k)
        g.ensure_eq('Zernike of the mode', g.at(J.zern_inds, q), zs[z])
        tot = sum(raw(i, z) for i in range(N))
        g.ensure_eq('weight of the mode', g.at(J.weights, q) * tot, raw(k, z))
        g.ensure('weight is positive', 0 < g.at(J.weights, q))
    for s in range(stars):
        for z in range(len(zs)):
            w = [g.at(J.weights, q) for q, t in enumerate(want) if t[0] == s and t[2] == z]
            if w:
                g.ensure_eq('weights of one Zernike of one star sum to one', sum(w), 1)
    g.ensure_eq('piston is not scaled', g.at(J.Zcoef, zs.index(1)), 1)
    g.cover('end')


@contract('P11', 'falco.setup.falco_set_jacobian_modal_weights')
def ill_formed_lists_rejected(g):
    for name, zs in (('no piston', (2, 3)), ('repeated', (1, 2, 2)), ('repeated piston', (1, 1)), ('nothing', (4,))):
        mp = g.params(Nsbp=3, si_ref=1, estimator='perfect', compact=g.obj(star=g.obj(count=1)),
                      jac=g.obj(zerns=g.np.array(list(zs)), Zcoef=g.np.array([1.] * len(zs))))
        g.raises(name, ValueError, lambda: g.fn('falco.setup.falco_set_jacobian_modal_weights')(mp))


# ---------------------------------------------------------------- P12
ROWS = [  # (iterations, mirrors, re-linearise, grid search) of each row
    ((1, 12, 1, 1),), ((3, 12, 1, 1),), ((2, 1, 0, 0),), ((0, 0, 1, 0), (2, 2, 0, 1)), ((2, 12, 1, 0), (1, 1, 0, 1)),
    ((1, 2, 1, 1), (0, 0, 1, 0), (2, 12, 0, 0)), ((2, 129, 1, 0), (2, 1289, 0, 1), (1, 9, 1, 1)), ((4, 8, 0, 1), (0, 0, 0, 1)),
    ((0, 12, 1, 1), (0, 12, 1, 0), (1, 128, 0, 0)), ((1, 1, 1, 0), (1, 2, 1, 0), (1, 12, 1, 0), (3, 19, 1, 1)), ((5, 28, 0, 0),),
    ((0, 12, 1, 0),), ((2, 12, 1, 1), (0, 0, 1, 0)),
]


@contract('P12', 'falco.ctrl.efc_schedule_generator')
def schedule_table(g):
    rows = g.choice('rows', ROWS)
    m = len(rows)
    reg = g.array('log10reg', (m,), 'complex')
    cplx = 1 + 0j
    tab = g.np.array([[r[0] * cplx, g.at(reg, i) * cplx, r[1] * cplx, r[2] * cplx, r[3] * cplx] for i, r in enumerate(rows)])
    n, relin, grid, regs, mirrors = g.fn('falco.ctrl.efc_schedule_generator')(tab)
    total = sum(r[0] for r in rows)
    first = [sum(r[0] for r in rows[:i]) for i in range(m)]
    g.ensure_eq('number of iterations', n, total)
    owner = [i for i, r in enumerate(rows) for _ in range(r[0])]
    g.ensure_shape('one regularisation per iteration', regs, (total,))
    g.ensure_eq('one list of mirrors per iteration', len(mirrors), total)
    for k in range(total):
        g.ensure_eq('regularisation of the iteration', g.at(regs, k), g.at(reg, owner[k]))
        want = [int(c) for c in str(rows[owner[k]][1])]
        g.ensure_shape('number of mirrors of the iteration', mirrors[k], (len(want),))
        for q, w in enumerate(want):
            g.ensure_eq('mirror of the iteration', g.at(mirrors[k], q), w)
    for nm, got, col in (('re-linearisation', relin, 2), ('grid search', grid, 3)):
        want = [first[i] for i, r in enumerate(rows) if r[col] == 1]
        g.ensure_shape('number of iterations with ' + nm, got, (len(want),))
        for q, w in enumerate(want):
            g.ensure_eq('iteration of the ' + nm, g.at(got, q), w)
        # membership, the way the loop uses the lists
        for k in range(total):
            g.ensure(nm + ' flag of the iteration', bool(g.np.any(got == k)) == (k in want))
    g.cover('end')
