"""Bandpass discretisation."""
from pyvc.registry import contract, bounded


def setup(g, N, W, sim, lam0, bw):
    mp = g.obj(full=g.obj(), lambda0=lam0, flagSim=sim, Nsbp=N, Nwpsbp=W, fracBW=bw)
    g.fn('falco.setup.falco_set_spectral_properties')(mp)
    return mp


def common(g):
    N = g.int('N', 1, 9)
    W = g.int('W', 1, 7)
    lam0 = g.real('lam0', 0.3, hi=2.0, pos=True)
    bw = g.real('bw', 0.01, hi=0.4, pos=True)
    g.assume(bw < 2)
    g.assume(N * W >= 1)  # consequence of N, W >= 1, stated for the solver
    g.assume(N * W >= N)
    g.assume(N * W >= W)
    sim = g.choice('sim', [True, False])
    return N, W, sim, lam0, bw


@contract('P10', 'falco.setup.falco_set_spectral_properties', budget_s=600)
def sub_bands(g):
    N, W, sim, lam0, bw = common(g)
    mp = setup(g, N, W, sim, lam0, bw)
    ends = g.and_(W == 1, sim, N > 1)
    g.ensure_shape('one centre per sub-band', mp.sbp_centers, (N,))
    # sub-bands tile the band, or (single-wavelength simulation) the centres include the band edges
    step = g.ite(ends, bw / g.max2(N - 1, 1), bw / N)
    g.forall('evenly spaced centres about lambda0', (N,), lambda k: g.eq(
        g.at(mp.sbp_centers, k), lam0 * (1 + step * (k - g.frac(N - 1, 2)))))
    g.ensure_shape('one weight per sub-band', mp.sbp_weights, (N, 1))
    nrm = g.ite(ends, N - 1, N)
    g.forall('sub-band weights', (N,), lambda k: g.eq(
        g.at(mp.sbp_weights, k, 0) * nrm, g.ite(g.and_(ends, g.or_(k == 0, k == N - 1)), g.frac(1, 2), 1)))
    g.ensure_eq('centre sub-band index', mp.si_ref, N // 2)
    g.ensure_eq('centre wavelength index', mp.wi_ref, W // 2)
    g.cover('end')


@contract('P10', 'falco.setup.falco_set_spectral_properties', budget_s=600)
def wavelengths_in_sub_bands(g):
    N, W, sim, lam0, bw = common(g)
    mp = setup(g, N, W, sim, lam0, bw)
    g.ensure_shape('one row per sub-band, one column per wavelength', mp.full.lambdasMat, (N, W))
    # samples run from edge to edge of the sub-band about its centre
    g.forall('sampled wavelengths', (N, W), lambda i, j: g.eq(
        g.at(mp.full.lambdasMat, i, j),
        g.at(mp.sbp_centers, i) + g.ite(W > 1, lam0 * bw / N * (g.frac(j, g.max2(W - 1, 1)) - g.frac(1, 2)), 0)))
    g.ensure_eq('spacing of the wavelengths', mp.full.dlam, g.ite(W > 1, lam0 * bw / N / g.max2(W - 1, 1), 0))
    g.ensure_shape('one weight per wavelength', mp.full.lambda_weights, (W, 1))
    g.forall('weights in a sub-band: trapezoid, normalised', (W,), lambda j: g.eq(
        g.at(mp.full.lambda_weights, j, 0) * g.ite(W > 1, W - 1, 1),
        g.ite(g.and_(W > 1, g.or_(j == 0, j == W - 1)), g.frac(1, 2), 1)))
    g.ensure_shape('index table', mp.full.indsLambdaMat, (N * W, 2))
    g.forall('index table holds the (sub-band, wavelength) pairs in order', (N, W), lambda i, j: g.and_(
        g.eq(g.at(mp.full.indsLambdaMat, i * W + j, 0), i), g.eq(g.at(mp.full.indsLambdaMat, i * W + j, 1), j)))
    g.cover('end')


@bounded('P10', 'falco.setup.falco_set_spectral_properties', 'N <= 9 sub-bands, W <= 7 wavelengths, sampled bands; micrometre to nanometre scale')
def weights_and_unique_list(g):
    np = g.np
    N = g.int('N', 1, 9)
    W = g.int('W', 1, 7)
    lam0 = g.choice('lam0', [500e-9, 550e-9, 575e-9, 633e-9, 730e-9, 825e-9, 1e-6, 2.2e-6]) * (1 + g.choice('j', [0, 0, 1]) * g.real('e', 0, hi=0.1))
    bw = g.choice('bw', [1e-4, 1e-3, 0.01, 0.025, 0.05, 0.1, 0.15, 0.2, 0.37])
    sim = g.choice('sim', [True, False])
    mp = setup(g, N, W, sim, lam0, bw)
    fl = mp.full
    g.ensure_eq('sub-band weights sum to one', np.sum(mp.sbp_weights), 1.0)
    g.ensure_eq('wavelength weights sum to one', np.sum(fl.lambda_weights), 1.0)
    g.ensure_eq('centres average to lambda0', np.mean(mp.sbp_centers) / lam0, 1.0)
    g.ensure_eq('full-band weights sum to one', np.sum(fl.lambda_weights_all), 1.0)
    g.ensure_eq('unique count', fl.NlamUnique, len(fl.lambdas))
    g.ensure_shape('one weight per unique wavelength', fl.lambda_weights_all, (fl.NlamUnique,))
    g.ensure_shape('one index per unique wavelength', fl.indsLambdaUnique, (fl.NlamUnique,))
    lam = np.asarray(fl.lambdas)
    mat = np.asarray(fl.lambdasMat)
    if W > 1 or (sim and N > 1):
        g.ensure('band covered from edge to edge', abs(mat.max() / lam0 - 1 - bw / 2) < 1e-9 and abs(mat.min() / lam0 - 1 + bw / 2) < 1e-9)
    step = lam0 * bw / N / max(W - 1, 1)
    if step > 2e-12:
        g.ensure('each wavelength once', lam.size < 2 or np.min(np.diff(np.sort(lam))) > 0.5e-12)
        w = np.zeros(lam.size)
        for i in range(N):
            for j in range(W):
                d = np.abs(lam - mat[i, j])
                g.ensure('every sampled wavelength is in the list', d.min() < 0.5e-12)
                w[np.argmin(d)] += mp.sbp_weights[i, 0] * fl.lambda_weights[j, 0]
        g.ensure_arr('weight = sum of the weights of the merged samples', fl.lambda_weights_all, w)
        for k in range(fl.NlamUnique):
            i, j = fl.indsLambdaMat[fl.indsLambdaUnique[k]]
            g.ensure('index points to a sample of that wavelength', abs(mat[i, j] - lam[k]) < 0.5e-12)
