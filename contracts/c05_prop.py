"""Propagators: relays, angular spectrum, matrix Fourier transforms."""
from pyvc.registry import contract, bounded


# ------------------------------------------------------------------ P05 relay
def rot(g, a, N, M, cen, i, j):
    if cen == 'pixel':
        # about pixel N//2 of a pixel-centred (FFT-like) array: index i -> -i mod N
        return g.at(a, g.ite(i == 0, 0, N - i), g.ite(j == 0, 0, M - j))
    return g.at(a, N - 1 - i, M - 1 - j)


@contract('P05', 'falco.prop.relay')
def relay_odd(g):
    N = g.int('N', 1, 7)
    M = g.int('M', 1, 7)
    k = g.int('k')
    a = g.array('a', (N, M), 'complex')
    a0 = g.snapshot(a)
    cen = g.choice('cen', ['pixel', 'interpixel'])
    b = g.fn('falco.prop.relay')(a, 2 * k + 1, cen)
    g.ensure_shape('same size', b, (N, M))
    g.forall('rotated by 180 degrees', (N, M), lambda i, j: g.eq(g.at(b, i, j), rot(g, a0, N, M, cen, i, j)))
    g.ensure_arr('input not modified', a, a0)
    g.cover('end')


@contract('P05', 'falco.prop.relay')
def relay_even(g):
    N = g.int('N', 1, 7)
    M = g.int('M', 1, 7)
    k = g.int('k')
    a = g.array('a', (N, M), 'complex')
    cen = g.choice('cen', ['pixel', 'interpixel'])
    b = g.fn('falco.prop.relay')(a, 2 * k, cen)
    g.ensure_arr('unchanged', b, a)


@contract('P05', 'falco.prop.relay')
def relay_adds_up(g):
    N = g.int('N', 1, 7)
    M = g.int('M', 1, 7)
    k = g.int('k')
    q = g.int('q')
    a = g.array('a', (N, M), 'complex')
    cen = g.choice('cen', ['pixel', 'interpixel'])
    f = g.fn('falco.prop.relay')
    g.ensure_arr('k then q relays equal k+q relays', f(f(a, k, cen), q, cen), f(a, k + q, cen))


@contract('P05', 'falco.prop.relay')
def relay_rejects(g):
    N = g.int('N', 1, 4)
    a = g.array('a', (N, N), 'complex')
    f = g.fn('falco.prop.relay')
    g.raises('centring', ValueError, lambda: f(a, 1, 'corner'))
    g.raises('integer count', TypeError, lambda: f(a, 1.5))
    g.raises('2-D', TypeError, lambda: f(g.array('v', (N,), 'real'), 1))
    g.ensure_arr('pixel centring is the default', f(a, 1), f(a, 1, 'pixel'))


# ------------------------------------------------------------------ P06 plane-to-plane
def freq(i, N):
    """index of FFT bin i in cycles per array: 0..N/2-1, then negative"""
    return i - N // 2


@contract('P06', 'falco.prop.ptp')
def ptp_zero(g):
    N = g.int('N', 1, 6)
    a = g.array('a', (N, N), 'complex')
    w = g.real('w', pos=True)
    lam = g.real('lam', pos=True)
    b = g.fn('falco.prop.ptp')(a, w, lam, 0)
    g.ensure_arr('zero distance: unchanged', b, a)


@contract('P06', ['falco.util.angular_spectrum_transfer_function'])
def transfer_function(g):
    """unit-modulus quadratic phase on the FFT frequency grid"""
    N = g.int('N', 1, 8)
    dx = g.real('dx', 0.01, pos=True)
    lam = g.real('lam', pos=True)
    z = g.real('z')
    H = g.fn('falco.util.angular_spectrum_transfer_function')((N, N), lam, dx, z)
    g.ensure_shape('size', H, (N, N))

    def f(i):
        # FFT ordering: bins 0 .. ceil(N/2)-1, then the negative ones
        return g.ite(2 * i < N, i, i - N) / (N * dx)

    g.forall('quadratic phase', (N, N), lambda i, j: g.eq(
        g.at(H, i, j), g.expi(-g.pi * lam * z * (f(i) * f(i) + f(j) * f(j)))))
    g.forall('unit modulus', (N, N), lambda i, j: g.eq(g.at(H, i, j) * g.conj(g.at(H, i, j)), 1))
    H2 = g.fn('falco.util.angular_spectrum_transfer_function')((N, N), lam, dx, -z)
    g.forall('opposite distance is the inverse', (N, N), lambda i, j: g.eq(g.at(H, i, j) * g.at(H2, i, j), 1))
    g.cover('end')


@contract('P06', ['falco.prop.ptp', 'falco.util.angular_spectrum_transfer_function'])
def ptp_round_trip(g):
    """propagating forth and back returns the field, for every size (odd ones too)"""
    N = g.int('N', 1, 9)
    a = g.array('a', (N, N), 'complex')
    w = g.real('w', 0.5, pos=True)
    lam = g.real('lam', pos=True)
    z = g.real('z', nonzero=True)
    f = g.fn('falco.prop.ptp')
    g.ensure_arr('inverse', f(f(a, w, lam, z), w, lam, -z), a)
    g.cover('end')


@contract('P06', 'falco.prop.ptp')
def ptp_rejects(g):
    N = g.int('N', 1, 5)
    M = g.int('M', 1, 5)
    g.assume(N != M)
    a = g.array('a', (N, M), 'complex')
    w = g.real('w', pos=True)
    lam = g.real('lam', pos=True)
    z = g.real('z', nonzero=True)
    g.raises('square fields only', ValueError, lambda: g.fn('falco.prop.ptp')(a, w, lam, z))


@contract('P06', ['falco.prop.fft2d', 'falco.prop.ifft2d'])
def centred_ffts(g):
    N = g.int('N', 1, 7)
    M = g.int('M', 1, 7)
    a = g.array('a', (N, M), 'complex')
    f, i = g.fn('falco.prop.fft2d'), g.fn('falco.prop.ifft2d')
    g.ensure_arr('inverse transform undoes the transform', i(f(a)), a)
    g.ensure_arr('transform undoes the inverse transform', f(i(a)), a)


# ------------------------------------------------------------------ P07 matrix Fourier transforms
def ctr(g, i, N, d, cen):
    x = (i - N // 2) * d
    if cen == 'interpixel':
        x = x + g.ite(N % 2 == 0, d / 2, d * 0)
    return x


@contract('P07', 'falco.prop.mft_p2f')
def mft_pupil_to_focus(g):
    N = g.int('N', 1, 5)
    Nxi = g.int('Nxi', 1, 5)
    Neta = g.int('Neta', 1, 5)
    fl = g.real('fl', pos=True)
    lam = g.real('lam', pos=True)
    dx = g.real('dx', pos=True)
    dxi = g.real('dxi', pos=True)
    deta = g.real('deta', pos=True)
    cen = g.choice('cen', ['pixel', 'interpixel'])
    E = g.array('E', (N, N), 'complex')
    F = g.fn('falco.prop.mft_p2f')(E, fl, lam, dx, dxi, Nxi, deta, Neta, cen)
    g.ensure_shape('size', F, (Neta, Nxi))
    s = g.sqrt(dx * dx * dxi * deta) / (lam * fl)

    def spec(r, c):
        e, x = ctr(g, r, Neta, deta, cen), ctr(g, c, Nxi, dxi, cen)
        return s * g.sum(N, lambda a: g.sum(N, lambda b: g.at(E, a, b) * g.expi(
            -2 * g.pi * e * ctr(g, a, N, dx, cen) / (lam * fl)) * g.expi(
            -2 * g.pi * x * ctr(g, b, N, dx, cen) / (lam * fl))))
    g.forall('sampled Fourier integral', (Neta, Nxi), lambda r, c: g.eq(g.at(F, r, c), spec(r, c)))
    g.cover('end')


@contract('P07', 'falco.prop.mft_f2p')
def mft_focus_to_pupil(g):
    N = g.int('N', 1, 5)
    Nxi = g.int('Nxi', 1, 5)
    Neta = g.int('Neta', 1, 5)
    fl = g.real('fl', pos=True)
    lam = g.real('lam', pos=True)
    dx = g.real('dx', pos=True)
    dxi = g.real('dxi', pos=True)
    deta = g.real('deta', pos=True)
    cen = g.choice('cen', ['pixel', 'interpixel'])
    F = g.array('F', (Neta, Nxi), 'complex')
    E = g.fn('falco.prop.mft_f2p')(F, fl, lam, dxi, deta, dx, N, cen)
    g.ensure_shape('size', E, (N, N))
    s = g.sqrt(dx * dx * dxi * deta) / (lam * fl)

    def spec(r, c):
        y, x = ctr(g, r, N, dx, cen), ctr(g, c, N, dx, cen)
        return s * g.sum(Neta, lambda a: g.sum(Nxi, lambda b: g.at(F, a, b) * g.expi(
            -2 * g.pi * y * ctr(g, a, Neta, deta, cen) / (lam * fl)) * g.expi(
            -2 * g.pi * x * ctr(g, b, Nxi, dxi, cen) / (lam * fl))))
    g.forall('sampled Fourier integral', (N, N), lambda r, c: g.eq(g.at(E, r, c), spec(r, c)))
    g.cover('end')


@contract('P07', ['falco.prop.mft_p2f', 'falco.prop.mft_f2p'])
def mft_rejects(g):
    N = g.int('N', 1, 4)
    M = g.int('M', 1, 4)
    g.assume(N != M)
    a = g.array('a', (N, M), 'complex')
    sq = g.array('sq', (N, N), 'complex')
    p2f, f2p = g.fn('falco.prop.mft_p2f'), g.fn('falco.prop.mft_f2p')
    g.raises('square pupils only', ValueError, lambda: p2f(a, 1.0, 1.0, 1.0, 1.0, 3, 1.0, 3))
    g.raises('known centring', ValueError, lambda: p2f(sq, 1.0, 1.0, 1.0, 1.0, 3, 1.0, 3, 'corner'))
    g.raises('known centring back', ValueError, lambda: f2p(sq, 1.0, 1.0, 1.0, 1.0, 1.0, 3, 'corner'))


@bounded('P07', 'falco.prop.mft_p2v2p', 'N in {2,4,6,8}, charges 1..8, real masks, random fields')
def vortex_adjoint(g):
    """<A p, q> = <p, A* q>: the reverse-gradient propagation has the conjugate-transposed kernel"""
    n = g.int('n', 1, 4)
    N = 2 * n
    charge = g.int('charge', 1, 8)
    inv = g.real('inv', 0.3, hi=2.0, pos=True)
    out = g.real('out', 0.5, hi=4.0, pos=True)
    g.assume(out > inv)
    R = g.real('R', 0.6, hi=2.0, pos=True)
    f = g.fn('falco.prop.mft_p2v2p')
    # a unit field at pixel (a, b) gives the kernel column; compare with the reverse kernel
    p = g.array('p', (N, N), 'complex')
    q = g.array('q', (N, N), 'complex')
    Ap = f(p, charge, R, inv, out)
    Aq = f(q, charge, R, inv, out, reverseGradient=True)
    lhs = g.sum(N, lambda i: g.sum(N, lambda j: g.conj(g.at(Ap, i, j)) * g.at(q, i, j)))
    rhs = g.sum(N, lambda i: g.sum(N, lambda j: g.conj(g.at(p, i, j)) * g.at(Aq, i, j)))
    g.ensure('adjoint identity', g.eq(lhs, rhs))
    g.cover('end')
