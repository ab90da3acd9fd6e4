"""Array geometry: centred padding/cropping, off-centre cropping, axes, binning."""
from pyvc.registry import contract, bounded


def half(g, n):
    return n // 2


def shifted(g, a, N0, M0, N1, M1, r, c, fill=0):
    """spec of centred pad/crop: pixel N//2 stays at pixel N//2"""
    rr = r - half(g, N1) + half(g, N0)
    cc = c - half(g, M1) + half(g, M0)
    inside = g.and_(rr >= 0, rr < N0, cc >= 0, cc < M0)
    return inside, rr, cc


@contract('P01', 'falco.util.pad_crop')
def pad_crop_square(g):
    N0 = g.int('N0', 1, 9)
    M0 = g.int('M0', 1, 9)
    N1 = g.int('N1', 1, 12)
    a = g.array('a', (N0, M0), 'complex')
    a0 = g.snapshot(a)
    b = g.fn('falco.util.pad_crop')(a, N1)
    g.ensure_shape('output has the requested size', b, (N1, N1))

    def pred(r, c):
        inside, rr, cc = shifted(g, a0, N0, M0, N1, N1, r, c)
        return g.eq(g.at(b, r, c), g.ite(inside, g.at(a0, rr, cc), 0))
    g.forall('centre pixel and every pixel by its offset from the centre are kept, the rest is fill', (N1, N1), pred)
    g.ensure_arr('input not modified', a, a0)
    g.cover('end')


@contract('P01', 'falco.util.pad_crop')
def pad_crop_rect_fill(g):
    N0 = g.int('N0', 1, 9)
    M0 = g.int('M0', 1, 9)
    N1 = g.int('N1', 1, 12)
    M1 = g.int('M1', 1, 12)
    e = g.real('e')
    a = g.array('a', (N0, M0), 'real')
    b = g.fn('falco.util.pad_crop')(a, (N1, M1), extrapval=e)
    g.ensure_shape('output has the requested size', b, (N1, M1))

    def pred(r, c):
        inside, rr, cc = shifted(g, a, N0, M0, N1, M1, r, c)
        return g.eq(g.at(b, r, c), g.ite(inside, g.at(a, rr, cc), e))
    g.forall('kept by offset from the centre, fill value elsewhere', (N1, M1), pred)
    g.cover('end')


@contract('P01', 'falco.util.pad_crop')
def pad_crop_integer_array(g):
    """an array of integers keeps its pixels and gets the (possibly fractional) fill value"""
    N0, M0 = g.int('N0', 1, 6), g.int('M0', 1, 6)
    N1, M1 = g.int('N1', 1, 8), g.int('M1', 1, 8)
    e = g.real('e')
    a = g.array('a', (N0, M0), 'int')
    b = g.fn('falco.util.pad_crop')(a, (N1, M1), extrapval=e)
    g.ensure_shape('output has the requested size', b, (N1, M1))

    def pred(r, c):
        inside, rr, cc = shifted(g, a, N0, M0, N1, M1, r, c)
        return g.eq(g.at(b, r, c), g.ite(inside, g.at(a, rr, cc), e))
    g.forall('kept by offset from the centre, fill value elsewhere', (N1, M1), pred)


@contract('P01', 'falco.util.pad_crop')
def pad_crop_chained(g):
    """pad/crop through an intermediate size that does not lose pixels equals the direct one"""
    N0 = g.int('N0', 1, 7)
    M0 = g.int('M0', 1, 7)
    N1 = g.int('N1', 1, 10)
    M1 = g.int('M1', 1, 10)
    N2 = g.int('N2', 1, 10)
    M2 = g.int('M2', 1, 10)
    f = g.fn('falco.util.pad_crop')
    g.assume(g.or_(N1 >= N0, N1 >= N2))
    g.assume(g.or_(M1 >= M0, M1 >= M2))
    a = g.array('a', (N0, M0), 'complex')
    b = f(f(a, (N1, M1)), (N2, M2))
    d = f(a, (N2, M2))
    g.ensure_shape('same size', b, (N2, M2))
    g.forall('chained = direct', (N2, M2), lambda r, c: g.eq(g.at(b, r, c), g.at(d, r, c)))
    g.cover('end')


@contract('P01', 'falco.util.pad_crop')
def pad_crop_round_trip(g):
    """padding and cropping back returns the original pixels"""
    N0 = g.int('N0', 1, 9)
    M0 = g.int('M0', 1, 9)
    p = g.int('p', 0, 5)
    q = g.int('q', 0, 5)
    f = g.fn('falco.util.pad_crop')
    a = g.array('a', (N0, M0), 'real')
    b = f(f(a, (N0 + p, M0 + q)), (N0, M0))
    g.ensure_arr('round trip', b, a)
    g.cover('end')


@contract('P01', 'falco.util.pad_crop')
def pad_crop_result_is_a_copy(g):
    """same-size pad/crop gives an independent copy"""
    N0 = g.int('N0', 1, 6)
    M0 = g.int('M0', 1, 6)
    a = g.array('a', (N0, M0), 'real')
    b = g.fn('falco.util.pad_crop')(a, (N0, M0))
    b0 = g.snapshot(b)
    a[:, :] = 7.5
    g.ensure_arr('later changes of the input do not reach the output', b, b0)


@contract('P01', 'falco.util.pad_crop')
def pad_crop_rejects(g):
    N0 = g.int('N0', 1, 5)
    M0 = g.int('M0', 1, 5)
    n = g.int('n', -4, 0, max=0)
    m = g.int('m', 1, 5)
    a = g.array('a', (N0, M0), 'real')
    f = g.fn('falco.util.pad_crop')
    g.raises('size must be positive (square)', TypeError, lambda: f(a, n))
    g.raises('size must be positive (rows)', TypeError, lambda: f(a, (n, m)))
    g.raises('size must be positive (cols)', TypeError, lambda: f(a, (m, n)))
    g.raises('two sizes', TypeError, lambda: f(a, (m, m, m)))
    g.raises('integer sizes', TypeError, lambda: f(a, (m, 1.5)))
    v = g.array('v', (N0,), 'real')
    g.raises('2-D input', TypeError, lambda: f(v, m))


@contract('P01', 'falco.util.pad_crop')
def pad_crop_array_size(g):
    """the size may be any sequence of integers, also a numpy one"""
    a = g.array('a', (3, 2), 'real')
    k = g.choice('k', [(5, 4), (2, 2), (3, 2)])
    b = g.fn('falco.util.pad_crop')(a, g.const(list(k)))
    d = g.fn('falco.util.pad_crop')(a, k)
    g.ensure_arr('same result as for a tuple', b, d)


@contract('P01', 'falco.util.pad_to_even_square')
def pad_even_square(g):
    N0 = g.int('N0', 1, 9)
    M0 = g.int('M0', 1, 9)
    a = g.array('a', (N0, M0), 'real')
    b = g.fn('falco.util.pad_to_even_square')(a)
    n = g.max2(N0, M0)
    n = n + n % 2
    g.ensure_shape('smallest even square', b, (n, n))

    def pred(r, c):
        inside, rr, cc = shifted(g, a, N0, M0, n, n, r, c)
        return g.eq(g.at(b, r, c), g.ite(inside, g.at(a, rr, cc), 0))
    g.forall('centred', (n, n), pred)
    g.cover('end')


# ------------------------------------------------------------ P02 off-centre crop
def occ(g, kind, frac=False):
    N0 = g.int('N0', 1, 8)
    M0 = g.int('M0', 1, 8)
    n = g.int('n', 1, 8)
    m = g.int('m', 1, 8)
    if frac:
        r0, c0 = g.real('r0', -6, hi=10), g.real('c0', -6, hi=10)
    else:
        r0, c0 = g.int('r0', None, 12), g.int('c0', None, 12)
    return N0, M0, n, m, r0, c0


@contract('P02', 'falco.util.offcenter_crop')
def offcenter_crop_inside(g):
    """window anywhere (inside, across the edge or beyond): value by offset, zero outside"""
    N0, M0, n, m, r0, c0 = occ(g, 'real')
    a = g.array('a', (N0, M0), 'complex')
    b = g.fn('falco.util.offcenter_crop')(a, r0, c0, n, m)
    g.ensure_shape('output has the requested size', b, (n, m))

    def pred(i, j):
        r = i - n // 2 + r0
        c = j - m // 2 + c0
        ins = g.and_(r >= 0, r < N0, c >= 0, c < M0)
        return g.eq(g.at(b, i, j), g.ite(ins, g.at(a, r, c), 0))
    g.forall('pixel n//2 of the output is the requested pixel', (n, m), pred)
    g.cover('end')


@contract('P02', 'falco.util.offcenter_crop')
def offcenter_crop_fractional(g):
    """fractional centres mean the nearest pixel"""
    N0 = g.int('N0', 1, 6)
    n = g.int('n', 1, 6)
    r0 = g.int('r0', -3, 8)
    f = g.real('f', -0.49, max=0.49)
    a = g.array('a', (N0, N0), 'real')
    fn = g.fn('falco.util.offcenter_crop')
    g.ensure_arr('fractional row', fn(a, r0 + f, 0, n, n), fn(a, r0, 0, n, n))
    g.ensure_arr('fractional column', fn(a, 0, r0 + f, n, n), fn(a, 0, r0, n, n))


@contract('P02', ['falco.util.offcenter_crop', 'falco.util.pad_crop'])
def offcenter_crop_at_centre(g):
    """cropping around the array centre is the centred crop"""
    N0 = g.int('N0', 1, 9)
    M0 = g.int('M0', 1, 9)
    n = g.int('n', 1, 9)
    m = g.int('m', 1, 9)
    a = g.array('a', (N0, M0), 'real')
    b = g.fn('falco.util.offcenter_crop')(a, N0 // 2, M0 // 2, n, m)
    d = g.fn('falco.util.pad_crop')(a, (n, m))
    g.ensure_arr('equals the centred pad/crop', b, d)


# ------------------------------------------------------------ P03 axes and grids
@contract('P03', 'falco.util.create_axis')
def axis(g):
    N = g.int('N', 1, 15)
    dx = g.real('dx', pos=True)
    cen = g.choice('cen', ['pixel', 'interpixel'])
    x = g.fn('falco.util.create_axis')(N, dx, centering=cen)
    g.ensure_shape('N samples', x, (N,))
    off = g.ite(N % 2 == 0, g.frac(1, 2), 0) if cen == 'interpixel' else 0
    g.forall('pixel N//2 is zero, or half a sample above it', (N,),
             lambda i: g.eq(g.at(x, i), (i - N // 2 + off) * dx))
    g.cover('end')


@contract('P03', 'falco.util.create_axis')
def axis_symmetry(g):
    N = g.int('N', 1, 15)
    dx = g.real('dx', pos=True)
    x = g.fn('falco.util.create_axis')(N, dx, centering='interpixel')
    g.forall('interpixel axis is antisymmetric', (N,), lambda i: g.eq(g.at(x, i), -g.at(x, N - 1 - i)))
    d = g.fn('falco.util.create_axis')(N, dx)
    p = g.fn('falco.util.create_axis')(N, dx, centering='pixel')
    g.ensure_arr('pixel centring is the default', d, p)


@contract('P03', 'falco.util.create_axis')
def axis_rejects(g):
    N = g.int('N', -5, 0, max=0)
    M = g.int('M', 1, 6)
    bad = g.real('bad', -3.0, max=0)
    f = g.fn('falco.util.create_axis')
    g.raises('N > 0', TypeError, lambda: f(N, 1.0))
    g.raises('N integer', TypeError, lambda: f(2.5, 1.0))
    g.raises('step > 0', TypeError, lambda: f(M, bad))
    g.raises('known centring', ValueError, lambda: f(M, 1.0, centering='corner'))


@contract('P03', ['falco.util.radial_grid', 'falco.util.radial_grid_squared', 'falco.util.azimuthal_grid',
                  'falco.util.broadcast'])
def radial_grids(g):
    N = g.int('N', 1, 8)
    xs = g.real('xs', pos=True)
    ys = g.real('ys', pos=True)
    ax = g.array('ax', (N,), 'real')
    r = g.fn('falco.util.radial_grid')(ax, xStretch=xs, yStretch=ys)
    r2 = g.fn('falco.util.radial_grid_squared')(ax, xStretch=xs, yStretch=ys)
    g.ensure_shape('square', r, (N, N))
    g.ensure_shape('square2', r2, (N, N))

    def sq(i, j):
        x, y = g.at(ax, j) / xs, g.at(ax, i) / ys
        return x * x + y * y
    g.forall('squared radius: columns are x, rows are y', (N, N), lambda i, j: g.eq(g.at(r2, i, j), sq(i, j)))
    g.forall('radius is the root of the squared radius', (N, N),
             lambda i, j: g.and_(g.le(0, g.at(r, i, j)), g.eq(g.at(r, i, j) * g.at(r, i, j), sq(i, j))))


@contract('P03', ['falco.util.azimuthal_grid', 'falco.util.radial_grid'])
def azimuth_matches_radius(g):
    """polar grids: r cos(theta) = x and r sin(theta) = y"""
    N = g.int('N', 1, 7)
    ax = g.array('ax', (N,), 'real')
    th = g.fn('falco.util.azimuthal_grid')(ax)
    r = g.fn('falco.util.radial_grid')(ax)
    g.ensure_shape('square', th, (N, N))
    g.forall('x', (N, N), lambda i, j: g.eq(g.at(r, i, j) * g.re(g.expi(g.at(th, i, j))), g.at(ax, j)))
    g.forall('y', (N, N), lambda i, j: g.eq(g.at(r, i, j) * g.im(g.expi(g.at(th, i, j))), g.at(ax, i)))


@contract('P03', ['falco.util.ceil_even', 'falco.util.ceil_odd'])
def ceil_parity(g):
    x = g.real('x', None, hi=30)
    e = g.fn('falco.util.ceil_even')(x)
    o = g.fn('falco.util.ceil_odd')(x)
    g.ensure('even result is even', e % 2 == 0)
    g.ensure('odd result is odd', o % 2 == 1)
    g.ensure('smallest even integer not below x', g.and_(e >= x, e - 2 < x))
    g.ensure('smallest odd integer not below x', g.and_(o >= x, o - 2 < x))


@contract('P03', ['falco.util.cart2pol'])
def polar(g):
    x = g.real('x')
    y = g.real('y')
    rho, th = g.fn('falco.util.cart2pol')(x, y)
    g.ensure('x', g.eq(rho * g.re(g.expi(th)), x))
    g.ensure('y', g.eq(rho * g.im(g.expi(th)), y))
    g.ensure('radius nonnegative', g.le(0, rho))


# ------------------------------------------------------------ P04 binning
@contract('P04', 'falco.util.bin_downsample')
def bin_mean(g):
    n = g.int('n', 1, 4)
    m = g.int('m', 1, 4)
    d = g.int('d', 1, 4)
    a = g.array('a', (n * d, m * d), 'real')
    b = g.fn('falco.util.bin_downsample')(a, d)
    g.ensure_shape('size divided by the factor', b, (n, m))
    g.forall('every output pixel is the mean of its block', (n, m),
             lambda i, j: g.eq(g.at(b, i, j) * (d * d),
                               g.sum(d, lambda u: g.sum(d, lambda v: g.at(a, i * d + u, j * d + v)))))
    g.cover('end')


@contract('P04', 'falco.util.bin_downsample')
def bin_mean_of_integers(g):
    n, m, d = g.int('n', 1, 4), g.int('m', 1, 4), g.int('d', 1, 4)
    a = g.array('a', (n * d, m * d), 'int')
    b = g.fn('falco.util.bin_downsample')(a, d)
    g.forall('every output pixel is the mean of its block', (n, m),
             lambda i, j: g.eq(g.at(b, i, j) * (d * d),
                               g.sum(d, lambda u: g.sum(d, lambda v: g.at(a, i * d + u, j * d + v)))))


@contract('P04', 'falco.util.bin_downsample')
def bin_constant(g):
    """a uniform array keeps its level"""
    n = g.int('n', 1, 4)
    m = g.int('m', 1, 4)
    d = g.int('d', 1, 4)
    v = g.real('v')
    a = g.array('z', (n * d, m * d), 'real') * 0 + v
    b = g.fn('falco.util.bin_downsample')(a, d)
    g.forall('level kept', (n, m), lambda i, j: g.eq(g.at(b, i, j), v))


@contract('P04', 'falco.util.bin_downsample')
def bin_rejects(g):
    N = g.int('N', 1, 9)
    M = g.int('M', 1, 9)
    d = g.int('d', 1, 5)
    g.assume(g.or_(N % d != 0, M % d != 0))
    a = g.array('a', (N, M), 'real')
    g.raises('indivisible sizes are rejected', ValueError, lambda: g.fn('falco.util.bin_downsample')(a, d))
