"""Input validators: each accepts exactly its documented class."""
from pyvc.registry import contract, bounded


class MyExc(Exception):
    pass


def accepts(g, name, f, x, exc=MyExc, extra=True):
    st, r = g.outcome((lambda: f(x, 'x', exc)) if extra else (lambda: f(x, 'x')))
    g.ensure(name + ': accepted', st == 'ok')
    if st == 'ok':
        if g.isarray(x):
            g.ensure_arr(name + ': returned unchanged', r, x)
        elif isinstance(x, (str, bytes, dict, bool)):
            g.ensure(name + ': returned unchanged', r is x)
        elif not isinstance(x, (list, tuple)):
            g.ensure(name + ': returned unchanged', g.eq(r, x))


def rejects(g, name, f, x, exc=MyExc, extra=True):
    g.raises(name + ': rejected', exc, (lambda: f(x, 'x', exc)) if extra else (lambda: f(x, 'x')))


SCALAR_JUNK = [None, 'txt', (1.0,), [5, 5], {}]


def scalar_contract(fname, sign, integer):
    def fn(g):
        f = g.fn('falco.check.' + fname)
        n = g.int('n')
        if sign == 'pos':
            ok = n > 0
        elif sign == 'nn':
            ok = n >= 0
        else:
            ok = True
        if ok:
            accepts(g, 'integer of the class', f, n)
        else:
            rejects(g, 'integer of the wrong sign', f, n)
        x = g.real('x')
        if integer:
            rejects(g, 'real number', f, x + 0.5)
        else:
            okx = x > 0 if sign == 'pos' else (x >= 0 if sign == 'nn' else True)
            if okx:
                accepts(g, 'real of the class', f, x)
            else:
                rejects(g, 'real of the wrong sign', f, x)
        z0 = 0
        if sign == 'pos':
            rejects(g, 'zero', f, z0)
            rejects(g, 'float zero', f, 0.0)
        else:
            accepts(g, 'zero', f, z0)
            if not integer:
                accepts(g, 'float zero', f, 0.0)
        rejects(g, 'complex', f, 1j)
        for j in SCALAR_JUNK:
            rejects(g, 'not a number: %r' % (j,), f, j)
        k = g.int('k', 1, 4)
        rejects(g, 'array', f, g.array('a', (k,), 'real'))
        g.raises('name must be a string', Exception, lambda: f(1, 7, MyExc))
        g.raises('exception class required', Exception, lambda: f(1, 'x', 'no exception'))
        g.cover('end')
    fn.__name__ = fname
    return fn


for _f, _s, _i in [('real_positive_scalar', 'pos', False), ('real_nonnegative_scalar', 'nn', False),
                   ('real_scalar', None, False), ('positive_scalar_integer', 'pos', True),
                   ('nonnegative_scalar_integer', 'nn', True), ('scalar_integer', None, True)]:
    contract('P09', 'falco.check.' + _f)(scalar_contract(_f, _s, _i))


def dim_contract(fname, dim, square=False):
    def fn(g):
        f = g.fn('falco.check.' + fname)
        n = g.int('n', 1, 4)
        m = g.int('m', 1, 4)
        p = g.int('p', 1, 3)
        q = g.int('q', 1, 3)
        kind = g.choice('kind', ['real', 'complex', 'int', 'bool'])
        sh = (n, m, p, q)
        for d in range(1, 5):
            a = g.array('a%d' % d, sh[:d], kind)
            good = d == dim
            if good and square:
                good = n == m
            if good:
                accepts(g, '%d-D %s' % (d, kind), f, a)
            else:
                rejects(g, '%d-D %s' % (d, kind), f, a)
        if square:
            accepts(g, 'square', f, g.array('sq', (n, n), kind))
        rejects(g, 'scalar', f, 5)
        rejects(g, 'string', f, 'foo')
        g.cover('end')
    fn.__name__ = fname
    return fn


for _f, _d, _q in [('oneD_array', 1, False), ('twoD_array', 2, False), ('twoD_square_array', 2, True),
                   ('threeD_array', 3, False)]:
    contract('P09', 'falco.check.' + _f)(dim_contract(_f, _d, _q))


@contract('P09', 'falco.check.real_array')
def real_array(g):
    f = g.fn('falco.check.real_array')
    n = g.int('n', 1, 4)
    m = g.int('m', 1, 4)
    d = g.choice('d', [1, 2, 3])
    sh = (n, m, 2)[:d]
    for kind in ('real', 'int', 'bool'):
        accepts(g, 'real-valued ' + kind, f, g.array('a' + kind, sh, kind))
    rejects(g, 'complex array', f, g.array('c', sh, 'complex'))
    rejects(g, 'scalar', f, 3.5)
    rejects(g, 'string', f, 'foo')
    accepts(g, 'list', f, [1.0, 2.0])
    g.cover('end')


@contract('P09', ['falco.check.string', 'falco.check.boolean', 'falco.check.dictionary', 'falco.check.is_dict',
                  'falco.check.is_bool', 'falco.check.centering'])
def typed_values(g):
    ck = lambda n: g.fn('falco.check.' + n)
    n = g.int('n')
    x = g.real('x')
    k = g.int('k', 1, 3)
    a = g.array('a', (k,), 'real')
    vals = {'string': ['', 'abc', b'xy'], 'boolean': [True, False], 'dictionary': [{}, {'a': 1}]}
    for nm, good in vals.items():
        for v in good:
            accepts(g, nm, ck(nm), v)
        for v in [v for o, q in vals.items() if o != nm for v in q] + [None, 1j, [1], (1,)]:
            rejects(g, nm + ' given %r' % (v,), ck(nm), v)
        for v in (n, x, a):
            rejects(g, nm + ' given a number or array', ck(nm), v)
    for v in vals['dictionary']:
        accepts(g, 'is_dict', ck('is_dict'), v, extra=False)
    for v in vals['boolean']:
        accepts(g, 'is_bool', ck('is_bool'), v, extra=False)
    for v in [None, 'a', [1], 1j, True]:
        rejects(g, 'is_dict %r' % (v,), ck('is_dict'), v, TypeError, extra=False)
    for v in [None, 'a', [1], 1j, 1, 0, {}]:
        rejects(g, 'is_bool %r' % (v,), ck('is_bool'), v, TypeError, extra=False)
    c = ck('centering')
    g.ensure('pixel', c('pixel') == 'pixel')
    g.ensure('interpixel', c('interpixel') == 'interpixel')
    for s in ['', 'Pixel', 'pixels', 'inter', 'corner', 'interpixel ']:
        g.raises('unknown centring %r' % s, ValueError, lambda: c(s))
    for v in [None, 1, b'pixel', ['pixel'], n]:
        g.raises('centring must be a string', TypeError, lambda: c(v))
    g.cover('end')


@contract('P09', 'falco.check.*', no_concrete=False)
def numpy_scalars_count_as_numbers(g):
    """numpy scalars are numbers like python ones (concrete data)"""
    if g.sym:
        import numpy as np
    else:
        np = g.np
    for nm in ('real_positive_scalar', 'real_nonnegative_scalar', 'real_scalar'):
        f = g.fn('falco.check.' + nm)
        for v in (np.float64(1.5), np.int64(3), np.float32(2.0), 2, 0.25):
            accepts(g, nm, f, v)
    for nm in ('positive_scalar_integer', 'nonnegative_scalar_integer', 'scalar_integer'):
        f = g.fn('falco.check.' + nm)
        for v in (np.int64(3), np.int32(1), np.uint8(7), 5):
            accepts(g, nm, f, v)
        for v in (np.float64(1.0), 2.0, np.complex128(1)):
            rejects(g, nm, f, v)
