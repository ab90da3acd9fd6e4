"""Symbolic-shape arrays: shape tuple (ints / symbolic ints) + element function."""
import itertools
import z3
import numpy as _rnp
from . import core as C
from . import terms as T
from .core import (Num, SBool, Cplx, Unsupported, vite, band, bor, bnot,
                   is_scalar, tyof, tojoin, aspoly, mknum)


def _ctx():
    return C.CTX


class _NoFork(object):
    def __enter__(self):
        _ctx().nofork += 1

    def __exit__(self, *a):
        _ctx().nofork -= 1


def dim_eq(a, b):
    """decide dimension equality (may fork the path)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bool(a == b)


def sz_is(a, n):
    if isinstance(a, int):
        return a == n
    return a.p.is_const() and a.p.const_val() == n


_OID = itertools.count()


class Arr(object):
    __array_ufunc__ = None
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, shape, fn, dt, base=None, basekey=None, frozen=False,
                 prov=None):
        self.shape_ = tuple(shape)
        self._fn = fn
        self.dt = dt
        self.base = base          # (base array, map fn, region fn)
        self.frozen = frozen      # numpy would return a view we do not model for writes
        self.prov = prov          # ('flat', arr) etc.
        self.oid = next(_OID)
        self.version = 0
        self.cache = {}

    # -------------------------------------------------------------- access
    @property
    def shape(self):
        return self.shape_

    @shape.setter
    def shape(self, v):
        raise Unsupported('assignment to .shape')

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        r = 1
        for d in self.shape_:
            r = r * d
        return r

    @property
    def dtype(self):
        from . import symnp
        return symnp.DT[self.dt]

    def fn(self, *idx):
        if self.base is not None:
            b, mp, _ = self.base
            return b.fn(*mp(*idx))
        key = None
        if all(isinstance(i, int) for i in idx):
            key = idx
            r = self.cache.get(key)
            if r is not None:
                return r
        r = self._fn(*idx)
        if key is not None:
            self.cache[key] = r
        return r

    def snap(self):
        """immutable element function of the current contents"""
        if self.base is not None:
            b, mp, _ = self.base
            f = b.snap()
            return lambda *idx: f(*mp(*idx))
        f = self._fn
        cache = self.cache

        def g(*idx):
            if all(isinstance(i, int) for i in idx):
                r = cache.get(idx)
                if r is None:
                    r = f(*idx)
                    cache[idx] = r
                return r
            return f(*idx)
        return g

    def _mutate(self, newfn):
        if self.frozen:
            raise Unsupported('in-place write through a derived view')
        if self.base is not None:
            b, mp, region = self.base
            bo = b.snap()

            def nf(*bidx):
                cond, vidx = region(*bidx)
                if cond is False:
                    return bo(*bidx)
                return vite(cond, newfn(*vidx), bo(*bidx))
            b._mutate(nf)
            return
        j = _ctx().journal
        if j is not None:
            j.arr(self)
        self._fn = newfn
        self.cache = {}
        self.version += 1

    # --------------------------------------------------------------- basics
    def __len__(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        n = self.shape_[0]
        if isinstance(n, int):
            return n
        raise Unsupported('native len() of symbolic array')

    def slen(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        return self.shape_[0]

    def __iter__(self):
        if not self.shape_:
            raise TypeError('iteration over a 0-d array')
        n = self.shape_[0]
        if not isinstance(n, int):
            raise Unsupported('native iteration over symbolic-length array')
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            return bool(self.fn(*[0] * self.ndim))
        if isinstance(n, Num):
            if bool(n == 1):
                return bool(self.fn(*[0] * self.ndim))
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def copy(self, order=None):
        return Arr(self.shape_, self.snap(), self.dt, prov=None)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if not bool(self.size == 1):
            raise ValueError('can only convert an array of size 1 to a scalar')
        return self.fn(*[0] * self.ndim)

    def tolist(self):
        if not self.shape_:
            return self.fn()
        n = self.shape_[0]
        if not isinstance(n, int):
            raise Unsupported('tolist of symbolic-length array')
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def __int__(self):
        raise Unsupported('int(array)')

    def __float__(self):
        raise Unsupported('float(array)')

    def __repr__(self):
        return 'Arr%r[%s]' % (self.shape_, self.dt)

    def __format__(self, s):
        return '<arr>'

    def __contains__(self, x):
        from . import symnp
        return bool(symnp.np_any(self == x))

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---------------------------------------------------------- arithmetic
    def __add__(self, o): return ew2(self, o, lambda a, b: a + b)
    def __radd__(self, o): return ew2(o, self, lambda a, b: a + b)
    def __sub__(self, o): return ew2(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return ew2(o, self, lambda a, b: a - b)
    def __mul__(self, o): return ew2(self, o, smul)
    def __rmul__(self, o): return ew2(o, self, smul)
    def __truediv__(self, o): return ew2(self, o, sdiv, dt='div')
    def __rtruediv__(self, o): return ew2(o, self, sdiv, dt='div')
    def __floordiv__(self, o): return ew2(self, o, lambda a, b: a // b)
    def __rfloordiv__(self, o): return ew2(o, self, lambda a, b: a // b)
    def __mod__(self, o): return ew2(self, o, lambda a, b: a % b)
    def __rmod__(self, o): return ew2(o, self, lambda a, b: a % b)
    def __pow__(self, o): return ew2(self, o, C.npow)
    def __rpow__(self, o): return ew2(o, self, C.npow)
    def __neg__(self): return ew1(self, lambda a: -a)
    def __pos__(self): return self.copy()
    def __abs__(self):
        return ew1(self, C.nabs, dt='real' if self.dt == 'complex' else self.dt)

    def __lt__(self, o): return ew2(self, o, lambda a, b: a < b, dt='bool')
    def __le__(self, o): return ew2(self, o, lambda a, b: a <= b, dt='bool')
    def __gt__(self, o): return ew2(self, o, lambda a, b: a > b, dt='bool')
    def __ge__(self, o): return ew2(self, o, lambda a, b: a >= b, dt='bool')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        r = ew2(self, o, lambda a, b: a == b, dt='bool')
        if isinstance(r, Arr) and self.ndim == 1 and self.dt == 'int':
            from . import symnp
            so = symnp.setof(self)
            x = o.fn() if isinstance(o, Arr) and o.shape_ == () else o
            if so is not None and is_scalar(x) and tyof(x) == 'int':
                r.anyof = (r._fn, symnp._in_set(so[0], x))
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return ew2(self, o, lambda a, b: bnot(a == b), dt='bool')

    def __and__(self, o): return ew2(self, o, sand)
    __rand__ = __and__
    def __or__(self, o): return ew2(self, o, sor)
    __ror__ = __or__
    def __xor__(self, o): return ew2(self, o, lambda a, b: bnot(a == b), dt='bool')
    def __invert__(self):
        if self.dt != 'bool':
            raise Unsupported('~ on integers')
        return ew1(self, bnot)

    def _iop(self, o, f, div=False):
        r = ew2(self, o, f, dt='div' if div else None)
        if len(r.shape_) != len(self.shape_):
            raise ValueError('non-broadcastable output operand')
        for a, b in zip(r.shape_, self.shape_):
            if not dim_eq(a, b):
                raise ValueError('non-broadcastable output operand')
        if tojoin(r.dt, self.dt) != self.dt:
            raise TypeError("Cannot cast ufunc output from %s to %s with "
                            "casting rule 'same_kind'" % (r.dt, self.dt))
        self._mutate(r.snap())
        return self

    def __iadd__(self, o): return self._iop(o, lambda a, b: a + b)
    def __isub__(self, o): return self._iop(o, lambda a, b: a - b)
    def __imul__(self, o): return self._iop(o, smul)
    def __itruediv__(self, o): return self._iop(o, sdiv, True)
    def __iand__(self, o): return self._iop(o, sand)
    def __ior__(self, o): return self._iop(o, sor)
    def __ipow__(self, o): return self._iop(o, C.npow)

    def __matmul__(self, o):
        from . import symnp
        return symnp.matmul(self, o)

    def __rmatmul__(self, o):
        from . import symnp
        return symnp.matmul(o, self)

    # ------------------------------------------------------------- methods
    @property
    def T(self):
        return transpose(self)

    @property
    def real(self):
        if self.dt != 'complex':
            return self
        r = ew1(self, lambda a: C.ascplx(a).re, dt='real')
        r.frozen = True
        return r

    @real.setter
    def real(self, v):
        raise Unsupported('assignment to .real')

    @property
    def imag(self):
        r = ew1(self, lambda a: C.ascplx(a).im, dt='real')
        r.frozen = True
        return r

    @property
    def flat(self):
        return self.flatten()

    def conj(self):
        if self.dt != 'complex':
            return self
        return ew1(self, lambda a: C.ascplx(a).conj())
    conjugate = conj

    def transpose(self, *ax):
        return transpose(self, *ax)

    def flatten(self, order='C'):
        return flatten(self, order)

    def ravel(self, order='C'):
        if order == 'C' and self.base is None and getattr(self, 'contig', False) and self.ndim == 2:
            # freshly allocated C-ordered array: a writable view
            n1 = self.shape_[1]
            return Arr((self.shape_[0] * n1,), None, self.dt, base=(
                self, lambda k: (k // n1, k % n1), lambda i, j: (True, (i * n1 + j,))))
        r = flatten(self, order)
        r.frozen = True
        return r

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, Arr)):
            shape = tuple(shape[0])
        return reshape(self, shape, kw.get('order', 'C'))

    def squeeze(self, axis=None):
        from . import symnp
        return symnp.squeeze(self, axis)

    def astype(self, t, **kw):
        ty = C.dtype_name(t)
        f = self.snap()
        if ty == 'object':
            raise Unsupported('astype object')
        if ty == self.dt:
            r = Arr(self.shape_, f, ty)
        else:
            r = Arr(self.shape_, lambda *i: C.cast_scalar(f(*i), t), ty)
        ps = getattr(self, 'parts', None)
        if ps is not None and self.base is None and self._fn is ps[0]:
            r.parts = (r._fn, [p.astype(t) for p in ps[1]])
        mk = getattr(self, 'maskof', None)
        if mk is not None and ty in ('int', 'real') and self.base is None and self._fn is mk[0]:
            r.maskof = (r._fn,) + mk[1:]
        so = getattr(self, 'setof_', None)
        if so is not None and self.base is None and so[0] is self._fn and ty == self.dt:
            r.setof_ = (r._fn,) + so[1:]
        return r

    def _np(name):
        def m(self, *a, **k):
            from . import symnp
            return getattr(symnp.NP, name)(self, *a, **k)
        return m
    sum = _np('sum')
    mean = _np('mean')
    max = _np('max')
    min = _np('min')
    any = _np('any')
    all = _np('all')
    round = _np('round')
    dot = _np('dot')
    argmin = _np('argmin')
    argmax = _np('argmax')
    nonzero = _np('nonzero')
    prod = _np('prod')
    std = _np('std')
    repeat = _np('repeat')
    cumsum = _np('cumsum')

    def fill(self, v):
        self[...] = v


def smul(a, b):
    if isinstance(a, SBool) and isinstance(b, (Num, Cplx, float)):
        return vite(a, b, 0)
    if isinstance(b, SBool) and isinstance(a, (Num, Cplx, float)):
        return vite(b, a, 0)
    return a * b


def sdiv(a, b):
    # numpy arrays divide without raising
    if isinstance(b, (int, float, _rnp.generic)) and b == 0:
        raise Unsupported('numpy division by literal zero')
    return a / b if not (isinstance(a, (int, float)) and isinstance(b, (int, float))) \
        else mknum(aspoly(a).div(aspoly(b)), 'real')


def sand(a, b):
    if C._isb(a) and C._isb(b):
        return band(a, b)
    raise Unsupported('bitwise & on integers')


def sor(a, b):
    if C._isb(a) and C._isb(b):
        return bor(a, b)
    raise Unsupported('bitwise | on integers')


# ------------------------------------------------------------- conversion
def asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, _rnp.ndarray):
        if x.dtype == object:
            k = x.copy()
            dt = tojoin(*[tyof(v) for v in k.ravel()]) if k.size else 'real'
        else:
            dt = C.dtype_name(x.dtype)
            k = x.copy()
        return from_nd(k, dt)
    if is_scalar(x):
        return Arr((), lambda: x, tyof(x))
    if hasattr(x, 'as_arr'):
        return x.as_arr()
    if isinstance(x, (list, tuple, range)):
        return from_list(list(x))
    if isinstance(x, Compressed):
        return x.toarr()
    if isinstance(x, (str, dict, set)) or x is None:
        raise Unsupported('array of %s' % type(x))
    raise Unsupported('array of %s' % type(x))


def from_nd(k, dt):
    def f(*idx):
        if all(isinstance(i, int) for i in idx):
            v = k[idx]
            return v.item() if hasattr(v, 'item') else v
        return _select(k, idx)
    return Arr(k.shape, f, dt)


def _select(k, idx):
    """symbolic index into concrete data: ite chain"""
    if k.size > 400:
        raise Unsupported('symbolic index into large concrete array')
    i = idx[0]
    n = k.shape[0]
    rest = idx[1:]

    def get(a):
        sub = k[a]
        if rest:
            if all(isinstance(q, int) for q in rest):
                v = sub[rest]
                return v.item() if hasattr(v, 'item') else v
            return _select(sub, rest)
        return sub.item() if hasattr(sub, 'item') else sub
    if isinstance(i, int):
        return get(i)
    if n == 0:
        return 0
    r = get(n - 1)
    for a in range(n - 2, -1, -1):
        r = vite(i == a, get(a), r)
    return r


def from_list(x):
    n = len(x)
    if n == 0:
        return Arr((0,), lambda i: 0.0, 'real')
    if all(is_scalar(v) for v in x):
        k = _rnp.empty(n, dtype=object)
        for i, v in enumerate(x):
            k[i] = v
        return from_nd(k, tojoin(*[tyof(v) for v in x]))
    els = [asarr(v) for v in x]
    s0 = els[0].shape_
    for e in els[1:]:
        if len(e.shape_) != len(s0):
            raise ValueError('inhomogeneous shape')
        for a, b in zip(e.shape_, s0):
            if not dim_eq(a, b):
                raise ValueError('inhomogeneous shape')
    fs = [e.snap() for e in els]

    def f(i, *rest):
        if isinstance(i, int):
            return fs[i](*rest)
        r = fs[-1](*rest)
        for a in range(n - 2, -1, -1):
            r = vite(i == a, fs[a](*rest), r)
        return r
    return Arr((n,) + tuple(s0), f, tojoin(*[e.dt for e in els]))


# ---------------------------------------------------------- elementwise ops
def _parts(a):
    ps = getattr(a, 'parts', None)
    return ps[1] if ps is not None and a.base is None and a._fn is ps[0] else None


def ew1(a, f, dt=None):
    g = a.snap()
    r = Arr(a.shape_, lambda *i: f(g(*i)), dt or a.dt)
    ps = _parts(a)
    if ps is not None:
        r.parts = (r._fn, [ew1(p, f, dt) for p in ps])
    return r


def const_mask(k):
    """[(offset, length, bool)] of a 1-D mask made of constant pieces, or None"""
    if k.ndim != 1:
        return None
    ps = _parts(k)
    if ps is None:
        if isinstance(k.shape_[0], int):
            return None
        ps = [k]
    out, off = [], 0
    for p in ps:
        if sz_is(p.shape_[0], 0):
            continue
        q = Num(T.sym(T.fresh_name('pp'), True), 'int')
        v = p._fn(q) if p.base is None else p.snap()(q)
        if isinstance(v, SBool):
            return None
        out.append((off, p.shape_[0], bool(v)))
        off = off + p.shape_[0]
    return out


def bshape(*shapes):
    """broadcast shapes; may fork on symbolic dims"""
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if sz_is(e, 1):
                continue
            if sz_is(d, 1):
                d = e
                continue
            if d is e or dim_eq(d, e):
                continue
            if bool(e == 1):
                continue
            if bool(d == 1):
                d = e
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def bmap(shape, out):
    """index map from broadcast result to operand"""
    off = len(out) - len(shape)
    flags = []
    for j, e in enumerate(shape):
        o = out[off + j]
        if sz_is(e, 1) and not sz_is(o, 1):
            flags.append(0)
        elif sz_is(e, 1):
            flags.append(0)
        elif isinstance(e, int) or isinstance(o, int) or e is o or e.p.key == o.p.key:
            flags.append(1)
        else:
            # symbolic e, o: bshape established e==o or e==1
            flags.append(1 if _ctx().proves((e == o).z if isinstance(e == o, SBool) else z3.BoolVal(bool(e == o))) else 0)

    def m(idx):
        return [idx[off + j] if fl else 0 for j, fl in enumerate(flags)]
    return m


def ew2(a, b, f, dt=None):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        raise TypeError('unsupported operand')
    a, b = asarr(a), asarr(b)
    sh = bshape(a.shape_, b.shape_)
    fa, fb = a.snap(), b.snap()
    ma, mb = bmap(a.shape_, sh), bmap(b.shape_, sh)
    if dt is None:
        dt = tojoin(a.dt, b.dt)
        if dt == 'bool' and f in (smul,):
            dt = 'bool'
    elif dt == 'div':
        dt = tojoin(a.dt, b.dt, 'real')
    r = Arr(sh, lambda *i: f(fa(*ma(i)), fb(*mb(i))), dt)
    if len(sh) == 1:
        for x, y, sw in ((a, b, False), (b, a, True)):
            ps = _parts(x) if y.shape_ == () else None
            if ps is not None:
                v = y.fn()
                r.parts = (r._fn, [ew1(p, (lambda e: f(v, e)) if sw else (lambda e: f(e, v)), dt) for p in ps])
    return r


def ewn(f, dt, *ops):
    ops = [asarr(o) for o in ops]
    sh = bshape(*[o.shape_ for o in ops])
    fs = [(o.snap(), bmap(o.shape_, sh)) for o in ops]
    return Arr(sh, lambda *i: f(*[g(*m(i)) for g, m in fs]), dt)


def unwrap0(x):
    return x.fn() if isinstance(x, Arr) and x.shape_ == () else x


# ------------------------------------------------------------ shape changes
def transpose(a, *ax):
    n = a.ndim
    if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
        ax = tuple(ax[0])
    if not ax or ax == (None,):
        ax = tuple(reversed(range(n)))
    ax = tuple(x % n for x in ax)
    sh = tuple(a.shape_[x] for x in ax)

    def mp(*idx):
        r = [None] * n
        for k, x in enumerate(ax):
            r[x] = idx[k]
        return r

    def region(*b):
        return True, [b[x] for x in ax]
    return Arr(sh, None, a.dt, base=(a, mp, region))


def flatten(a, order='C'):
    if order not in ('C', 'F', 'A', 'K'):
        raise Unsupported('order')
    if a.ndim == 1:
        return a.copy()
    if a.prov is not None and a.prov[0] == 'unflat' and a.prov[2] == order and \
            a.prov[3] == a.version:
        pass
    f = a.snap()
    sh = a.shape_
    if order == 'F':
        n = a.ndim

        def g(i):
            idx = []
            for d in range(n - 1):
                if sz_is(sh[d], 1):
                    idx.append(0)
                    continue
                idx.append(i % sh[d])
                i = i // sh[d]
            idx.append(i)
            return f(*idx)
    else:
        def g(i):
            idx = []
            for d in range(a.ndim - 1, 0, -1):
                if sz_is(sh[d], 1):
                    idx.append(0)
                    continue
                q = i // sh[d]
                idx.append(i - q * sh[d])
                i = q
            idx.append(i)
            return f(*reversed(idx))
    r = Arr((a.size,), g, a.dt)
    r.prov = ('flat', (sh, f), order)
    r.provv = 0
    return r


def reshape(a, shape, order='C'):
    shape = list(shape)
    for i, s in enumerate(shape):
        if isinstance(s, _rnp.integer):
            shape[i] = int(s)
    neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if len(neg) > 1:
        raise ValueError('can only specify one unknown dimension')
    if neg:
        rest = 1
        for i, s in enumerate(shape):
            if i != neg[0]:
                rest = rest * s
        q = a.size // rest
        if not bool(q * rest == a.size):
            raise ValueError('cannot reshape array')
        shape[neg[0]] = q
    tot = 1
    for s in shape:
        tot = tot * s
    if not dim_eq(tot, a.size):
        raise ValueError('cannot reshape array of size into shape')
    for s in shape:
        if isinstance(s, Num) and s.ty != 'int' or isinstance(s, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    # drop / add singleton dims only
    ns = [d for d in a.shape_ if not sz_is(d, 1)]
    ms = [d for d in shape if not sz_is(d, 1)]
    f = a.snap()
    if len(ns) == len(ms) and all(dim_same(p, q) for p, q in zip(ns, ms)) and \
            (order == 'C' or True):
        src = [j for j, d in enumerate(a.shape_) if not sz_is(d, 1)]
        dst = [j for j, d in enumerate(shape) if not sz_is(d, 1)]
        nd = a.ndim
        nshape = tuple(shape)

        def mp(*idx):
            r = [0] * nd
            for p, q in zip(src, dst):
                r[p] = idx[q]
            return r

        def region(*b):
            r = [0] * len(nshape)
            for p, q in zip(src, dst):
                r[q] = b[p]
            return True, r
        return Arr(nshape, None, a.dt, base=(a, mp, region))
    # un-flatten of a flattened array with the same shape
    if a.prov is not None and a.prov[0] == 'flat' and a.version == 0 and \
            a.prov[2] == order:
        sh0, f0 = a.prov[1]
        if len(sh0) == len(shape) and all(dim_same(p, q) for p, q in zip(sh0, shape)):
            return Arr(tuple(shape), f0, a.dt, frozen=False)
    fl = flatten(a, order)
    ff = fl.snap()
    if order == 'F':
        def g(*idx):
            i = 0
            for d in range(len(shape) - 1, -1, -1):
                i = i * shape[d] + idx[d]
            return ff(i)
    else:
        def g(*idx):
            i = 0
            for d in range(len(shape)):
                i = i * shape[d] + idx[d]
            return ff(i)
    r = Arr(tuple(shape), g, a.dt, frozen=(a.ndim >= 1))
    return r


def dim_same(p, q):
    if isinstance(p, int) and isinstance(q, int):
        return p == q
    if isinstance(p, Num) and isinstance(q, Num) and p.p.key == q.p.key:
        return True
    e = (p == q)
    if isinstance(e, SBool) and isinstance(p, Num) and isinstance(q, Num) and _plain(p) and _plain(q):
        return _ctx().proves0(e.z)     # two sizes of the harness: only ground facts relate them
    return _ctx().proves(e.z) if isinstance(e, SBool) else bool(e)


def _plain(n):
    from . import terms as T
    at = T.poly_single_atom(n.p)
    return at is not None and at.kind == 'sym'



# ---------------------------------------------------------------- indexing
def _norm_int(i, n):
    if isinstance(i, _rnp.integer):
        i = int(i)
    if isinstance(i, Num) and i.ty != 'int':
        raise IndexError('only integers, slices are valid indices')
    if isinstance(i, float):
        raise IndexError('only integers, slices are valid indices')
    if i < 0:
        i = i + n
        if i < 0:
            raise IndexError('index out of bounds')
    elif not (i < n):
        raise IndexError('index out of bounds')
    return i


def norm_slice(s, n):
    """-> (start, count, step) with Python clamping semantics (forks)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, Num):
        raise Unsupported('symbolic slice step')
    step = int(step)

    def chk(v):
        if isinstance(v, _rnp.integer):
            return int(v)
        if isinstance(v, (float,)) or (isinstance(v, Num) and v.ty != 'int'):
            raise TypeError('slice indices must be integers or None or have an __index__ method')
        if isinstance(v, Arr):
            if v.size == 1:
                return v.item()
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return v
    a, b = chk(s.start), chk(s.stop)
    if step > 0:
        if a is None:
            a = 0
        else:
            if a < 0:
                a = a + n
                if a < 0:
                    a = 0
            elif a > n:
                a = n
        if b is None:
            b = n
        else:
            if b < 0:
                b = b + n
                if b < 0:
                    b = 0
            elif b > n:
                b = n
        if b <= a:
            return a, 0, step
        d = b - a
        cnt = d if step == 1 else (d + (step - 1)) // step
        return a, cnt, step
    else:
        if a is None:
            a = n - 1
        else:
            if a < 0:
                a = a + n
                if a < 0:
                    a = -1
            elif a >= n:
                a = n - 1
        if b is None:
            b = -1
        else:
            if b < 0:
                b = b + n
                if b < 0:
                    b = -1
            elif b >= n:
                b = n - 1
        if b >= a:
            return a, 0, step
        d = a - b
        st = -step
        cnt = d if st == 1 else (d + (st - 1)) // st
        return a, cnt, step


def _expand(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    for i, k in enumerate(key):
        if isinstance(k, _rnp.ndarray):
            key[i] = asarr(k) if k.shape else k.item()
        elif isinstance(k, (list, range)):
            key[i] = asarr(k)
        elif hasattr(k, 'as_arr'):
            key[i] = k.as_arr()
        if isinstance(key[i], Arr) and key[i].shape_ == () :
            key[i] = key[i].fn()
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Arr) and k.dt == 'bool':
            used += k.ndim
        else:
            used += 1
    el = [i for i, k in enumerate(key) if k is Ellipsis]
    if el:
        i = el[0]
        key[i:i + 1] = [slice(None)] * (a.ndim - used)
    else:
        key += [slice(None)] * (a.ndim - used)
    if used > a.ndim:
        raise IndexError('too many indices for array')
    return key


def basic_region(a, key):
    """basic indexing -> (view shape, mp, region) ; key expanded"""
    spec = []
    vshape = []
    d = 0
    for k in key:
        if k is None:
            vshape.append(1)
            spec.append(('new', None))
            continue
        n = a.shape_[d]
        if isinstance(k, slice):
            s, c, st = norm_slice(k, n)
            spec.append(('sl', s, c, st))
            vshape.append(c)
        else:
            spec.append(('int', _norm_int(k, n)))
        d += 1

    def mp(*idx):
        out = []
        j = 0
        for s in spec:
            if s[0] == 'new':
                j += 1
            elif s[0] == 'int':
                out.append(s[1])
            else:
                out.append(s[1] + idx[j] * s[3] if s[3] != 1 else s[1] + idx[j])
                j += 1
        return out

    def region(*b):
        conds = []
        v = []
        dd = 0
        for s in spec:
            if s[0] == 'new':
                v.append(0)
                continue
            x = b[dd]
            if s[0] == 'int':
                conds.append(x == s[1])
            else:
                st = s[3]
                q = x - s[1]
                if st == 1:
                    if not (isinstance(s[1], int) and s[1] == 0):
                        conds.append(q >= 0)
                    if not _same(s[2], a.shape_[dd], s[1]):
                        conds.append(q < s[2])
                    v.append(q)
                else:
                    if st < 0:
                        q = s[1] - x
                    m = abs(st)
                    if m != 1:
                        conds.append((q % m) == 0)
                        q = q // m
                    conds.append(q >= 0)
                    conds.append(q < s[2])
                    v.append(q)
            dd += 1
        return band(*conds), v
    return tuple(vshape), mp, region


def _same(cnt, dim, start):
    if not (isinstance(start, int) and start == 0):
        return False
    if isinstance(cnt, int) and isinstance(dim, int):
        return cnt == dim
    if isinstance(cnt, Num) and isinstance(dim, Num):
        return cnt.p.key == dim.p.key
    return False


def is_basic(key):
    return all(k is None or isinstance(k, (slice, int, _rnp.integer, Num)) and
               not isinstance(k, bool) or isinstance(k, float) for k in key)


class Compressed(object):
    """A[mask]: the selected elements in C order (length = count(mask))."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, fn, mask, extra, dt):
        self.fn0 = fn          # full-index function
        self.mask = mask       # Arr bool (snapshot), over leading dims
        self.extra = tuple(extra)   # trailing dims
        self.dt = dt

    def toarr(self):
        """the selected elements as an ordinary array, through the list of positions"""
        from . import symnp
        nz = symnp.nonzero(self.mask)
        n = nz[0].shape_[0]
        nz = [x.snap() for x in nz]
        g = self.fn0
        return Arr((n,) + self.extra,
                   lambda k, *r: g(*([f(k) for f in nz] + list(r))), self.dt)

    def _map(self, f, o=None, dt=None):
        g = self.fn0
        if isinstance(o, (list, tuple, _rnp.ndarray)):
            o = asarr(o)
        if isinstance(o, Arr) and o.shape_ != ():
            return ew2(self.toarr(), o, f, dt)
        if o is None:
            return Compressed(lambda *i: f(g(*i)), self.mask, self.extra, dt or self.dt)
        if isinstance(o, Compressed):
            if not same_mask(o.mask, self.mask):
                raise Unsupported('combining differently masked selections')
            h = o.fn0
            return Compressed(lambda *i: f(g(*i), h(*i)), self.mask, self.extra,
                              dt or tojoin(self.dt, o.dt))
        if isinstance(o, Arr) and o.shape_ == ():
            o = o.fn()
        if is_scalar(o):
            return Compressed(lambda *i: f(g(*i), o), self.mask, self.extra,
                              dt or tojoin(self.dt, tyof(o)))
        raise Unsupported('masked selection combined with array')

    def __add__(s, o): return s._map(lambda a, b: a + b, o)
    def __radd__(s, o): return s._map(lambda a, b: b + a, o)
    def __sub__(s, o): return s._map(lambda a, b: a - b, o)
    def __rsub__(s, o): return s._map(lambda a, b: b - a, o)
    def __mul__(s, o): return s._map(lambda a, b: a * b, o)
    def __rmul__(s, o): return s._map(lambda a, b: b * a, o)
    def __truediv__(s, o): return s._map(lambda a, b: a / b, o, 'real')
    def __pow__(s, o): return s._map(C.npow, o)
    def __neg__(s): return s._map(lambda a: -a)
    def __abs__(s): return s._map(C.nabs, dt='real')
    def __lt__(s, o): return s._map(lambda a, b: a < b, o, 'bool')
    def __le__(s, o): return s._map(lambda a, b: a <= b, o, 'bool')
    def __gt__(s, o): return s._map(lambda a, b: a > b, o, 'bool')
    def __ge__(s, o): return s._map(lambda a, b: a >= b, o, 'bool')
    def __eq__(s, o): return s._map(lambda a, b: a == b, o, 'bool')
    def __ne__(s, o): return s._map(lambda a, b: bnot(a == b), o, 'bool')
    __hash__ = object.__hash__
    def conj(s): return s._map(lambda a: C.ascplx(a).conj()) if s.dt == 'complex' else s
    def copy(s): return s
    def flatten(s): return s
    def ravel(s): return s

    def short(self):
        """a handful of entries: the selection is settled by cases"""
        n = self.mask.shape_
        return len(n) == 1 and isinstance(n[0], int) and n[0] <= 12 and not _ctx().nofork

    def reshape(s, *sh): return s.toarr().reshape(*sh)

    @property
    def real(s):
        return s._map(lambda a: C.ascplx(a).re, dt='real') if s.dt == 'complex' else s

    @property
    def imag(s):
        return s._map(lambda a: C.ascplx(a).im, dt='real')

    @property
    def size(self):
        from . import symnp
        r = symnp.count_true(self.mask)
        for d in self.extra:
            r = r * d
        return r

    @property
    def shape(self):
        from . import symnp
        return (symnp.count_true(self.mask),) + self.extra

    def slen(self):
        return self.shape[0]

    @property
    def ndim(self):
        return 1 + len(self.extra)

    def _red(name):
        def m(self, *a, **k):
            from . import symnp
            return getattr(symnp.NP, name)(self, *a, **k)
        return m
    sum = _red('sum')
    mean = _red('mean')
    max = _red('max')
    min = _red('min')
    any = _red('any')
    all = _red('all')


def generic_idx(shape, tag='i'):
    idx = []
    conds = []
    for d in shape:
        if sz_is(d, 1):
            idx.append(0)
            continue
        p = T.sym(T.fresh_name(tag), True)
        v = Num(p, 'int')
        idx.append(v)
        conds += [v >= 0, v < d]
    return idx, conds


def arr_equal(a, b, timeout=1500):
    """prove pointwise equality of two arrays/snapshots under the current path"""
    if len(a.shape) != len(b.shape):
        return False
    for p, q in zip(a.shape, b.shape):
        if not dim_same(p, q):
            return False
    if a.base is None and b.base is None and a._fn is b._fn:
        return True
    idx, conds = generic_idx(a.shape)
    with _NoFork():
        va, vb = a.fn(*idx), b.fn(*idx)
        e = (va == vb) if not (C._isb(va) and C._isb(vb)) else (C.mkbool(C.zb(va) == C.zb(vb)))
    if not isinstance(e, SBool):
        return bool(e)
    g = z3.Implies(z3.And([c.z for c in conds if isinstance(c, SBool)]), e.z)
    if a.dt == 'bool' and b.dt == 'bool':
        return _ctx().proves0(z3.simplify(g))
    return _ctx().proves(z3.simplify(g), timeout)


def same_mask(m1, m2):
    return m1 is m2 or arr_equal(m1, m2)


def _late_masks(a, key):
    """1-D masks behind other indices: a mask with one true segment is a slice, any other its list of positions.
    Returns (key, whether the result would be a copy in NumPy)"""
    if not any(isinstance(k, Arr) and k.dt == 'bool' for k in key[1:]) or any(k is None for k in key):
        return key, False
    from . import symnp
    out, d, copy = [], 0, False
    for i, k in enumerate(key):
        if isinstance(k, Arr) and k.dt == 'bool':
            if i == 0:
                return key, False
            if k.ndim != 1:
                raise Unsupported('n-d mask behind other indices')
            if not dim_eq(k.shape_[0], a.shape_[d]):
                raise IndexError('boolean index did not match')
            copy = True
            cm = const_mask(k)
            on = [(o, n) for o, n, v in cm if v] if cm is not None else None
            if on is not None and len(on) == 1:
                out.append(slice(on[0][0], on[0][0] + on[0][1]))
            else:
                out.append(symnp.nonzero(k)[0])
            d += k.ndim
        else:
            out.append(k)
            d += 1
    n = sum(1 for k in key if isinstance(k, Arr) or isinstance(k, (int, Num, _rnp.integer)))
    if n > 1 and is_basic(out):
        raise Unsupported('mask together with other integer indices')
    return out, copy


def getitem(a, key):
    key = _expand(a, key)
    key, cp = _late_masks(a, key)
    if cp:
        return getitem(a, tuple(key)).copy()
    if is_basic(key):
        if all(isinstance(k, (int, _rnp.integer, Num)) for k in key):
            idx = [_norm_int(k, n) for k, n in zip(key, a.shape_)]
            return a.fn(*idx)
        vs, mp, region = basic_region(a, key)
        return Arr(vs, None, a.dt, base=(a, mp, region))
    # boolean mask in first position, full slices afterwards
    k0 = key[0]
    if isinstance(k0, Arr) and k0.dt == 'bool':
        nd = k0.ndim
        rest = key[1:]
        if all(isinstance(k, slice) and k == slice(None) for k in rest):
            for d in range(nd):
                if not dim_eq(k0.shape_[d], a.shape_[d]):
                    raise IndexError('boolean index did not match')
            cm = const_mask(k0)
            if cm is not None:
                from . import symnp
                xs = [getitem(a, (slice(o, o + n),)) for o, n, v in cm if v]
                if not xs:
                    return getitem(a, (slice(0, 0),))
                return symnp.concatenate(xs, 0) if len(xs) > 1 else xs[0].copy()
            return Compressed(a.snap(), k0.copy(), a.shape_[nd:], a.dt)
        sub = [slice(None)] * nd + list(rest)
        if is_basic(rest):
            b = getitem(a, tuple(sub))
            return getitem(b, k0)
        raise Unsupported('mixed boolean indexing')
    return fancy_get(a, key)


def _fancy_parts(a, key):
    """integer-array indexing; returns (out shape, mp)"""
    # a boolean 1-D mask next to slices is not supported here
    arrs = [(i, k) for i, k in enumerate(key) if isinstance(k, Arr)]
    if any(k.dt == 'bool' for _, k in arrs):
        raise Unsupported('boolean array mixed with other indices')
    if any(isinstance(k, Compressed) and not k.short() for k in key):
        raise Unsupported('indexing by a masked selection')
    if any(isinstance(k, Compressed) for k in key):
        return _fancy_parts(a, tuple(k.toarr() if isinstance(k, Compressed) else k for k in key))
    if any(k is None for k in key):
        raise Unsupported('newaxis mixed with fancy indexing')
    for _, k in arrs:
        if k.dt not in ('int',):
            if not (k.shape_ == (0,)):
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
    advpos = [i for i, k in enumerate(key) if isinstance(k, Arr) or
              isinstance(k, (int, Num, _rnp.integer))]
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    bsh = bshape(*[k.shape_ for _, k in arrs])
    spec = []
    sl_dims = []
    for d, k in enumerate(key):
        n = a.shape_[d]
        if isinstance(k, slice):
            s, c, st = norm_slice(k, n)
            spec.append(('sl', s, st, len(sl_dims)))
            sl_dims.append(c)
        elif isinstance(k, Arr):
            f = k.snap()
            m = bmap(k.shape_, bsh)
            # bounds: require 0<=idx<n for all elements (numpy raises otherwise)
            gi, conds = generic_idx(k.shape_)
            with _NoFork():
                v = f(*gi)
            inb = band(v >= 0, v < n)
            if inb is False:
                neg = band(v < 0, v >= -n)
                if neg is not True:
                    raise IndexError('index out of bounds')
            elif inb is not True:
                ok = _ctx().proves(z3.Implies(z3.And([c.z for c in conds if isinstance(c, SBool)]), C.zb(inb)), 3000)
                if not ok:
                    from . import symnp
                    if not symnp.decide_forall(k, lambda x: band(x >= 0, x < n)):
                        if symnp.decide_forall(k, lambda x: band(x >= -n, x < n)):
                            raise Unsupported('negative fancy indices')
                        raise IndexError('index out of bounds')
            spec.append(('adv', f, m, n))
        else:
            spec.append(('int', _norm_int(k, n)))
    nb = len(bsh)
    pos0 = 0
    if contiguous:
        pos0 = sum(1 for k in key[:advpos[0]] if isinstance(k, slice))
    out = sl_dims[:pos0] + list(bsh) + sl_dims[pos0:]

    def split(idx):
        b = idx[pos0:pos0 + nb]
        s = list(idx[:pos0]) + list(idx[pos0 + nb:])
        return b, s

    def mp(*idx):
        b, s = split(idx)
        r = []
        for q in spec:
            if q[0] == 'sl':
                r.append(q[1] + s[q[3]] * q[2])
            elif q[0] == 'int':
                r.append(q[1])
            else:
                v = q[1](*q[2](b))
                if isinstance(v, (int, float)) and v < 0:
                    v = v + q[3]
                r.append(v)
        return r
    return tuple(out), mp, spec, bsh, split, pos0


def fancy_get(a, key):
    out, mp, spec, bsh, split, _ = _fancy_parts(a, key)
    f = a.snap()
    return Arr(out, lambda *i: f(*mp(*i)), a.dt)


def setitem(a, key, val):
    if isinstance(val, (list, tuple, range, _rnp.ndarray)):
        val = asarr(val)
    key = _expand(a, key)
    key, _ = _late_masks(a, key)
    if isinstance(val, Compressed):
        k0 = key[0]
        if not (isinstance(k0, Arr) and k0.dt == 'bool'):
            setitem(a, tuple(key), val.toarr())
            return
        if not same_mask(k0, val.mask):
            raise Unsupported('assignment of differently masked selection')
        if len(key) > 1 and not all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
            sub = [slice(None)] * k0.ndim + list(key[1:])
            b = getitem(a, tuple(sub))
            setitem(b, k0, val)
            return
        old = a.snap()
        mf = k0.snap()
        nd = k0.ndim
        vf = val.fn0
        a._mutate(lambda *i: vite(mf(*i[:nd]), castv(vf(*i), a.dt), old(*i)))
        return
    if is_basic(key):
        vs, mp, region = basic_region(a, key)
        if is_scalar(val):
            vf = lambda *i: val
            vdt = tyof(val)
        else:
            v = asarr(val)
            vdt = v.dt
            # drop leading singleton dims of v
            vsh = v.shape_
            g = v.snap()
            if len(vsh) > len(vs):
                ex = len(vsh) - len(vs)
                for d in vsh[:ex]:
                    if not bool(d == 1):
                        raise ValueError('could not broadcast input array')
                g0 = g
                g = lambda *i: g0(*([0] * ex + list(i)))
                vsh = vsh[ex:]
            off = len(vs) - len(vsh)
            for j, d in enumerate(vsh):
                if sz_is(d, 1):
                    continue
                if not dim_eq(d, vs[off + j]):
                    if bool(d == 1):
                        continue
                    raise ValueError('could not broadcast input array')
            m = bmap(vsh, vs)
            vf = lambda *i: g(*m(i))
        ck_cast(vdt, a.dt)
        old = a.snap()
        adt = a.dt

        def nf(*b):
            c, v = region(*b)
            if c is False:
                return old(*b)
            if c is True:
                return castv(vf(*v), adt)
            return vite(c, castv(vf(*v), adt), old(*b))
        a._mutate(nf)
        return
    k0 = key[0]
    if isinstance(k0, Arr) and k0.dt == 'bool':
        nd = k0.ndim
        if not all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
            sub = [slice(None)] * nd + list(key[1:])
            if not is_basic(key[1:]):
                raise Unsupported('mixed boolean assignment')
            b = getitem(a, tuple(sub))
            setitem(b, k0, val)
            return
        for d in range(nd):
            if not dim_eq(k0.shape_[d], a.shape_[d]):
                raise IndexError('boolean index did not match')
        val = unwrap0(val)
        cm = const_mask(k0) if nd == 1 else None
        if cm is not None:
            tot, vs = 0, None if is_scalar(val) else asarr(val)
            if vs is not None and (vs.ndim != a.ndim or vs.ndim != 1):
                raise Unsupported('masked assignment of unmasked array')
            n1 = sum([n for o, n, v in cm if v], 0)
            if vs is not None and not dim_eq(vs.shape_[0], n1):
                raise ValueError('NumPy boolean array indexing assignment: wrong number of values')
            for o, n, v in cm:
                if v:
                    setitem(a, (slice(o, o + n),), val if vs is None else getitem(vs, (slice(tot, tot + n),)))
                    tot = tot + n
            return
        if not is_scalar(val):
            v = asarr(val)
            if v.ndim == 1 and sz_is(v.shape_[0], 1):
                val = v.fn(0)
            elif v.ndim == 1 and nd == 1 and a.ndim == 1:
                from . import symnp
                setitem(a, (symnp.nonzero(k0)[0],), v)
                return
            elif v.ndim == 1 and nd > 1 and a.ndim == nd:
                from . import symnp
                nz = symnp.nonzero(k0)
                if not dim_eq(v.shape_[0], nz[0].shape_[0]):
                    raise ValueError('NumPy boolean array indexing assignment: wrong number of values')
                ck_cast(v.dt, a.dt)
                vf, old, mf = v.snap(), a.snap(), k0.snap()
                if not hasattr(nz[0], 'posnd'):
                    ps = [tuple(x.fn(k) for x in nz) for k in range(nz[0].shape_[0])]

                    def at(*i):
                        r = old(*i)
                        for k, p in enumerate(ps):
                            r = vite(band(*[x == y for x, y in zip(i, p)]), castv(vf(k), a.dt), r)
                        return r
                    a._mutate(at)
                    return
                pos = nz[0].posnd
                a._mutate(lambda *i: vite(mf(*i), castv(vf(pos(*i)), a.dt), old(*i)))
                return
            else:
                raise Unsupported('masked assignment of unmasked array')
        ck_cast(tyof(val), a.dt)
        old = a.snap()
        mf = k0.snap()
        a._mutate(lambda *i: vite(mf(*i[:nd]), castv(val, a.dt), old(*i)))
        return
    # integer-array scatter
    if len(key) == 1 and _scatter_structured(a, key[0], val):
        return
    out, mp, spec, bsh, split, pos0 = _fancy_parts(a, key)
    val = unwrap0(val)
    if is_scalar(val):
        vf = lambda *i: val
        vdt = tyof(val)
    else:
        v = asarr(val)
        vdt = v.dt
        vsh = v.shape_
        off = len(out) - len(vsh)
        if off < 0:
            raise Unsupported('scatter value with extra dims')
        for j, d in enumerate(vsh):
            if sz_is(d, 1):
                continue
            if not dim_eq(d, out[off + j]):
                raise ValueError('shape mismatch: value array could not be broadcast')
        m = bmap(vsh, out)
        g = v.snap()
        vf = lambda *i: g(*m(i))
    ck_cast(vdt, a.dt)
    old = a.snap()
    adt = a.dt
    from . import symnp
    # inverse of the index map: for base index b find broadcast position
    if len(bsh) == 2 and all(q[0] in ('sl', 'int') or True for q in spec) and \
            _is_ix(spec, key):
        # np.ix_-like open mesh: each advanced index depends on one axis
        advs = [(d, q) for d, q in enumerate(spec) if q[0] == 'adv']
        invs = []
        for ax, (d, q) in enumerate(advs):
            karr = key[d]
            f1 = karr.snap()
            if ax == 0:
                invs.append(symnp.index_inverse(lambda i, f1=f1: f1(i, 0), karr.shape_[0]))
            else:
                invs.append(symnp.index_inverse(lambda i, f1=f1: f1(0, i), karr.shape_[1]))
        if len(advs) != 2:
            raise Unsupported('open mesh with %d axes' % len(advs))

        def nf(*b):
            conds = []
            bi = [None, None]
            s = []
            ax = 0
            for d, q in enumerate(spec):
                if q[0] == 'sl':
                    p, cc = _slpos(b[d], q, out, pos0, 2)
                    conds += cc
                    s.append(p)
                elif q[0] == 'int':
                    conds.append(b[d] == q[1])
                else:
                    mem, pos = invs[ax]
                    conds.append(mem(b[d]))
                    bi[ax] = pos(b[d])
                    ax += 1
            c = band(*conds)
            if c is False:
                return old(*b)
            i = s[:pos0] + bi + s[pos0:]
            return vite(c, castv(vf(*i), adt), old(*b))
        a._mutate(nf)
        return
    if len(bsh) != 1:
        raise Unsupported('scatter with %d-d index arrays' % len(bsh))
    n = bsh[0]
    advs = [(d, q) for d, q in enumerate(spec) if q[0] == 'adv']
    if isinstance(n, int) and n <= 64:
        # unrolled: later entries win
        def nf(*b):
            r = old(*b)
            for t in range(n):
                conds = []
                s = []
                for d, q in enumerate(spec):
                    if q[0] == 'sl':
                        p, cc = _slpos(b[d], q, out, pos0, 1)
                        conds += cc
                        s.append(p)
                    elif q[0] == 'int':
                        conds.append(b[d] == q[1])
                    else:
                        conds.append(b[d] == q[1](*q[2]([t])))
                c = band(*conds)
                if c is False:
                    continue
                i = s[:pos0] + [t] + s[pos0:]
                r = vite(c, castv(vf(*i), adt), r)
            return r
        a._mutate(nf)
        return
    fs = [(q[1], q[2]) for _, q in advs]
    mem, pos = symnp.index_inverse_n([(lambda t, f=f, m=m: f(*m([t]))) for f, m in fs], n)

    def nf(*b):
        conds = []
        s = []
        tgt = []
        for d, q in enumerate(spec):
            if q[0] == 'sl':
                p, cc = _slpos(b[d], q, out, pos0, 1)
                conds += cc
                s.append(p)
            elif q[0] == 'int':
                conds.append(b[d] == q[1])
            else:
                tgt.append(b[d])
        conds.append(mem(*tgt))
        c = band(*conds)
        if c is False:
            return old(*b)
        i = s[:pos0] + [pos(*tgt)] + s[pos0:]
        return vite(c, castv(vf(*i), adt), old(*b))
    a._mutate(nf)


def _scatter_structured(a, k, val):
    """1-D scatter through a concatenation (in sequence) or a nonzero() list (where the mask holds)"""
    if not isinstance(k, Arr) or k.ndim != 1 or a.ndim != 1 or k.base is not None:
        return False
    val = unwrap0(val)
    if not is_scalar(val) and not isinstance(val, Arr):
        return False
    ps = getattr(k, 'parts', None)
    if ps is not None and ps[0] is k._fn:
        if is_scalar(val):
            for p in ps[1]:
                if not sz_is(p.shape_[0], 0):
                    setitem(a, p, val)
            return True
        if val.ndim != 1 or not dim_eq(val.shape_[0], k.shape_[0]):
            return False
        vp = getattr(val, 'parts', None)
        if vp is not None and vp[0] is val._fn and val.base is None and len(vp[1]) == len(ps[1]) and \
                all(dim_same(p.shape_[0], q.shape_[0]) for p, q in zip(ps[1], vp[1])):
            vals = vp[1]
        else:
            vals, off, g = [], 0, val.snap()
            for p in ps[1]:
                vals.append(Arr((p.shape_[0],), lambda i, off=off: g(off + i), val.dt))
                off = off + p.shape_[0]
        for p, v in zip(ps[1], vals):
            if not sz_is(p.shape_[0], 0):
                setitem(a, p, v)
        return True
    mk = getattr(k, 'maskof', None)
    if mk is not None and mk[0] is k._fn:
        m, posn = mk[1], mk[2]
        if not dim_same(m.shape_[0], a.shape_[0]):
            return False
        if not is_scalar(val):
            if val.ndim != 1:
                return False
            if not (sz_is(val.shape_[0], 1) or dim_eq(val.shape_[0], k.shape_[0])):
                raise ValueError('shape mismatch: value array could not be broadcast')
        old, mf = a.snap(), m.snap()
        if is_scalar(val):
            ck_cast(tyof(val), a.dt)
            vf = lambda b: val
        else:
            ck_cast(val.dt, a.dt)
            g = val.snap()
            vf = (lambda b: g(0)) if sz_is(val.shape_[0], 1) else (lambda b: g(posn(b)))
        adt = a.dt
        a._mutate(lambda b: vite(mf(b), castv(vf(b), adt), old(b)))
        return True
    return False


def _is_ix(spec, key):
    arrs = [k for k in key if isinstance(k, Arr)]
    return len(arrs) == 2 and arrs[0].ndim == 2 and arrs[1].ndim == 2 and \
        sz_is(arrs[0].shape_[1], 1) and sz_is(arrs[1].shape_[0], 1)


def _slpos(x, q, out, pos0, nb):
    _, start, step, j = q
    dim = out[j] if j < pos0 else out[j + nb]
    p = x - start
    cc = []
    if step != 1:
        if step < 0:
            p = start - x
        m = abs(step)
        if m != 1:
            cc.append((p % m) == 0)
            p = p // m
    cc += [p >= 0, p < dim]
    return p, [c for c in cc if c is not True]


def ck_cast(src, dst):
    if src == 'complex' and dst in ('real', 'int', 'bool'):
        raise TypeError('complex value assigned to %s array' % dst)
    if dst == 'object':
        return
    if src == 'object':
        raise Unsupported('object element')


def castv(v, dt):
    if dt == 'int':
        if isinstance(v, Num) and v.ty == 'int' or isinstance(v, int):
            return int(v) if isinstance(v, bool) else v
        return C.toint(v)
    if dt == 'real':
        if isinstance(v, Num):
            return v if v.ty == 'real' else Num(v.p, 'real')
        if isinstance(v, SBool):
            return Num(v.num().p, 'real')
        return v
    if dt == 'complex':
        return C.ascplx(v)
    if dt == 'bool':
        if isinstance(v, (Num, Cplx)):
            return v != 0
        if isinstance(v, SBool):
            return v
        return bool(v)
    return v
