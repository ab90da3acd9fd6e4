"""Symbolic scalars and the path-exploration / obligation context."""
import time
import contextlib
import fractions
from fractions import Fraction
import z3
from . import terms as T
from .terms import Poly, Unsupported, PathAbort

CTX = None


class Dual(object):
    """a solver and its quantifier-free part"""

    def __init__(self):
        self.f = z3.Solver()
        self.f.set('timeout', 4000)
        self.g = z3.Solver()
        self.g.set('timeout', 1000)
        self.quantified = 0

    def add(self, z):
        self.f.add(z)
        if has_quant(z):
            self.quantified += 1
        else:
            self.g.add(z)

    def push(self):
        self.f.push()
        self.g.push()

    def pop(self):
        self.f.pop()
        self.g.pop()

    def set(self, k, v):
        self.f.set(k, v)

    def check(self, *z):
        return self.f.check(*z)


_HQ = {}


def has_quant(z):
    st = [z]
    seen = set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def opaque_pred(z):
    todo = [z]
    while todo:
        e = todo.pop()
        if z3.is_app(e):
            if e.num_args() and e.decl().name().startswith('mask!'):
                return True
            if z3.is_bool(e):
                todo.extend(e.children())
    return False


class Ctx(object):
    """One symbolic run of a harness: explores every feasible path by
    re-execution; collects obligations."""

    def __init__(self, timeout_ms=10000, max_paths=4000):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.stats = {'solver_calls': 0, 'solver_s': 0.0, 'paths': 0,
                      'forks': 0}
        self.shims = set()
        self.assumptions = set()
        self.results = []          # obligation results
        self.reset_path([])

    # ------------------------------------------------------------- paths
    def reset_path(self, trail):
        self.trail = trail         # list of (bool) decisions to replay
        self.pos = 0
        self.pc = []               # z3 Bools
        self.todo = []             # alternative prefixes discovered
        self.axioms = []
        self.axkeys = set()
        self.held = []
        self.solver = Dual()
        self.nofork = 0
        self.sites = []
        self.inputs = {}
        self.arr_classes = []
        self.sum_classes = []
        self.journal = None
        self.decided = {}
        self.kdepth = 0
        self.local = 0
        self.in_scope = 0

    def add_pc(self, z):
        if z3.is_true(z):
            return
        self.pc.append(z)
        self.solver.add(z)
        self.decided[z.get_id()] = (True, z)

    def axiom(self, z, key=None):
        if key is not None:
            if key in self.axkeys:
                return
            self.axkeys.add(key)
        self.axioms.append(z)
        self.solver.add(z)

    @contextlib.contextmanager
    def scope(self, conds):
        """evaluate element functions of a bound index under its range conditions"""
        if self.in_scope or self.kdepth or self.local:
            yield
            return
        save = (self.pc, dict(self.decided))
        self.solver.push()
        nax = len(self.axioms)
        self.pc = list(self.pc)
        self.local += 1
        self.in_scope += 1
        try:
            for z in conds:
                self.add_pc(z)
            yield
        finally:
            self.in_scope -= 1
            self.local -= 1
            self.pc, self.decided = save
            self.solver.pop()
            for ax in self.axioms[nax:]:
                self.solver.add(ax)
            self.sum_classes = [e for e in self.sum_classes if e[2]]

    def _check0(self, *zs):
        t = time.time()
        self.stats['solver_calls'] += 1
        r = self.solver.g.check(*zs)
        self.stats['solver_s'] += time.time() - t
        return r

    def _check(self, *zs):
        t = time.time()
        self.stats['solver_calls'] += 1
        r = self.solver.check(*zs)
        self.stats['solver_s'] += time.time() - t
        return r

    def known(self, z):
        """True/False if z is decided by the path condition, else None"""
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        d = self.decided.get(z.get_id())
        if d is not None:
            return d[0]
        nz = z3.Not(z)
        if self.solver.quantified:
            # the quantifier-free part first: most branches are settled there
            r = None
            if self._check0(z) == z3.unsat:
                r = False
            elif self._check0(nz) == z3.unsat:
                r = True
            if r is not None:
                self.decided[z.get_id()] = (r, z)
                return r
            if opaque_pred(z):
                return None          # membership in a named mask: nothing but ground facts can settle it
            self.solver.set('timeout', 1500)
        try:
            a = self._check(z)
            if a == z3.unsat:
                self.decided[z.get_id()] = (False, z)
                return False
            b = self._check(nz)
            if b == z3.unsat:
                self.decided[z.get_id()] = (True, z)
                return True
            return None
        finally:
            self.solver.set('timeout', 4000)

    def proves0(self, z):
        """from the quantifier-free facts alone"""
        if z3.is_true(z):
            return True
        d = self.decided.get(z.get_id())
        if d is not None:
            return d[0]
        k = ('no0', z.get_id(), len(self.pc), len(self.axioms))
        if k in self.axkeys:
            return False
        if self._check0(z3.Not(z)) == z3.unsat:
            self.decided[z.get_id()] = (True, z)
            return True
        self.axkeys.add(k)
        self.held.append(z)     # z3 ids are reused once an expression is gone
        return False

    def proves(self, z, timeout=None):
        if z3.is_true(z):
            return True
        d = self.decided.get(z.get_id())
        if d is not None:
            return d[0]
        nz = z3.Not(z)
        if self.solver.quantified and self._check0(nz) == z3.unsat:
            self.decided[z.get_id()] = (True, z)
            return True
        if timeout:
            self.solver.set('timeout', timeout)
        r = self._check(nz) == z3.unsat
        if timeout:
            self.solver.set('timeout', 4000)
        if r:
            self.decided[z.get_id()] = (True, z)
        return r

    def branch(self, z):
        z = z3.simplify(z)
        k = self.known(z)
        if k is not None:
            return k
        if self.nofork:
            raise Unsupported('data-dependent branch inside element function')
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
        else:
            v = True
            self.trail = self.trail + [True]
            self.todo.append(self.trail[:self.pos] + [False])
            self.stats['forks'] += 1
        self.pos += 1
        self.add_pc(z if v else z3.Not(z))
        return v

    def choose(self, n, name='choice'):
        """demonic concrete choice 0..n-1, as binary decisions"""
        for i in range(n - 1):
            if self.pos < len(self.trail):
                v = self.trail[self.pos]
            else:
                v = True
                self.trail = self.trail + [True]
                self.todo.append(self.trail[:self.pos] + [False])
            self.pos += 1
            if v:
                return i
        return n - 1

    def assume(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return
        if z3.is_false(z):
            raise PathAbort()
        self.add_pc(z)
        if self._check() == z3.unsat:
            raise PathAbort()


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ------------------------------------------------------------------ scalars
class SBool(object):
    __slots__ = ('z',)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CTX.branch(self.z)

    def __and__(self, o):
        return mkbool(z3.And(self.z, zb(o))) if _isb(o) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zb(o))) if _isb(o) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zb(o)))

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def num(self):
        return Num(T.ite(self.z, T.ONE, T.ZERO), 'int')

    def __add__(self, o): return self.num() + o
    def __radd__(self, o): return o + self.num()
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    def __rmul__(self, o): return self.num() * o
    def __eq__(self, o):
        if _isb(o):
            return mkbool(self.z == zb(o))
        return self.num() == o
    def __ne__(self, o):
        r = self == o
        return bnot(r)
    def __hash__(self):
        return id(self)
    def __repr__(self):
        return 'SBool(%s)' % self.z

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0


import numpy as _rnp


def _isb(o):
    return isinstance(o, (bool, SBool, _rnp.bool_))


def zb(o):
    if isinstance(o, SBool):
        return o.z
    if isinstance(o, (bool, _rnp.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, Num):
        return (o != 0).z if isinstance(o != 0, SBool) else z3.BoolVal(bool(o != 0))
    if isinstance(o, (int, float)):
        return z3.BoolVal(bool(o))
    raise Unsupported('not a boolean: %r' % (o,))


def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def bnot(b):
    if isinstance(b, SBool):
        return mkbool(z3.Not(b.z))
    return not b


def band(*bs):
    zs = []
    for b in bs:
        if isinstance(b, SBool):
            zs.append(b.z)
        elif not b:
            return False
    if not zs:
        return True
    return mkbool(zs[0] if len(zs) == 1 else z3.And(*zs))


def bor(*bs):
    zs = []
    for b in bs:
        if isinstance(b, SBool):
            zs.append(b.z)
        elif b:
            return True
    if not zs:
        return False
    return mkbool(zs[0] if len(zs) == 1 else z3.Or(*zs))


class Num(object):
    """symbolic int / real"""
    __slots__ = ('p', 'ty')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, p, ty):
        self.p = p
        self.ty = ty

    # -- arithmetic
    def _bin(self, o, f, ty=None):
        q = aspoly(o)
        if q is None:
            return NotImplemented
        t = ty or ('int' if self.ty == 'int' and tyof(o) == 'int' else 'real')
        return mknum(f(self.p, q), t)

    def __add__(self, o): return self._bin(o, lambda a, b: a.add(b))
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a.add(b, -1))
    def __rsub__(self, o): return self._bin(o, lambda a, b: b.add(a, -1))
    def __mul__(self, o): return self._bin(o, lambda a, b: a.mul(b))
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a.div(b), 'real')
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b.div(a), 'real')

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: pfloordiv(a, b))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: pfloordiv(b, a))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a.add(b.mul(pfloordiv(a, b)), -1))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: b.add(a.mul(pfloordiv(b, a)), -1))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self): return Num(self.p.neg(), self.ty)
    def __pos__(self): return self

    def __abs__(self):
        return nabs(self)

    def __pow__(self, e):
        return npow(self, e)

    def __rpow__(self, b):
        return npow(b, self)

    # -- comparison
    def _cmp(self, o, op):
        q = aspoly(o)
        if q is None:
            return NotImplemented
        return pcmp(self.p, q, op)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        if isinstance(o, Cplx):
            return o == self
        q = aspoly(o)
        if q is None:
            return NotImplemented if hasattr(o, 'fn') else False
        return pcmp(self.p, q, '==')

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)

    def __hash__(self):
        return hash(self.p.key)

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        raise Unsupported('native int() of symbolic number')

    def __float__(self):
        raise Unsupported('native float() of symbolic number')

    def __index__(self):
        # concretised by case split: every value the path allows is explored (at most 9 of them, else unsupported)
        if self.ty not in ('int', 'bool'):
            raise TypeError("'float' object cannot be interpreted as an integer")
        inside = band(self >= 0, self <= 8)
        if not (isinstance(inside, bool) and inside) and not (isinstance(inside, SBool) and CTX.proves(inside.z)):
            raise Unsupported('symbolic number used as native index')
        for k in range(8):
            if bool(self == k):
                return k
        return 8

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round(x, n)')
        return toint(nround(self))

    def __trunc__(self):
        return toint(self)

    def __ceil__(self):
        return toint(nceil(self))

    def __floor__(self):
        return toint(nfloor(self))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def copy(self): return self
    def item(self): return self
    def conj(self): return self
    def conjugate(self): return self
    def astype(self, t, **kw):
        return cast_scalar(self, t)

    def is_integer(self):
        return self == mknum(T.floor(self.p), 'real')

    @property
    def real(self): return self
    @property
    def imag(self): return 0.0
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self):
        from . import symnp
        return symnp.DT[self.ty]

    def flatten(self):
        from .arr import Arr
        return Arr((1,), lambda i: self, self.ty)
    ravel = flatten

    def __repr__(self):
        return 'Num(%s)' % self.p

    def __str__(self):
        return SText('<sym>')

    def __format__(self, spec):
        return '<sym>'


class SText(str):
    """text made from a symbolic number: may be printed or put in a message, not looked at"""

    def _no(self, *a, **k):
        raise Unsupported('looking into text made from a symbolic number')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __contains__ = __getitem__ = __len__ = __iter__ = _no
    lower = upper = split = strip = find = index = startswith = endswith = replace = isdigit = encode = _no

    def __add__(self, o):
        return SText(str.__add__(self, o))

    def __radd__(self, o):
        return SText(str.__add__(o, self))


def mknum(p, ty):
    if p.is_const():
        c = p.const_val()
        if ty == 'int':
            return int(c) if c.denominator == 1 else Num(p, 'real')
        # keep exact rationals symbolic so that no binary rounding is introduced
        if c.denominator == 1 and abs(c) < 2**53:
            return float(c)
        f = float(c)
        if Fraction(f) == c or _ffrac(f) == c:
            return f
        return Num(p, 'real')
    return Num(p, ty)


def _ffrac(f):
    """real number denoted by a float literal: its shortest decimal"""
    return Fraction(repr(f))


def aspoly(o):
    if isinstance(o, Num):
        return o.p
    if isinstance(o, (bool, _rnp.bool_)):
        return T.ONE if o else T.ZERO
    if isinstance(o, (int, _rnp.integer)):
        return Poly.const(int(o))
    if isinstance(o, (float, _rnp.floating)):
        f = float(o)
        if f != f or f in (float('inf'), float('-inf')):
            raise Unsupported('inf/nan')
        return Poly.const(_ffrac(f))
    if isinstance(o, Fraction):
        return Poly.const(o)
    if isinstance(o, SBool):
        return o.num().p
    if isinstance(o, _rnp.ndarray) and o.shape == ():
        return aspoly(o.item())
    return None


def tyof(o):
    if isinstance(o, Num):
        return o.ty
    if _isb(o):
        return 'bool'
    if isinstance(o, (int, _rnp.integer)):
        return 'int'
    if isinstance(o, (float, _rnp.floating, Fraction)):
        return 'real'
    if isinstance(o, (complex, Cplx, _rnp.complexfloating)):
        return 'complex'
    return 'object'


def tojoin(*tys):
    order = ['bool', 'int', 'real', 'complex', 'object']
    return order[max(order.index(t) for t in tys)]


def is_scalar(o):
    return isinstance(o, (Num, SBool, Cplx, bool, int, float, complex,
                          _rnp.generic, Fraction))


def pcmp(a, b, op):
    d = a.add(b, -1)
    if d.is_const():
        c = d.const_val()
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0}[op]
    if a.isint and b.isint:
        za, zb_ = a.z, b.z
    else:
        # integer-cleared difference keeps queries simple
        za, zb_ = a.zreal(), b.zreal()
    # canonical orientation through the difference polynomial
    z = {'<': lambda: za < zb_, '<=': lambda: za <= zb_,
         '>': lambda: zb_ < za, '>=': lambda: zb_ <= za,
         '==': lambda: za == zb_}[op]()
    CMP[z.get_id()] = (op, a, b, z)
    return mkbool(z)


CMP = {}


def pfloordiv(a, b):
    """floor(a / b) with defining axioms when b is symbolic"""
    if b.is_const() and b.const_val() == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    q = a.div(b)
    r = T.floor(q)
    if not b.is_const():
        for aid in r.atoms():
            at = T.atom_by_id(aid)
            if at.kind == 'floor' and CTX is not None:
                x = at.args[0]
                # b*x is (usually) polynomial again: linear-in-quotient axioms
                bx = b.mul(x)
                f = Poly.atom(at)
                bf = b.mul(f)
                CTX.axiom(z3.Implies(b.zreal() > 0,
                          z3.And(bf.zreal() <= bx.zreal(),
                                 bx.zreal() < bf.add(b).zreal())),
                          ('fdiv', at.id, b.key))
                # 0<=b*x<b  => 0
                if (not CTX.local or CTX.in_scope) and CTX.proves(z3.And(bx.zreal() >= 0, bx.zreal() < b.zreal()),
                              500):
                    r = r.add(f.scale(-1)) if r.t.get(((at.id, 1),)) == 1 else r
    return r


def nabs(x):
    if isinstance(x, Cplx):
        return nsqrt(x.re * x.re + x.im * x.im)
    if isinstance(x, Num):
        if x.p.isint:
            c = x.p.z >= 0
        else:
            c = x.p.zreal() >= 0
        if CTX is not None:
            k = CTX.known(z3.simplify(c)) if _cheap(x.p) and not CTX.local and not CTX.nofork else None
            if k is True:
                return x
            if k is False:
                return -x
        lead = x.p.key[0][1]
        if lead < 0:
            return nabs(Num(x.p.neg(), x.ty))
        return mknum(T.ite(c, x.p, x.p.neg()), x.ty)
    return abs(x)


def _cheap(p):
    return len(p.t) <= 4


def nsqrt(x):
    if isinstance(x, Cplx):
        if isinstance(x.im, (int, float)) and x.im == 0:
            return nsqrt(x.re)
        p, q = x.re, x.im
        pre, pim = aspoly(p), aspoly(q)
        r = T.app('csqrt_re', [pre, pim])
        i = T.app('csqrt_im', [pre, pim])
        CTX.axiom(z3.And(r.mul(r).add(i.mul(i), -1).zreal() == pre.zreal(),
                         r.mul(i).scale(2).zreal() == pim.zreal(),
                         r.zreal() >= 0), ('csqrt', pre.key, pim.key))
        return mkc(mknum(r, 'real'), mknum(i, 'real'))
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        fr = _ffrac(float(x)) if isinstance(x, float) else Fraction(x)
        if fr < 0:
            raise Unsupported('sqrt of negative constant')
        import math
        n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
        if n * n == fr.numerator and d * d == fr.denominator:
            return mknum(Poly.const(Fraction(n, d)), 'real')
        p = Poly.const(fr)
    else:
        p = aspoly(x)
    # pull out even powers of a single monomial whose atoms are known positive
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = {}
        rest = {}
        for a, e in m:
            at = T.atom_by_id(a)
            pos = CTX is not None and CTX.proves(Poly.atom(at).zreal() >= 0, 300)
            h = (abs(e) // 2) * (1 if e > 0 else -1)
            if pos and h:
                out[a] = h
                if abs(e) % 2:
                    rest[a] = 1 if e > 0 else -1
            else:
                rest[a] = e
        import math
        n, d = math.isqrt(c.numerator) if c > 0 else 0, math.isqrt(c.denominator)
        oc = Fraction(1)
        rc = c
        if c > 0 and n * n == c.numerator and d * d == c.denominator:
            oc, rc = Fraction(n, d), Fraction(1)
        outp = Poly({tuple(sorted(out.items())): oc})
        restp = Poly({tuple(sorted(rest.items())): rc})
        if restp.is_const() and restp.const_val() == 1:
            return mknum(outp, 'real')
        if out or oc != 1:
            return mknum(outp.mul(_sqrt_atom(restp)), 'real')
    return mknum(_sqrt_atom(p), 'real')


def _sqrt_atom(p):
    r = T.app('sqrt', [p], kind='sqrt_')
    at = T.poly_sym_atom(r)
    if at.kind == 'sqrt_':
        at.kind = 'sqrt'
        at.args = (p,)
    if CTX is not None:
        CTX.axiom(z3.And(at.z >= 0, z3.Implies(p.zreal() >= 0,
                                               at.z * at.z == p.zreal())),
                  ('sqrt', at.id))
        CTX.assumptions.add('arguments of real square roots are non-negative')
    return r


T._REBUILD['sqrt'] = lambda at, sp, sz, info: aspoly(nsqrt(
    mknum(sp(at.args[0]), 'real')))


def npow(b, e):
    if isinstance(e, (_rnp.integer,)):
        e = int(e)
    if isinstance(e, float) and e == int(e) and abs(e) < 64:
        r = npow(b, int(e))
        if isinstance(r, Num) and r.ty == 'int':
            r = Num(r.p, 'real')
        return r
    if isinstance(e, int) and not isinstance(e, bool):
        if isinstance(b, Cplx):
            if e < 0:
                return 1 / npow(b, -e)
            r = 1
            for _ in range(e):
                r = r * b
            return r
        if isinstance(b, Num):
            if e < 0:
                return mknum(b.p.pow(e), 'real')
            return mknum(b.p.pow(e), b.ty)
        return b ** e
    if isinstance(e, float) and e == 0.5:
        return nsqrt(b)
    if isinstance(e, float) and e == -0.5:
        return 1 / nsqrt(b)
    pb, pe = aspoly(b), aspoly(e)
    if pb is None or pe is None:
        raise Unsupported('power')
    return mknum(T.app('rpow', [pb, pe]), 'real')


def nround(x):
    """numpy round half to even, result real-typed"""
    if not isinstance(x, Num):
        return _rnp.round(x)
    if x.p.isint:
        return Num(x.p, 'real') if x.ty != 'int' else x
    f = T.floor(x.p.add(Poly.const(Fraction(1, 2))))
    half = x.p.add(Poly.const(Fraction(1, 2)))
    # tie: half is integral and odd -> f-1
    tie = z3.And(half.zreal() == z3.ToReal(f.z), f.z % 2 != 0)
    return mknum(T.ite(tie, f.add(T.ONE, -1), f), 'real')


def nfloor(x):
    if not isinstance(x, Num):
        return _rnp.floor(x)
    return mknum(T.floor(x.p), 'real')


def nceil(x):
    if not isinstance(x, Num):
        return _rnp.ceil(x)
    return mknum(T.floor(x.p.neg()).neg(), 'real')


def nfix(x):
    if not isinstance(x, Num):
        return _rnp.fix(x)
    if x.p.isint:
        return x
    f = T.floor(x.p)
    c = T.floor(x.p.neg()).neg()
    return mknum(T.ite(x.p.zreal() >= 0, f, c), 'real')


def toint(x):
    if isinstance(x, Num):
        if x.p.isint:
            return mknum(x.p, 'int')
        r = nfix(x)
        return mknum(aspoly(r), 'int')
    if isinstance(x, SBool):
        return x.num()
    return int(x)


def cast_scalar(x, t):
    ty = dtype_name(t)
    if ty == 'int':
        return toint(x)
    if ty == 'real':
        if isinstance(x, Num):
            return Num(x.p, 'real')
        if isinstance(x, SBool):
            return Num(x.num().p, 'real')
        if isinstance(x, Cplx):
            return x.re
        return float(x)
    if ty == 'complex':
        return ascplx(x)
    if ty == 'bool':
        if isinstance(x, Num):
            return x != 0
        if isinstance(x, SBool):
            return x
        return bool(x)
    raise Unsupported('cast to %r' % (t,))


def dtype_name(t):
    if t is None:
        return 'real'
    n = getattr(t, '_symdt', None)
    if n:
        return n
    if t in (int, 'int', 'i'):
        return 'int'
    if t in (float, 'float', 'd'):
        return 'real'
    if t in (complex, 'complex'):
        return 'complex'
    if t in (bool, 'bool'):
        return 'bool'
    try:
        k = _rnp.dtype(t).kind
    except Exception:
        raise Unsupported('dtype %r' % (t,))
    return {'i': 'int', 'u': 'int', 'f': 'real', 'c': 'complex',
            'b': 'bool'}.get(k, 'object')


# ------------------------------------------------------------------ complex
def _lift_complex():
    """Num op complex-constant goes through the complex class"""
    import operator
    for nm, op in (('add', operator.add), ('sub', operator.sub), ('mul', operator.mul),
                   ('truediv', operator.truediv)):
        for refl in (False, True):
            attr = '__%s%s__' % ('r' if refl else '', nm)
            old = getattr(Num, attr)

            def new(self, o, old=old, op=op, refl=refl):
                if isinstance(o, (complex, _rnp.complexfloating)):
                    a, b = ascplx(self), ascplx(complex(o))
                    return op(b, a) if refl else op(a, b)
                return old(self, o)
            setattr(Num, attr, new)


_lift_complex()


class Cplx(object):
    __slots__ = ('re', 'im')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __add__(self, o):
        o = ascplx0(o)
        if o is None:
            return NotImplemented
        return mkc(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = ascplx0(o)
        if o is None:
            return NotImplemented
        return mkc(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = ascplx0(o)
        if o is None:
            return NotImplemented
        return mkc(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = ascplx0(o)
        if o is None:
            return NotImplemented
        return mkc(self.re * o.re - self.im * o.im,
                   self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = ascplx0(o)
        if o is None:
            return NotImplemented
        if isinstance(o.im, (int, float)) and o.im == 0:
            return mkc(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * Cplx(o.re, -o.im)
        return mkc(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return ascplx0(o) / self

    def __neg__(self): return Cplx(-self.re, -self.im)
    def __pos__(self): return self
    def __abs__(self): return nabs(self)
    def __pow__(self, e): return npow(self, e)

    def __eq__(self, o):
        o = ascplx0(o)
        if o is None:
            return False
        return band(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(self != 0)

    def conj(self): return Cplx(self.re, -self.im)
    conjugate = conj
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def copy(self): return self
    def item(self): return self
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1

    def __repr__(self):
        return 'Cplx(%r, %r)' % (self.re, self.im)

    def __format__(self, s):
        return '<symc>'


def mkc(re, im):
    return Cplx(re, im)


def ascplx(o):
    r = ascplx0(o)
    if r is None:
        raise Unsupported('complex of %r' % (o,))
    return r


def ascplx0(o):
    if isinstance(o, Cplx):
        return o
    if isinstance(o, SBool):
        return Cplx(o.num(), 0)
    if isinstance(o, (complex, _rnp.complexfloating)):
        return Cplx(float(o.real), float(o.imag))
    if isinstance(o, (Num, int, float, bool, Fraction, _rnp.integer, _rnp.floating, _rnp.bool_)):
        return Cplx(o, 0)
    return None


# ------------------------------------------------------- ite over any value
def vite(c, a, b):
    if not isinstance(c, SBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (Cplx, complex, _rnp.complexfloating)) or \
            isinstance(b, (Cplx, complex, _rnp.complexfloating)):
        a, b = ascplx(a), ascplx(b)
        return mkc(vite(c, a.re, b.re), vite(c, a.im, b.im))
    if _isb(a) and _isb(b):
        za, zb_ = zb(a), zb(b)
        if za.eq(zb_):
            return a
        if z3.is_true(za) and z3.is_false(zb_):
            return c
        if z3.is_false(za) and z3.is_true(zb_):
            return bnot(c)
        return mkbool(z3.If(c.z, za, zb_))
    pa, pb = aspoly(a), aspoly(b)
    if pa is None or pb is None:
        if a is None and b is None:
            return None
        raise Unsupported('ite over %r / %r' % (type(a), type(b)))
    ty = 'int' if tyof(a) in ('int', 'bool') and tyof(b) in ('int', 'bool') else 'real'
    return mknum(T.ite(c.z, pa, pb), ty)


def nmax(a, b):
    c = a >= b
    if isinstance(c, SBool):
        return vite(c, a, b)
    return a if c else b


def nmin(a, b):
    c = a <= b
    if isinstance(c, SBool):
        return vite(c, a, b)
    return a if c else b


# --------------------------------------------------- transcendental functions
PI = T.sym('pi', False)


def pi_num():
    CTX.axiom(z3.And(PI.z > z3.Q(31415, 10000), PI.z < z3.Q(31416, 10000)), 'pi')
    return Num(PI, 'real')


_PIID = T.poly_sym_atom(PI).id


def _pi_multiple(p):
    """rational r with p == r*pi, else None"""
    if not p.t:
        return Fraction(0)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if m == ((_PIID, 1),):
            return c
    return None


def _cossin(fname, p):
    # reduce integer multiples of 2*pi with constant coefficient
    c = p.t.get(((_PIID, 1),))
    if c is not None and c.denominator != 0:
        k = (c / 2)
        import math
        w = math.floor(k)
        if w:
            p = p.add(Poly({((_PIID, 1),): Fraction(2 * w)}), -1)
    r = _pi_multiple(p)
    if r is not None:
        t = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0),
             Fraction(3, 2): (0, -1)}.get(r % 2)
        if t:
            return Poly.const(t[0] if fname == 'cos' else t[1])
    # constant pi/2 multiples offset:  cos(x+pi)=-cos x  etc.
    c = p.t.get(((_PIID, 1),))
    if c is not None and (c % 2) in (Fraction(1, 2), Fraction(1), Fraction(3, 2)) \
            and len(p.t) > 1:
        q = p.add(Poly({((_PIID, 1),): c}), -1)
        cc = c % 2
        if cc == 1:
            return _cossin(fname, q).neg()
        if cc == Fraction(1, 2):
            return _cossin('sin', q).neg() if fname == 'cos' else _cossin('cos', q)
        return _cossin('sin', q) if fname == 'cos' else _cossin('cos', q).neg()
    sgn = 1
    if p.t and p.key[0][1] < 0:
        p = p.neg()
        sgn = -1
    r = T.app(fname, [p])
    if CTX is not None:
        cs = T.app('cos', [p])
        sn = T.app('sin', [p])
        CTX.axiom(z3.And(cs.z <= 1, cs.z >= -1, sn.z <= 1, sn.z >= -1), ('trig', p.key))
    if fname == 'sin' and sgn < 0:
        return r.neg()
    return r


T._SPECIAL_APP['cos'] = lambda p: _cossin('cos', p)
T._SPECIAL_APP['sin'] = lambda p: _cossin('sin', p)


def split_eq(a, b, depth=7, leaves=None):
    """a == b as a formula in which ite conditions below non-linear terms are
    split and every case is brought to normal form (an equivalence)"""
    leaves = leaves if leaves is not None else [48]
    d = a.add(b, -1)
    if not d.t:
        return z3.BoolVal(True)
    c = CTX
    if depth > 0:
        ites = {z.get_id(): z for z in T.has_nested_ite(d)}
        kn = {i: c.known(z) for i, z in ites.items()}
        kn = {i: v for i, v in kn.items() if v is not None}
        if kn:
            d2 = T.resolve_ites(d, kn)
            if d2.key != d.key:
                return split_eq(d2, T.ZERO, depth - 1, leaves)
        for cz in ites.values():
            if cz.get_id() in kn:
                continue
            if leaves[0] <= 0:
                break
            leaves[0] -= 1
            out = []
            for val in (True, False):
                dd = T.resolve_ite(d, cz, val)
                save = dict(c.decided)
                c.solver.push()
                nax = len(c.axioms)
                try:
                    g = cz if val else z3.Not(cz)
                    c.solver.add(g)
                    c.decided[cz.get_id()] = (val, cz)
                    r = split_eq(dd, T.ZERO, depth - 1, leaves)
                finally:
                    c.solver.pop()
                    for ax in c.axioms[nax:]:
                        c.solver.add(ax)
                    c.decided = save
                    c.sum_classes = [e for e in c.sum_classes if e[2]]
                out.append(r if z3.is_true(r) else z3.Implies(g, r))
            if all(z3.is_true(x) for x in out):
                return out[0]
            return z3.And([x for x in out if not z3.is_true(x)])
    return pcmpz(d, T.ZERO)


def pcmpz(a, b):
    e = pcmp(a, b, '==')
    return e.z if isinstance(e, SBool) else z3.BoolVal(bool(e))


def smart_eq(x, y):
    """equality for goals: normal forms with case splits"""
    if isinstance(x, (Cplx, complex)) or isinstance(y, (Cplx, complex)):
        x, y = ascplx(x), ascplx(y)
        return band(smart_eq(x.re, y.re), smart_eq(x.im, y.im))
    if isinstance(x, SBool) or isinstance(y, SBool) or not (isinstance(x, Num) or isinstance(y, Num)):
        return x == y
    p, q = aspoly(x), aspoly(y)
    if p is None or q is None:
        return x == y
    d = p.add(q, -1)
    if not d.t:
        return True
    if T.has_nested_ite(d):
        return mkbool(split_eq(p, q))
    return pcmp(p, q, '==')


def ncos(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool) and x == 0:
        return 1.0
    return mknum(_cossin('cos', aspoly(x)), 'real')


def nsin(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool) and x == 0:
        return 0.0
    return mknum(_cossin('sin', aspoly(x)), 'real')


def _exp(p):
    if not p.t:
        return T.ONE
    r = T.app('exp', [p])
    if CTX is not None:
        CTX.axiom(T.poly_sym_atom(r).z > 0, ('exp', p.key))
    return r


T._SPECIAL_APP['exp'] = _exp


def nexp(x):
    if isinstance(x, (complex, _rnp.complexfloating)):
        x = ascplx(x)
    if isinstance(x, Cplx):
        m = nexp(x.re)
        c, s = ncos(x.im), nsin(x.im)
        if isinstance(m, (int, float)) and m == 1:
            return mkc(c, s)
        return mkc(m * c, m * s)
    return mknum(_exp(aspoly(x)), 'real')


def nfun1(name):
    def f(x):
        if isinstance(x, Cplx):
            raise Unsupported('%s of complex' % name)
        return mknum(T.app(name, [aspoly(x)]), 'real')
    return f


nlog10 = nfun1('log10')
nlog = nfun1('log')


def narctan2(y, x):
    py, px = aspoly(y), aspoly(x)
    th = T.app('arctan2', [py, px])
    r = mknum(th, 'real')
    # r cos(theta) = x, r sin(theta) = y  (numpy: arctan2(0, 0) = 0)
    rad = nsqrt(mknum(px.mul(px).add(py.mul(py)), 'real'))
    try:
        rp = aspoly(rad)
        CTX.axiom(z3.And(rp.mul(aspoly(ncos(r))).zreal() == px.zreal(),
                         rp.mul(aspoly(nsin(r))).zreal() == py.zreal()), ('atan2', py.key, px.key))
    except Unsupported:
        pass
    return r


def nangle(z):
    z = ascplx(z)
    return narctan2(z.im, z.re)
