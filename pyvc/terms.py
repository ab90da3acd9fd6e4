"""Term layer: canonical Laurent polynomials over atoms, lowered to z3.

Numbers of the program under verification are mathematical integers / reals.
Every atom keeps enough structure to be rebuilt under substitution (needed by
the loop rule and by bound variables of sums).
"""
from fractions import Fraction
import z3


class Unsupported(Exception):
    """The engine cannot translate this construct (never a violation)."""


class PathAbort(Exception):
    """Current path is infeasible / discarded by an assumption."""


# --------------------------------------------------------------------------
_ATOMS = []
_KEY2ID = {}


class Atom(object):
    __slots__ = ('id', 'key', 'z', 'isint', 'free', 'kind', 'args', 'opaque')


def _new_atom(key, z, isint, free, kind, args=(), opaque=False):
    i = _KEY2ID.get(key)
    if i is not None:
        return _ATOMS[i]
    a = Atom()
    a.id = len(_ATOMS)
    a.key = key
    a.z = z
    a.isint = isint
    a.free = free
    a.kind = kind
    a.args = args
    a.opaque = opaque
    _ATOMS.append(a)
    _KEY2ID[key] = a.id
    return a


def atom_by_id(i):
    return _ATOMS[i]


class Poly(object):
    __slots__ = ('t', '_key', '_z', '_free', '_isint')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._z = None
        self._free = None
        self._isint = None

    # -- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): Fraction(1)})

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def is_const(self):
        return len(self.t) == 0 or (len(self.t) == 1 and () in self.t)

    def const_val(self):
        return self.t.get((), Fraction(0))

    @property
    def isint(self):
        if self._isint is None:
            r = True
            for m, c in self.t.items():
                if c.denominator != 1:
                    r = False
                    break
                for (a, e) in m:
                    if e < 0 or not _ATOMS[a].isint:
                        r = False
                        break
                if not r:
                    break
            self._isint = r
        return self._isint

    @property
    def free(self):
        if self._free is None:
            s = frozenset()
            for m in self.t:
                for (a, _) in m:
                    s = s | _ATOMS[a].free
            self._free = s
        return self._free

    def atoms(self):
        s = set()
        for m in self.t:
            for (a, _) in m:
                s.add(a)
        return s

    # -- arithmetic
    def add(self, o, sign=1):
        if not o.t:
            return self
        if not self.t and sign == 1:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + sign * c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v
        return Poly(t)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def scale(self, c):
        if c == 0:
            return ZERO
        return Poly({m: v * c for m, v in self.t.items()})

    def mul(self, o):
        if self.is_const():
            return o.scale(self.const_val())
        if o.is_const():
            return self.scale(o.const_val())
        if len(self.t) * len(o.t) > 20000:
            raise Unsupported('polynomial blow-up')
        t = {}
        again = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, special = _mon_mul(m1, m2)
                c = c1 * c2
                if special is not None:
                    again.append((m, c, special))
                    continue
                v = t.get(m, 0) + c
                if v == 0:
                    t.pop(m, None)
                else:
                    t[m] = v
        r = Poly(t)
        for m, c, special in again:
            q = Poly({m: c})
            for s in special:
                q = q.mul(s)
            r = r.add(q)
        return r

    def inv(self):
        if not self.t:
            raise ZeroDivisionError('division by zero')
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Poly({tuple((a, -e) for a, e in m): 1 / c})
        # content normalisation: factor common monomial and leading coef
        lead = self.key[0]
        c = lead[1]
        p = self.scale(1 / c)
        common = None
        for m in p.t:
            d = dict(m)
            if common is None:
                common = dict(d)
            else:
                for a in list(common):
                    if a not in d:
                        # exponent 0 in this monomial
                        common[a] = min(common[a], 0)
                    else:
                        common[a] = min(common[a], d[a])
                for a in d:
                    if a not in common:
                        common[a] = min(0, d[a])
        common = {a: e for a, e in (common or {}).items() if e != 0}
        mon = tuple(sorted(common.items()))
        monp = Poly({tuple((a, -e) for a, e in mon): Fraction(1)})
        if mon:
            p = p.mul(monp)
        a = _new_atom(('inv', p.key), z3.RealVal(1) / p.zreal(), False,
                      p.free, 'inv', (p,))
        r = Poly.atom(a).scale(1 / c)
        if mon:
            r = r.mul(monp)
        return r

    def div(self, o):
        if o.is_const():
            if o.const_val() == 0:
                raise ZeroDivisionError('division by zero')
            return self.scale(1 / o.const_val())
        # exact ratio?
        if len(self.t) == len(o.t) and len(o.t) > 1:
            k1, k2 = self.key, o.key
            if [m for m, _ in k1] == [m for m, _ in k2]:
                r = k1[0][1] / k2[0][1]
                if all(x[1] == r * y[1] for x, y in zip(k1, k2)):
                    return Poly.const(r)
        return self.mul(o.inv())

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            b = b.mul(b) if n > 1 else b
            n >>= 1
        return r

    # -- z3
    @property
    def z(self):
        if self._z is None:
            isint = self.isint
            terms = []
            for m, c in self.key:
                num = []
                den = []
                for a, e in m:
                    za = _ATOMS[a].z
                    if not isint and _ATOMS[a].isint:
                        za = z3.ToReal(za)
                    (num if e > 0 else den).extend([za] * abs(e))
                if isint:
                    cz = z3.IntVal(c.numerator)
                else:
                    cz = z3.Q(c.numerator, c.denominator)
                if num:
                    x = num[0]
                    for y in num[1:]:
                        x = x * y
                    if c != 1:
                        x = cz * x
                else:
                    x = cz
                if den:
                    d = den[0]
                    for y in den[1:]:
                        d = d * y
                    x = x / d
                terms.append(x)
            if not terms:
                r = z3.IntVal(0) if isint else z3.RealVal(0)
            else:
                r = terms[0]
                for y in terms[1:]:
                    r = r + y
            self._z = r
        return self._z

    def zreal(self):
        return z3.ToReal(self.z) if self.isint else self.z

    def subst(self, sid, rep, zvar, zrep):
        """replace symbol atom sid by Poly rep (zvar->zrep at z3 level)"""
        if sid not in self.free:
            return self
        r = ZERO
        for m, c in self.t.items():
            q = Poly.const(c)
            for a, e in m:
                at = _ATOMS[a]
                if sid in at.free:
                    q = q.mul(_atom_subst(at, sid, rep, zvar, zrep).pow(e))
                else:
                    q = q.mul(Poly({((a, e),): Fraction(1)}))
            r = r.add(q)
        return r

    def __repr__(self):
        return str(z3.simplify(self.z)) if self.t else '0'


def _mon_mul(m1, m2):
    d = dict(m1)
    special = None
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a)
        else:
            d[a] = v
    for a in list(d):
        at = _ATOMS[a]
        if at.kind == 'sqrt' and abs(d[a]) >= 2:
            e = d[a]
            h = abs(e) // 2
            rem = abs(e) - 2 * h
            sg = 1 if e > 0 else -1
            if rem:
                d[a] = sg * rem
            else:
                d.pop(a)
            special = special or []
            special.append(at.args[0].pow(sg * h))
    tr = [(a, e) for a, e in d.items() if e > 0 and _ATOMS[a].kind == 'app'
          and _ATOMS[a].args[0] in ('cos', 'sin')]
    if tr and sum(e for _, e in tr) >= 2:
        for a, _ in tr:
            d.pop(a)
        special = special or []
        special.append(trig_product(tr))
    return tuple(sorted(d.items())), special


def trig_product(tr):
    """product of cosines and sines as a sum of single ones (normal form)"""
    fs = []
    for a, e in sorted(tr):
        fs += [(_ATOMS[a].args[0], _ATOMS[a].args[1][0])] * e
    if len(fs) > 10:
        raise Unsupported('trigonometric product of high degree')
    acc = [(Fraction(1),) + fs[0]]
    for k2, b in fs[1:]:
        nxt = []
        for c, k1, a in acc:
            h = c / 2
            s, d = a.add(b), a.add(b, -1)
            if k1 == 'cos' and k2 == 'cos':
                nxt += [(h, 'cos', d), (h, 'cos', s)]
            elif k1 == 'sin' and k2 == 'sin':
                nxt += [(h, 'cos', d), (-h, 'cos', s)]
            elif k1 == 'sin':
                nxt += [(h, 'sin', s), (h, 'sin', d)]
            else:
                nxt += [(h, 'sin', s), (-h, 'sin', d)]
        acc = nxt
    r = ZERO
    for c, k, a in acc:
        r = r.add(_SPECIAL_APP[k](a).scale(c))
    return r


def has_nested_ite(p, inside=False, seen=None):
    """conditions of ite atoms below a non-linear atom (bound variables excluded)"""
    out = []
    seen = set() if seen is None else seen
    for m in p.t:
        many = sum(e for a, e in m if _ATOMS[a].kind == 'ite') > 1
        for a, e in m:
            at = _ATOMS[a]
            if (a, inside or many) in seen:
                continue
            seen.add((a, inside or many))
            k = at.kind
            if k == 'ite':
                if inside or many:
                    out.append(at.args[0])
                out += has_nested_ite(at.args[1], inside, seen)
                out += has_nested_ite(at.args[2], inside, seen)
            elif k == 'app':
                ins = inside or at.args[0] in ('cos', 'sin', 'exp', 'sqrt')
                for q in at.args[1]:
                    out += has_nested_ite(q, ins, seen)
            elif k in ('inv', 'sqrt'):
                out += has_nested_ite(at.args[0], True, seen)
            elif k == 'floor':
                out += has_nested_ite(at.args[0], inside, seen)
            elif k == 'sum':
                bound = frozenset(poly_sym_atom(b).id for _, b in at.args[0])
                for z in has_nested_ite(at.args[1], True, seen):
                    if not (zfree(z) & bound):
                        out.append(z)
                for n, _ in at.args[0]:
                    out += has_nested_ite(n, True, seen)
    return out


def resolve_ite(p, cz, val, memo=None):
    """p with every ite on condition cz replaced by one branch"""
    return resolve_ites(p, {cz.get_id(): val}, memo)


def resolve_ites(p, vals, memo=None):
    memo = {} if memo is None else memo

    def rp(p):
        r = memo.get(p.key)
        if r is not None:
            return r
        r = ZERO
        for m, c in p.t.items():
            q = Poly.const(c)
            for a, e in m:
                q = q.mul(ra(_ATOMS[a]).pow(e))
            r = r.add(q)
        memo[p.key] = r
        return r

    def ra(at):
        k = at.kind
        if k == 'sym':
            return Poly.atom(at)
        if k == 'ite':
            v = vals.get(at.args[0].get_id())
            if v is not None:
                return rp(at.args[1] if v else at.args[2])
        if k not in _REBUILD:
            return Poly.atom(at)
        return _REBUILD[k](at, rp, lambda z: z, None)
    return rp(p)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})

_REBUILD = {}


def _atom_subst(at, sid, rep, zvar, zrep):
    if at.kind == 'sym':
        return rep if at.id == sid else Poly.atom(at)
    return _REBUILD[at.kind](at, lambda p: p.subst(sid, rep, zvar, zrep),
                             lambda z: z3.substitute(z, (zvar, zrep)),
                             (sid, rep, zvar, zrep))


_SYMN = [0]


def sym(name, isint):
    z = z3.Int(name) if isint else z3.Real(name)
    a = _new_atom(('sym', name, isint), z, isint, None, 'sym')
    if a.free is None:
        a.free = frozenset([a.id])
    return Poly.atom(a)


def fresh_name(base):
    _SYMN[0] += 1
    return '%s!%d' % (base, _SYMN[0])


def poly_single_atom(p):
    """the atom a when p is exactly a"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    return _ATOMS[m[0][0]]


def poly_sym_atom(p):
    (m, c), = p.t.items()
    return _ATOMS[m[0][0]]


# ---- z3 expression free symbols (for conditions)
_ZFREE = {}


def zfree(z):
    k = z.get_id()
    r = _ZFREE.get(k)
    if r is not None:
        return r[0]
    s = set()
    seen = set()
    st = [z]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            srt = x.sort()
            isint = srt == z3.IntSort()
            j = _KEY2ID.get(('sym', nm, isint))
            if j is not None:
                s.add(j)
            else:
                j = _OPAQUE_CONST_FREE.get(nm)
                if j:
                    s |= j
        st.extend(x.children())
    r = frozenset(s)
    _ZFREE[k] = (r, z)
    return r


_OPAQUE_CONST_FREE = {}

# ---- structured atoms ------------------------------------------------------
_FUN = {}


def zfun(name, sig_int, ret_int):
    k = (name, sig_int, ret_int)
    f = _FUN.get(k)
    if f is None:
        ds = [z3.IntSort() if b else z3.RealSort() for b in sig_int]
        rs = (z3.BoolSort() if ret_int == 'bool' else
              z3.IntSort() if ret_int else z3.RealSort())
        if ds:
            f = z3.Function(name, *(ds + [rs]))
        else:
            c = z3.Const(name, rs)
            f = (lambda c: (lambda: c))(c)
        _FUN[k] = f
    return f


def app(fname, args, ret_int=False, kind='app', opaque=True, sig=None):
    """uninterpreted application of fname to Poly args.
    sig: tuple of bools (arg sorts int?); default: per arg isint"""
    if sig is None:
        sig = tuple(False for p in args)
    key = ('app', fname, tuple(p.key for p in args), ret_int, sig)
    i = _KEY2ID.get(key)
    if i is not None:
        return Poly.atom(_ATOMS[i])
    zs = []
    for p, b in zip(args, sig):
        if b:
            if not p.isint:
                raise Unsupported('non-integer index in %s' % fname)
            zs.append(p.z)
        else:
            zs.append(p.zreal())
    free = frozenset().union(*[p.free for p in args]) if args else frozenset()
    a = _new_atom(key, zfun(fname, sig, ret_int)(*zs), ret_int, free, kind,
                  (fname, tuple(args), ret_int, sig), opaque)
    return Poly.atom(a)


def _reb_app(at, sp, sz, info):
    fname, args, ri, sig = at.args
    h = _SPECIAL_APP.get(fname)
    nargs = [sp(p) for p in args]
    if h is not None:
        return h(*nargs)
    return app(fname, nargs, ri, at.kind, at.opaque, sig)


_SPECIAL_APP = {}
_REBUILD['app'] = _reb_app
_REBUILD['inv'] = lambda at, sp, sz, info: sp(at.args[0]).inv()


def ite(cz, a, b):
    """cz z3 Bool, a,b Poly"""
    if z3.is_true(cz):
        return a
    if z3.is_false(cz):
        return b
    if a.key == b.key:
        return a
    isint = a.isint and b.isint
    # absorb nested same-condition ites
    cid = cz.get_id()
    a = _pick(a, cid, True)
    b = _pick(b, cid, False)
    if a.key == b.key:
        return a
    za = a.z if isint else a.zreal()
    zb = b.z if isint else b.zreal()
    key = ('ite', cid, a.key, b.key)
    at = _new_atom(key, z3.If(cz, za, zb), isint,
                   a.free | b.free | zfree(cz), 'ite', (cz, a, b))
    return Poly.atom(at)


def _pick(p, cid, val):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1:
            at = _ATOMS[m[0][0]]
            if at.kind == 'ite' and at.args[0].get_id() == cid:
                return (at.args[1] if val else at.args[2]).scale(c)
    return p


_REBUILD['ite'] = lambda at, sp, sz, info: ite(
    z3.simplify(sz(at.args[0])) if False else sz(at.args[0]),
    sp(at.args[1]), sp(at.args[2]))


def floor(p):
    if p.isint:
        return p
    ip = {}
    rest = {}
    for m, c in p.t.items():
        ok = all(e > 0 and _ATOMS[a].isint for a, e in m)
        if ok:
            if m == ():
                import math
                f = math.floor(c)
                if f:
                    ip[m] = Fraction(f)
                if c - f:
                    rest[m] = c - f
            else:
                if c.denominator == 1:
                    ip[m] = c
                else:
                    import math
                    f = math.floor(c)
                    if f:
                        ip[m] = Fraction(f)
                    rest[m] = c - f
        else:
            rest[m] = c
    ipart = Poly(ip)
    r = Poly(rest)
    if not rest:
        return ipart
    if r.is_const():
        import math
        return ipart.add(Poly.const(math.floor(r.const_val())))
    # common rational denominators of integer polynomials -> integer div
    isintmon = all(all(e > 0 and _ATOMS[a].isint for a, e in m) for m in rest)
    if isintmon:
        L = 1
        for c in rest.values():
            L = L * c.denominator // _gcd(L, c.denominator)
        z = (r.scale(L).z) / z3.IntVal(L)
    else:
        z = z3.ToInt(r.zreal())
    a = _new_atom(('floor', r.key), z, True, r.free, 'floor', (r,))
    return ipart.add(Poly.atom(a))


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


_REBUILD['floor'] = lambda at, sp, sz, info: floor(sp(at.args[0]))


def is_opaque_expr(zs):
    """does any z3 expr contain opaque uninterpreted applications?"""
    return False


def from_z3(z):
    """polynomial of a z3 term over interned symbols (None if not recognised)"""
    if z3.is_int_value(z):
        return Poly.const(z.as_long())
    if z3.is_rational_value(z):
        return Poly.const(z.as_fraction())
    if not z3.is_app(z):
        return None
    k = z.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and z.num_args() == 0 and (z3.is_int(z) or z3.is_real(z)):
        return sym(z.decl().name(), z3.is_int(z))
    ch = [from_z3(x) for x in z.children()]
    if any(x is None for x in ch):
        return None
    if k == z3.Z3_OP_ADD:
        r = ch[0]
        for x in ch[1:]:
            r = r.add(x)
        return r
    if k == z3.Z3_OP_SUB:
        r = ch[0]
        for x in ch[1:]:
            r = r.add(x, -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return ch[0].neg()
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for x in ch[1:]:
            r = r.mul(x)
        return r
    if k == z3.Z3_OP_TO_REAL:
        return ch[0]
    return None
