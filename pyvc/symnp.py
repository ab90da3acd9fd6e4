"""Trusted contracts of the numpy primitives used by the code under proof."""
import itertools
import types
import z3
import numpy as _rnp
from . import core as C
from . import terms as T
from . import arr as A
from .arr import Arr, Compressed, asarr, ew1, ew2, ewn, bshape, generic_idx, \
    arr_equal, sz_is, dim_same, unwrap0, flatten, reshape, transpose, dim_eq
from .core import (Num, SBool, Cplx, Unsupported, vite, band, bor, bnot,
                   is_scalar, tyof, tojoin, aspoly, mknum)


class _DT(object):
    def __init__(self, n, kind, real):
        self._symdt = n
        self.kind = kind
        self._real = real
        self.type = real

    def __eq__(self, o):
        try:
            return C.dtype_name(o) == self._symdt
        except Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._symdt)

    @property
    def name(self):
        return str(_rnp.dtype(self._real))


DT = {'int': _DT('int', 'i', _rnp.int64), 'real': _DT('real', 'f', _rnp.float64),
      'complex': _DT('complex', 'c', _rnp.complex128),
      'bool': _DT('bool', 'b', _rnp.bool_), 'object': _DT('object', 'O', object)}


def ctx():
    return C.CTX


# --------------------------------------------------------------------- sums
def symsum(n, f):
    """sum_{k<n} f(k) for a function on indices (never forks)"""
    if isinstance(n, int):
        if n > 4096:
            raise Unsupported('very long concrete sum')
        r = 0
        for k in range(n):
            r = r + f(k)
        return r
    c = ctx()
    name = 'bv%d' % c.kdepth
    bvp = T.sym(name, True)
    bv = Num(bvp, 'int')
    c.kdepth += 1
    c.nofork += 1
    try:
        v = f(bv)
    finally:
        c.kdepth -= 1
        c.nofork -= 1
    return _sum_close(n, v, bvp)


def _sum_close(n, v, bvp):
    if isinstance(v, SBool):
        v = v.num()
    if isinstance(v, (Cplx, complex)):
        v = C.ascplx(v)
        return C.mkc(_sum_close(n, v.re, bvp), _sum_close(n, v.im, bvp))
    if isinstance(v, Arr):
        raise Unsupported('sum of arrays')
    p = aspoly(v)
    ty = 'int' if tyof(v) in ('int', 'bool') else 'real'
    return mknum(_psum(aspoly(n), p, bvp), ty)


def _psum(n, p, bvp):
    return _msum([(n, bvp)], p)


_MAXBV = 4


def _msum(vs, p):
    """sum over independent bound variables of a polynomial, in normal form:
    nested sums are merged (finite sums commute), factors free of a variable
    are pulled out, independent factors separate"""
    r = T.ZERO
    todo = list(p.t.items())
    ids = {T.poly_sym_atom(b).id: i for i, (n, b) in enumerate(vs)}
    idset = frozenset(ids)
    groups = {}
    while todo:
        m, c = todo.pop()
        inner, outer = [], []
        flat = None
        sp = None
        for a, e in m:
            at = T.atom_by_id(a)
            if sp is None and e == 1 and at.kind == 'ite' and at.free & idset:
                sp = _split_pinned(at, [b for _, b in vs])
                if sp is not None:
                    rest = T.Poly({tuple(x for x in m if x[0] != a): c})
                    break
        if sp is not None:
            for q in sp:
                todo += list(rest.mul(q).t.items())
            continue
        for a, e in m:
            at = T.atom_by_id(a)
            if at.free & idset:
                if at.kind == 'sum' and e == 1 and flat is None:
                    nv = at.args[0]
                    dep = frozenset().union(*[n.free for n, _ in nv]) & idset
                    if not dep and len(nv) + len(vs) <= _MAXBV:
                        flat = at
                        continue
                inner.append((a, e))
            else:
                outer.append((a, e))
        if flat is not None:
            nv, M = flat.args
            nvs = []
            for n, b in nv:
                nb = T.sym(T.fresh_name('bvf'), True)
                M = M.subst(T.poly_sym_atom(b).id, nb, b.z, nb.z)
                nvs.append((n, nb))
            rest = T.Poly({tuple(sorted(inner)): c})
            o = T.Poly({tuple(outer): T.Fraction(1)})
            r = r.add(o.mul(_msum(list(vs) + nvs, rest.mul(M))))
            continue
        g = groups.setdefault(tuple(inner), {})
        o = tuple(outer)
        g[o] = g.get(o, 0) + c
    for inner, outer in groups.items():
        op = T.Poly({k: v for k, v in outer.items() if v})
        if not op.t:
            continue
        # connected components of the factors by shared variables
        comps = []
        for a, e in inner:
            f = T.atom_by_id(a).free & idset
            hit = [q for q in comps if q[0] & f]
            new = (set(f).union(*[q[0] for q in hit]), [(a, e)] + [x for q in hit for x in q[1]])
            comps = [q for q in comps if not (q[0] & f)] + [new]
        used = set().union(*[q[0] for q in comps]) if comps else set()
        for i, (n, b) in enumerate(vs):
            if T.poly_sym_atom(b).id not in used:
                op = op.mul(n)
        for f, fac in comps:
            cv = [vs[ids[i]] for i in sorted(f, key=lambda i: ids[i])]
            op = op.mul(_sum_atom(cv, T.Poly({tuple(sorted(fac)): T.Fraction(1)})))
        r = r.add(op)
    return r


def _pinning(z, bs):
    """every case of z fixes one of the bound variables"""
    if z3.is_eq(z) and z.num_args() == 2 and not z3.is_bool(z.arg(0)):
        info = C.CMP.get(z.get_id())
        if info is not None and info[0] == '==':
            d = info[1].add(info[2], -1)
        else:
            l, r = T.from_z3(z.arg(0)), T.from_z3(z.arg(1))
            if l is None or r is None:
                return False
            d = l.add(r, -1)
        for b in bs:
            bid = T.poly_sym_atom(b).id
            lin = d.t.get(((bid, 1),))
            if lin in (1, -1) and bid not in d.add(b.scale(lin), -1).free:
                return True
        return False
    if z3.is_and(z):
        return any(_pinning(x, bs) for x in z.children())
    if z3.is_or(z):
        return all(_pinning(x, bs) for x in z.children())
    return False


def _split_pinned(at, bs):
    """ite(c, x, y) = y + ite(c, x-y, 0) when c fixes a bound variable, and
    disjunctions of such conditions apart"""
    cz, x, y = at.args
    while z3.is_not(cz):
        cz, x, y = cz.arg(0), y, x
    if z3.is_and(cz) and cz.num_args() > 1 and any(z3.is_or(q) and _pinning(q, bs) for q in cz.children()) \
            and not any(z3.is_eq(q) and _pinning(q, bs) for q in cz.children()):
        o = [q for q in cz.children() if z3.is_or(q) and _pinning(q, bs)][0]
        rest = [q for q in cz.children() if q.get_id() != o.get_id()]
        cz = z3.Or([z3.And([q] + rest) for q in o.children()])
    if not _pinning(cz, bs):
        return None
    if not y.t and not z3.is_or(cz):
        return None
    d = x.add(y, -1)
    out = [y] if y.t else []
    if z3.is_or(cz):
        prev = []
        for q in cz.children():
            # q and none of the earlier cases
            out.append(T.ite(q, d, T.ZERO))
            for p in prev:
                out.append(T.ite(z3.And(p, q), d.neg(), T.ZERO))
            if len(prev) > 1:
                return None
            prev.append(q)
    else:
        out.append(T.ite(cz, d, T.ZERO))
    return out


def _canon(vs, M):
    """canonical order and names of the bound variables"""
    bids = [T.poly_sym_atom(b).id for _, b in vs]
    names = []
    outside = M.free - frozenset(bids)
    j = 0
    while len(names) < len(vs):
        q = T.sym('mv%d' % j, True)
        if T.poly_sym_atom(q).id not in outside:
            names.append(q)
        j += 1
    best = None
    # rename apart first so that no simultaneous-substitution clash occurs
    tmp = []
    for i, (n, b) in enumerate(vs):
        t = T.sym('mvt%d' % i, True)
        M = M.subst(bids[i], t, b.z, t.z)
        tmp.append((n, t))
    for perm in itertools.permutations(range(len(vs))):
        Q = M
        for k, i in enumerate(perm):
            t = tmp[i][1]
            Q = Q.subst(T.poly_sym_atom(t).id, names[k], t.z, names[k].z)
        key = (tuple(tmp[i][0].key for i in perm), Q.key)
        if best is None or key < best[0]:
            best = (key, [(tmp[i][0], names[k]) for k, i in enumerate(perm)], Q)
    return best[1], best[2]


def _sum_atom(vs, M):
    c = ctx()
    for i, (n, b) in enumerate(vs):
        one = _pick_delta(n, M, b)
        if one is not None:
            rest = vs[:i] + vs[i + 1:]
            return _msum(rest, one) if rest else one
    vs, M = _canon(vs, M)
    if len(M.t) != 1:
        # renaming may merge factors (never splits): start over
        return _msum(vs, M)
    bids = frozenset(T.poly_sym_atom(b).id for _, b in vs)
    key = ('sum', tuple((n.key, b.key) for n, b in vs), M.key)
    for k, atom, ex in c.sum_classes:
        if k == key:
            return T.Poly.atom(atom)
    ren = _renamed_sum(c, vs, M, bids)
    if ren is not None:
        c.sum_classes.append((key, ren, True))
        return T.Poly.atom(ren)
    rng = z3.And([z3.And(b.z >= 0, b.z < n.z) for n, b in vs])
    trig = _has_trig(M)
    for k, atom, ex in ([] if trig else c.sum_classes):
        if k[0] != 'sum' or len(k[1]) != len(vs) or any(x[1] != y.key for x, (_, y) in zip(k[1], vs)):
            continue
        vs2, M2 = atom.args
        ok = True
        for (n2, _), (n, _) in zip(vs2, vs):
            if n2.key != n.key:
                e = C.pcmp(n2, n, '==')
                if not (e is True or (isinstance(e, SBool) and c.proves0(e.z))):
                    ok = False
                    break
        if not ok:
            continue
        e = C.pcmp(M, M2, '==')
        if e is True or (isinstance(e, SBool) and quick_differs(M, M2) is False
                         and c.proves(z3.Implies(rng, e.z), 400)):
            c.sum_classes.append((key, atom, False))
            return T.Poly.atom(atom)
    free = M.free
    for n, _ in vs:
        free = free | n.free
    free = free - bids
    fl = sorted(free)
    args = [T.Poly.atom(T.atom_by_id(i)) for i in fl]
    sig = tuple(T.atom_by_id(i).isint for i in fl)
    isint = M.isint
    nm = T.fresh_name('Sum')
    z = T.zfun(nm, sig, isint)(*[p.z for p in args])
    atom = T._new_atom(('sumatom', nm), z, isint, free, 'sum', (tuple(vs), M), True)
    c.sum_classes.append((key, atom, True))
    _sum_facts(c, vs, M, nm, z, trig, ())
    return T.Poly.atom(atom)


def _sum_facts(c, vs, M, nm, z, trig, ids):
    """elementary facts: empty sum; sign of the summand carries over"""
    for n, _ in vs:
        c.axiom(z3.Implies(n.z <= 0, z == 0), ('sum0', nm, n.key, ids))
    rng = z3.And([z3.And(b.z >= 0, b.z < n.z) for n, b in vs])
    if _even(M):
        c.axiom(z >= 0, ('sum+', nm, ids))
        return
    one = T.atom_by_id(next(iter(M.t))[0][0]) if len(M.t) == 1 and len(next(iter(M.t))) == 1 else None
    if one is not None and one.kind == 'ite' and not one.args[2].t and c.solver.quantified and \
            c.proves(z3.Implies(rng, z3.Not(one.args[0])), 1000):
        c.axiom(z3.Implies(z3.And(list(c.pc) if c.local else []), z == 0), ('sumz', nm, ids))
        return
    if not trig and c.proves(z3.Implies(rng, M.zreal() >= 0), 300):
        gd = list(c.pc) if c.local else []
        c.axiom(z3.Implies(z3.And(gd), z >= 0), ('sum+', nm, ids))
        if c.proves(z3.Implies(rng, M.zreal() > 0), 300):
            c.axiom(z3.Implies(z3.And(gd + [n.z > 0 for n, _ in vs]), z > 0), ('sum++', nm, ids))


def _even(M):
    """visibly non-negative: non-negative multiples of even powers"""
    return all(cf >= 0 and all(e % 2 == 0 or _even_atom(a) for a, e in m) for m, cf in M.t.items())


def _even_atom(a):
    a = T.atom_by_id(a)
    return a.kind == 'ite' and _even(a.args[1]) and _even(a.args[2])


def _free_of(vs, M, bids):
    free = M.free
    for n, _ in vs:
        free = free | n.free
    return sorted(free - bids)


def _renamed_sum(c, vs, M, bids):
    """the same sum with other index symbols: the same function at other arguments"""
    fl = _free_of(vs, M, bids)
    fs = set(fl)
    nt = len(M.t)
    tried = set()
    for k, atom, ex in c.sum_classes:
        if not ex or k[0] != 'sum' or len(k[1]) != len(vs) or any(x[1] != y.key for x, (_, y) in zip(k[1], vs)):
            continue
        nm = atom.key[1]
        if nm in tried:
            continue
        tried.add(nm)
        vs2, M2 = atom.args
        if len(M2.t) != nt:
            continue
        fl2 = _free_of(vs2, M2, bids)
        if len(fl2) != len(fl):
            continue
        f2 = set(fl2)
        r1 = [i for i in fl if i not in f2]
        r2 = [i for i in fl2 if i not in fs]
        if not r1 or len(r1) > 3:
            continue
        A1, A2 = [T.atom_by_id(i) for i in r1], [T.atom_by_id(i) for i in r2]
        if any(p.kind != 'sym' or q.kind != 'sym' or p.isint != q.isint or str(q.z).startswith('in:') or str(p.z).startswith('in:')
               for p, q in zip(A1, A2)):
            continue
        m3, n3 = M2, [n for n, _ in vs2]
        for p, q in zip(A1, A2):
            pp = T.Poly.atom(p)
            m3 = m3.subst(q.id, pp, q.z, pp.z)
            n3 = [n.subst(q.id, pp, q.z, pp.z) for n in n3]
        if m3.key != M.key or any(a.key != n.key for a, (n, _) in zip(n3, vs)):
            continue
        mp = {q.id: p for p, q in zip(A1, A2)}
        # argument order of the function: that of the instance that introduced it
        args = [T.Poly.atom(mp[i] if i in mp else T.atom_by_id(i)) for i in fl2] if len(atom.key) == 2 else \
            [T.Poly.atom(mp[i] if i in mp else T.atom_by_id(i)) for i in atom.key[2]]
        sig = tuple(p.isint for p in args)
        z = T.zfun(nm, sig, atom.isint)(*[p.z for p in args])
        ids = tuple(T.poly_sym_atom(p).id for p in args)
        a2 = T._new_atom(('sumatom', nm, ids), z, atom.isint, frozenset(fl), 'sum', (tuple(vs), M), True)
        _sum_facts(c, vs, M, nm, z, _has_trig(M), ids)
        return a2
    return None


def _has_trig(M):
    # such factors have a normal form of their own; the solver adds nothing
    return any(T.atom_by_id(a).kind == 'app' and T.atom_by_id(a).args[0] in ('cos', 'sin')
               for m in M.t for a, e in m)


def quick_differs(M, M2):
    """True when the two monomials involve different opaque functions, so that
    equality could only be accidental (skips hopeless solver calls)"""
    def names(p, acc, depth=0):
        for m in p.t:
            for a, e in m:
                at = T.atom_by_id(a)
                if at.kind == 'app':
                    acc.add(at.args[0])
                elif at.kind == 'ite' and depth < 4:
                    names(at.args[1], acc, depth + 1)
                    names(at.args[2], acc, depth + 1)
        return acc
    return names(M, set()) != names(M2, set())


def _pick_delta(n, M, bvp):
    if len(M.t) != 1:
        return None
    (m, cf), = M.t.items()
    bid = T.poly_sym_atom(bvp).id
    for a, e in m:
        at = T.atom_by_id(a)
        if e == 1 and at.kind == 'ite' and at.args[2].key == ():
            eqs = [z for z in _conjuncts(at.args[0]) if z3.is_eq(z)]
            for z in eqs:
                info = C.CMP.get(z.get_id())
                if info is not None and info[0] == '==':
                    d = info[1].add(info[2], -1)
                else:
                    l, rr = T.from_z3(z.arg(0)), T.from_z3(z.arg(1))
                    if l is None or rr is None:
                        continue
                    d = l.add(rr, -1)
                lin = d.t.get(((bid, 1),))
                rest = d.add(bvp.scale(lin), -1) if lin else None
                if lin in (1, -1) and bid not in rest.free and rest.isint:
                    sol = rest.scale(-1 / lin)
                    body = M.subst(bid, sol, bvp.z, sol.z)
                    inr = z3.And(sol.z >= 0, sol.z < n.z)
                    return T.ite(inr, body, T.ZERO)
    return None


def _conjuncts(z):
    if z3.is_and(z):
        r = []
        for ch in z.children():
            r += _conjuncts(ch)
        return r
    return [z]


def _reb_sum(at, sp, sz, info):
    vs, M = at.args
    bids = [T.poly_sym_atom(b).id for _, b in vs]
    if info is not None:
        sid, rep, zvar, zrep = info
        if sid in bids:
            return T.Poly.atom(at)
        clash = [i for i in bids if i in rep.free]
    else:
        clash = []
    nvs = []
    for (n, b), i in zip(vs, bids):
        if i in clash:
            # avoid capture
            nb = T.sym(T.fresh_name('bvr'), True)
            M = M.subst(i, nb, b.z, nb.z)
            b = nb
        nvs.append((sp(n), b))
    return _msum(nvs, sp(M))


T._REBUILD['sum'] = _reb_sum


def count_true(m):
    f = m.snap()
    return _nsum(m.shape_, lambda *i: f(*i).num() if isinstance(f(*i), SBool) else int(bool(f(*i))))


def _nsum(shape, f):
    if not shape:
        return f()
    if len(shape) == 1:
        return symsum(shape[0], f)
    return symsum(shape[0], lambda i: _nsum(shape[1:], lambda *r: f(i, *r)))


# ------------------------------------------------------------- quantifiers
_QN = itertools.count()


def forall_idx(shape, pred):
    """z3 Bool: pred holds for every index tuple of shape"""
    if all(isinstance(d, int) for d in shape):
        tot = 1
        for d in shape:
            tot *= d
        if tot <= 64:
            zs = [C.zb(pred(*ix)) for ix in itertools.product(*[range(d) for d in shape])]
            return z3.And(zs) if zs else z3.BoolVal(True)
    idx, conds = generic_idx(shape, 'q')
    c = ctx()
    cs = [x.z for x in conds if isinstance(x, SBool)]
    c.nofork += 1
    try:
        with c.scope(cs):
            v = pred(*idx)
    finally:
        c.nofork -= 1
    zv = C.zb(v)
    if z3.is_true(z3.simplify(zv)):
        return z3.BoolVal(True)
    vs = [i.p.z for i in idx if isinstance(i, Num)]
    body = z3.Implies(z3.And(cs), zv) if cs else zv
    return z3.ForAll(vs, body) if vs else body


def exists_idx(shape, pred):
    return z3.Not(forall_idx(shape, lambda *i: bnot(pred(*i))))


def decide_forall(a, pred):
    f = a.snap()
    z = forall_idx(a.shape_, lambda *i: pred(f(*i)))
    return bool(C.mkbool(z3.simplify(z)))


# ------------------------------------------------------------ array classes
def arr_class(a):
    c = ctx()
    g = [Num(T.sym('g%d' % d, True), 'int') if not sz_is(n, 1) else 0
         for d, n in enumerate(a.shape_)]
    c.nofork += 1
    try:
        v = a.fn(*g)
    finally:
        c.nofork -= 1
    k = _vkey(v)
    sk = tuple(_dkey(d) for d in a.shape_)
    for cid, (sk2, k2, a2) in enumerate(c.arr_classes):
        if sk2 == sk and k2 == k:
            return cid
    s = Arr(a.shape_, a.snap(), a.dt)
    for cid, (sk2, k2, a2) in enumerate(c.arr_classes):
        if k2[0] == k[0] == 'p' and isinstance(v, Num) and _opaque_only_differ(v.p, k2, a2, g):
            continue
        if a2.ndim == a.ndim and (a2.dt == 'bool') == (a.dt == 'bool') and arr_equal(s, a2, 1000):
            return cid
    s.keyval = v            # keeps the expression behind the key (z3 ids are reused once an expression is gone)
    c.arr_classes.append((sk, k, s))
    return len(c.arr_classes) - 1


def _opaque_only_differ(p, k2, a2, g):
    c = ctx()
    if a2.ndim != len(g):
        return True
    c.nofork += 1
    try:
        v2 = a2.fn(*g)
    finally:
        c.nofork -= 1
    # a missed identification only costs precision: the arrays get separate names
    return isinstance(v2, Num) and quick_differs(p, v2.p)


def arr_free(a):
    c = ctx()
    gs = [T.sym('g%d' % d, True) for d in range(a.ndim)]
    gid = frozenset(T.poly_sym_atom(g).id for g in gs)
    c.nofork += 1
    try:
        v = a.fn(*[Num(g, 'int') if not sz_is(n, 1) else 0 for g, n in zip(gs, a.shape_)])
    finally:
        c.nofork -= 1
    s = _vfree(v)
    for d in a.shape_:
        if isinstance(d, Num):
            s = s | d.p.free
    return s - gid


def _vfree(v):
    if isinstance(v, Num):
        return v.p.free
    if isinstance(v, Cplx):
        return _vfree(v.re) | _vfree(v.im)
    if isinstance(v, SBool):
        return T.zfree(v.z)
    return frozenset()


def _vkey(v):
    if isinstance(v, (Cplx, complex)):
        v = C.ascplx(v)
        return ('c', _vkey(v.re), _vkey(v.im))
    if isinstance(v, SBool):
        return ('b', v.z.get_id())
    p = aspoly(v)
    return ('p', p.key)


def _dkey(d):
    return d if isinstance(d, int) else d.p.key


def opaque(name, arrays, params, shape, dt, sym_params=()):
    """result of an uninterpreted array operation, congruent in its arguments"""
    ids = tuple(arr_class(x) for x in arrays)
    fr = frozenset()
    for x in arrays:
        fr = fr | arr_free(x)
    pol = [aspoly(p) for p in sym_params]
    fl = sorted(fr)
    # only loop / bound variables need to be explicit arguments
    ex = [T.Poly.atom(T.atom_by_id(i)) for i in fl
          if T.atom_by_id(i).kind == 'sym' and ('!' in T.atom_by_id(i).key[1] or
                                                T.atom_by_id(i).key[1].startswith('bv'))]
    nm = '%s#%s%s' % (name, ','.join(map(str, ids)), '' if not params else repr(params))
    exsig = tuple(p.isint for p in ex)

    def el(part, isint):
        def f(*idx):
            ip = [aspoly(i) for i in idx]
            return mknum(T.app(nm + part, ip + pol + ex, isint,
                               sig=tuple([True] * len(ip)) + tuple([False] * len(pol)) + exsig),
                         'int' if isint else 'real')
        return f
    if dt == 'complex':
        re, im = el('.re', False), el('.im', False)
        r = Arr(shape, lambda *i: C.mkc(re(*i), im(*i)), 'complex')
    elif dt == 'bool':
        raise Unsupported('opaque bool array')
    else:
        r = Arr(shape, el('', dt == 'int'), dt)
    ctx().shims.add(name)
    return r


def opaque_scalar(name, arrays, params, dt, sym_params=()):
    return opaque(name, arrays, params, (), dt, sym_params).fn()


# ------------------------------------------------------- index inversion
def index_inverse(f, n):
    """membership predicate and position function of the index list f(0..n-1)"""
    return index_inverse_n([f], n)


def index_inverse_n(fs, n):
    # identity / affine list: solve directly
    c = ctx()
    if len(fs) == 1 and not isinstance(n, int):
        bv = Num(T.sym('aff!', True), 'int')
        c.nofork += 1
        try:
            v = fs[0](bv)
        finally:
            c.nofork -= 1
        if isinstance(v, Num):
            d = v.p.add(bv.p, -1)
            if T.poly_sym_atom(bv.p).id not in d.free and d.isint:
                off = mknum(d, 'int')
                return (lambda b: band(b - off >= 0, b - off < n)), (lambda b: b - off)
    if isinstance(n, int) and n <= 64:
        def mem(*b):
            return bor(*[band(*[f(t) == x for f, x in zip(fs, b)]) for t in range(n)])

        def pos(*b):
            r = 0
            for t in range(n):
                e = band(*[f(t) == x for f, x in zip(fs, b)])
                r = vite(e, t, r)
            return r
        return mem, pos
    m = len(fs)
    bq = T.sym('inv!', True)
    c.nofork += 1
    try:
        ckey = ('inv', tuple(aspoly(f(Num(bq, 'int'))).key for f in fs), aspoly(n).key)
    finally:
        c.nofork -= 1
    if not hasattr(c, 'inv_cache') or c.inv_cache[0] is not c.arr_classes:
        c.inv_cache = (c.arr_classes, {})
    if ckey in c.inv_cache[1]:
        return c.inv_cache[1][ckey]
    tag = T.fresh_name('inv')
    zmem = T.zfun(tag + '.mem', (True,) * m, 'bool')
    # axioms
    q = T.sym(T.fresh_name('q'), True)
    qn = Num(q, 'int')
    c.nofork += 1
    try:
        vs = [aspoly(f(qn)) for f in fs]
    finally:
        c.nofork -= 1
    inr = z3.And(q.z >= 0, q.z < aspoly(n).z)
    c.axiom(z3.ForAll([q.z], z3.Implies(inr, zmem(*[v.z for v in vs]))))
    bs = [T.sym(T.fresh_name('b'), True) for _ in fs]

    def posn(*b):
        return mknum(T.app(tag + '.pos', [aspoly(x) for x in b], True,
                           sig=(True,) * m), 'int')
    pz = posn(*[Num(b, 'int') for b in bs])
    bid = T.poly_sym_atom(q).id
    at = [v.subst(bid, pz.p, q.z, pz.p.z) for v in vs]
    c.axiom(z3.ForAll([b.z for b in bs], z3.Implies(
        zmem(*[b.z for b in bs]),
        z3.And([pz.p.z >= 0, pz.p.z < aspoly(n).z] +
               [a_.z == b.z for a_, b in zip(at, bs)]))))
    # last occurrence wins
    c.axiom(z3.ForAll([q.z], z3.Implies(
        inr, T.zfun(tag + '.pos', (True,) * m, True)(*[v.z for v in vs]) >= q.z)))

    def mem(*b):
        return C.mkbool(zmem(*[aspoly(x).z for x in b]))
    c.inv_cache[1][ckey] = (mem, posn)
    return mem, posn


# ------------------------------------------------------------------ creation
def _shape(s):
    if isinstance(s, Arr):
        s = [s[i] for i in range(s.shape_[0])]
    if not isinstance(s, (tuple, list)):
        s = (s,)
    out = []
    for d in s:
        if isinstance(d, _rnp.integer):
            d = int(d)
        if isinstance(d, float) or (isinstance(d, Num) and d.ty != 'int'):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(d, Arr):
            d = d.item()
        if d < 0:
            raise ValueError('negative dimensions are not allowed')
        out.append(d)
    return tuple(out)


_ZERO = {'int': 0, 'real': 0.0, 'bool': False}
_ONE = {'int': 1, 'real': 1.0, 'bool': True}


def _const(shape, v, dt):
    r = Arr(_shape(shape), lambda *i: v, dt)
    r.contig = True
    return r


def zeros(shape, dtype=float, order='C'):
    d = C.dtype_name(dtype)
    return _const(shape, _ZERO.get(d, Cplx(0.0, 0.0)), d)


def ones(shape, dtype=float, order='C'):
    d = C.dtype_name(dtype)
    return _const(shape, _ONE.get(d, Cplx(1.0, 0.0)), d)


def empty(shape, dtype=float, order='C'):
    d = C.dtype_name(dtype)
    nm = T.fresh_name('uninit')
    sh = _shape(shape)

    def f(*i):
        def e(p):
            return mknum(T.app(nm + p, [aspoly(x) for x in i], d == 'int',
                               sig=(True,) * len(i)), 'int' if d == 'int' else 'real')
        if d == 'complex':
            return C.mkc(e('r'), e('i'))
        if d == 'bool':
            return e('b') > 0
        return e('')
    return Arr(sh, f, d)


def full(shape, v, dtype=None):
    v = unwrap0(v)
    return _const(shape, v if dtype is None else C.cast_scalar(v, dtype),
                  tyof(v) if dtype is None else C.dtype_name(dtype))


def zeros_like(a, dtype=None, **k):
    a = asarr(a)
    return zeros(a.shape_, dtype if dtype is not None else DT[a.dt])


def ones_like(a, dtype=None, **k):
    a = asarr(a)
    return ones(a.shape_, dtype if dtype is not None else DT[a.dt])


def empty_like(a, dtype=None, **k):
    a = asarr(a)
    return empty(a.shape_, dtype if dtype is not None else DT[a.dt])


def full_like(a, v, dtype=None):
    a = asarr(a)
    return full(a.shape_, v, dtype if dtype is not None else DT[a.dt])


def array(x, dtype=None, copy=True, ndmin=0, **k):
    r = asarr(x)
    r = r.copy() if r is x or True else r
    if dtype is not None:
        r = r.astype(dtype)
    while r.ndim < ndmin:
        r = reshape(r, (1,) + r.shape_)
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, Compressed):
        return x
    if isinstance(x, (str, bytes)) or x is None or isinstance(x, dict):
        return _rnp.asarray(x)
    r = asarr(x)
    if dtype is not None and C.dtype_name(dtype) != r.dt:
        r = r.astype(dtype)
    return r


def arange(*a, **k):
    dtype = k.get('dtype')
    a = [x.item() if isinstance(x, Arr) else x for x in a]
    if 'step' in k:
        raise Unsupported('arange step kw')
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    n = C.toint(C.nceil(_tdiv(stop - start, step)))
    if n < 0:
        n = 0
    ints = all(tyof(x) == 'int' for x in (start, stop, step))
    dt = C.dtype_name(dtype) if dtype is not None else ('int' if ints else 'real')

    def f(i):
        v = start + i * step
        if dt == 'real' and tyof(v) == 'int':
            v = C.cast_scalar(v, float)
        elif dt == 'int' and tyof(v) != 'int':
            v = C.toint(v)
        return v
    return Arr((n,), f, dt)


def _tdiv(a, b):
    return mknum(aspoly(a).div(aspoly(b)), 'real')


def linspace(a, b, num=50, endpoint=True, **k):
    if k.get('retstep') or k.get('axis'):
        raise Unsupported('linspace options')
    if isinstance(num, float) or (isinstance(num, Num) and num.ty != 'int'):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if num < 0:
        raise ValueError('Number of samples must be non-negative')
    a, b = unwrap0(a), unwrap0(b)
    div = num - 1 if endpoint else num
    if endpoint and (num == 1):
        return Arr((1,), lambda i: C.cast_scalar(a, float), 'real')

    def f(i):
        return a + i * mknum(aspoly(b - a).div(aspoly(div)), 'real')
    return Arr((num,), f, 'real')


def eye(n, M=None, k=0, dtype=float):
    M = n if M is None else M
    d = C.dtype_name(dtype)
    o, z = (C.mkc(1.0, 0.0), C.mkc(0.0, 0.0)) if d == 'complex' else (_ONE[d], _ZERO[d])
    def f(i, j):
        e = (j - i == k)
        return vite(e, o, z) if isinstance(e, SBool) else (o if e else z)
    return Arr((n, M), f, d)


def atleast_1d(x):
    if isinstance(x, Compressed):
        return x
    if isinstance(x, str):
        return [x]  # arrays of text: only indexed
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, str) for v in x):
        return list(x)
    a = asarr(x)
    if a.ndim == 0:
        return reshape(a, (1,))
    return a


def atleast_2d(x):
    a = asarr(x)
    if a.ndim == 0:
        return reshape(a, (1, 1))
    if a.ndim == 1:
        return reshape(a, (1, a.shape_[0]))
    return a


def meshgrid(x, y, **k):
    if k.get('indexing', 'xy') != 'xy':
        raise Unsupported('meshgrid ij')
    x, y = asarr(x), asarr(y)
    fx, fy = flatten(x).snap(), flatten(y).snap()
    sh = (y.size, x.size)
    return [Arr(sh, lambda r, c: fx(c), x.dt), Arr(sh, lambda r, c: fy(r), y.dt)]


def outer(a, b):
    a, b = flatten(asarr(a)), flatten(asarr(b))
    f, g = a.snap(), b.snap()
    return Arr((a.size, b.size), lambda i, j: f(i) * g(j), tojoin(a.dt, b.dt))


def diag(a, k=0):
    a = asarr(a)
    if k != 0:
        raise Unsupported('diag k')
    f = a.snap()
    if a.ndim == 1:
        n = a.shape_[0]
        z = C.mkc(0.0, 0.0) if a.dt == 'complex' else _ZERO[a.dt]
        def g(i, j):
            e = (i == j)
            return vite(e, f(i), z) if isinstance(e, SBool) else (f(i) if e else z)
        return Arr((n, n), g, a.dt)
    return Arr((C.nmin(a.shape_[0], a.shape_[1]),), lambda i: f(i, i), a.dt)


def concatenate(xs, axis=0):
    xs = [asarr(x) for x in (list(xs) if not isinstance(xs, (list, tuple)) else xs)]
    n = xs[0].ndim
    if n == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if axis is None:
        xs = [x if x.ndim == 1 else x.reshape(-1) for x in xs]
        n, axis = 1, 0
    axis = axis % n
    for x in xs[1:]:
        if x.ndim != n:
            raise ValueError('all the input array dimensions must match')
        for d in range(n):
            if d != axis and not dim_eq(x.shape_[d], xs[0].shape_[d]):
                raise ValueError('all the input array dimensions except for the '
                                 'concatenation axis must match exactly')
    offs = [0]
    for x in xs:
        offs.append(offs[-1] + x.shape_[axis])
    fs = [x.snap() for x in xs]
    dt = tojoin(*[x.dt for x in xs])
    sh = list(xs[0].shape_)
    sh[axis] = offs[-1]

    def f(*idx):
        i = idx[axis]

        def at(k):
            j = list(idx)
            j[axis] = i - offs[k]
            return fs[k](*j)
        r = None
        for k in range(len(xs) - 1, -1, -1):
            if sz_is(xs[k].shape_[axis], 0):
                continue
            if isinstance(i, int) and isinstance(offs[k], int) and i < offs[k]:
                continue                      # the entry lies in an earlier part
            c = i < offs[k + 1]
            if r is None:
                r = at(k)
            elif isinstance(c, SBool):
                r = vite(c, A.castv(at(k), dt), A.castv(r, dt))
            elif c:
                r = at(k)
        return r
    out = Arr(sh, f, dt)
    if n == 1 and len(xs) > 1:
        ps = []
        for x, fx in zip(xs, fs):
            q = getattr(x, 'parts', None)
            mk = getattr(x, 'maskof', None)
            if q is not None and x.base is None and q[0] is x._fn:
                ps += q[1]
                continue
            p = Arr(x.shape_, fx, x.dt)
            if mk is not None and x.base is None and mk[0] is x._fn:
                p.maskof = (p._fn,) + mk[1:]
            ps.append(p)
        out.parts = (out._fn, ps)
        so = _join_sets(xs)
        if so is not None:
            out.setof_ = (out._fn,) + so
    return out


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], 0)


def stack(xs, axis=0):
    xs = [asarr(x) for x in xs]
    n = xs[0].ndim + 1
    axis = axis % n
    ys = []
    for x in xs:
        s = list(x.shape_)
        s.insert(axis, 1)
        ys.append(reshape(x, s))
    return concatenate(ys, axis)


def append(a, b, axis=None):
    if axis is None:
        return concatenate([flatten(atleast_1d(a)), flatten(atleast_1d(b))])
    return concatenate([a, b], axis)


# ---------------------------------------------------------------- reductions
def _axes(nd, axis):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(x % nd for x in axis)
    if axis >= nd or axis < -nd:
        raise ValueError('axis out of bounds')
    return (axis % nd,)


def np_sum(a, axis=None, dtype=None, keepdims=False, **k):
    if isinstance(a, Compressed):
        if axis is not None and a.extra:
            raise Unsupported('axis sum of a masked selection')
        m, f = a.mask.snap(), a.fn0
        nd = a.mask.ndim
        sh = a.mask.shape_ + a.extra
        zero = C.mkc(0, 0) if a.dt == 'complex' else 0
        return _nsum(sh, lambda *i: _msel(m(*i[:nd]), f(*i), zero))
    a = asarr(a)
    if a.ndim == 0:
        return a.fn()
    if isinstance(axis, (int,)) and not (-a.ndim <= axis < a.ndim):
        raise ValueError('axis %d is out of bounds' % axis)
    ax = _axes(a.ndim, axis)
    keep = [d for d in range(a.ndim) if d not in ax]
    f = a.snap()
    dt = 'int' if a.dt == 'bool' else a.dt

    def g(*i):
        full_ = [None] * a.ndim
        for d, x in zip(keep, i):
            full_[d] = x

        def h(*r):
            z = list(full_)
            for d, x in zip(ax, r):
                z[d] = x
            v = f(*z)
            return v.num() if isinstance(v, SBool) else (int(v) if isinstance(v, bool) else v)
        return _nsum([a.shape_[d] for d in ax], h)
    if not keep:
        r = g()
        return reshape(asarr(r), (1,) * a.ndim) if keepdims else r
    r = Arr([a.shape_[d] for d in keep], g, dt)
    if keepdims:
        r = reshape(r, [1 if d in ax else a.shape_[d] for d in range(a.ndim)])
    return r


def _msel(c, v, z):
    if isinstance(c, SBool):
        return vite(c, v.num() if isinstance(v, SBool) else v, z)
    return v if c else z


def np_mean(a, axis=None, **k):
    if isinstance(a, Compressed):
        return _sdiv(np_sum(a), a.size)
    a = asarr(a)
    ax = _axes(a.ndim, axis)
    n = 1
    for d in ax:
        n = n * a.shape_[d]
    s = np_sum(a, axis, **{q: v for q, v in k.items() if q == 'keepdims'})
    if isinstance(s, Arr):
        return s / n
    return _sdiv(s, n)


def _sdiv(a, b):
    if isinstance(a, (Cplx, complex)):
        return C.ascplx(a) / b
    return mknum(aspoly(a).div(aspoly(b)), 'real')


def _reduce_bool(a, axis, op):
    a = asarr(a)
    ax = _axes(a.ndim, axis)
    keep = [d for d in range(a.ndim) if d not in ax]
    if not all(isinstance(a.shape_[d], int) and 0 < a.shape_[d] <= 64 for d in ax):
        raise Unsupported('any/all along an axis of symbolic length')
    f = a.snap()

    def g(*i):
        r = None
        for t in itertools.product(*[range(a.shape_[d]) for d in ax]):
            z = [None] * a.ndim
            for d, x in zip(keep, i):
                z[d] = x
            for d, x in zip(ax, t):
                z[d] = x
            v = _tb(f(*z))
            r = v if r is None else op(r, v)
        return r
    if not keep:
        return C.mkbool(z3.simplify(C.zb(g())))
    return Arr([a.shape_[d] for d in keep], g, 'bool')


def np_any(a, axis=None, **k):
    if isinstance(a, (bool, SBool, Num)) or is_scalar(a):
        return C.mkbool(z3.simplify(C.zb(a)))
    if axis is not None:
        return _reduce_bool(a, axis, bor)
    if isinstance(a, Compressed):
        m, f, nd = a.mask.snap(), a.fn0, a.mask.ndim
        return C.mkbool(z3.simplify(exists_idx(a.mask.shape_ + a.extra, lambda *i: band(m(*i[:nd]), _tb(f(*i))))))
    a = asarr(a)
    hit = getattr(a, 'anyof', None)
    if hit is not None and a.base is None and hit[0] is a._fn:
        return C.mkbool(z3.simplify(C.zb(hit[1])))
    f = a.snap()
    return C.mkbool(z3.simplify(exists_idx(a.shape_, lambda *i: _tb(f(*i)))))


def np_all(a, axis=None, **k):
    if isinstance(a, (bool, SBool, Num)) or is_scalar(a):
        return C.mkbool(z3.simplify(C.zb(a)))
    if axis is not None:
        return _reduce_bool(a, axis, band)
    if isinstance(a, Compressed):
        m, f, nd = a.mask.snap(), a.fn0, a.mask.ndim
        return C.mkbool(z3.simplify(forall_idx(a.mask.shape_ + a.extra, lambda *i: bor(bnot(m(*i[:nd])), _tb(f(*i))))))
    a = asarr(a)
    f = a.snap()
    return C.mkbool(z3.simplify(forall_idx(a.shape_, lambda *i: _tb(f(*i)))))


def _tb(v):
    if C._isb(v):
        return v
    return bnot(v == 0)


def _extreme(a, axis, mx):
    if axis is not None:
        a = asarr(a)
        if a.ndim == 1:
            axis = None
        else:
            ax = _axes(a.ndim, axis)
            keep = [d for d in range(a.ndim) if d not in ax]
            if not all(isinstance(a.shape_[d], int) and a.shape_[d] <= 64 for d in ax):
                raise Unsupported('max/min along symbolic axis')
            f = a.snap()

            def g(*i):
                r = None
                for t in itertools.product(*[range(a.shape_[d]) for d in ax]):
                    z = [None] * a.ndim
                    for d, x in zip(keep, i):
                        z[d] = x
                    for d, x in zip(ax, t):
                        z[d] = x
                    v = f(*z)
                    r = v if r is None else (C.nmax(r, v) if mx else C.nmin(r, v))
                return r
            return Arr([a.shape_[d] for d in keep], g, a.dt)
    c = ctx()
    if isinstance(a, Compressed):
        m, f, nd = a.mask.snap(), a.fn0, a.mask.ndim
        sh = a.mask.shape_ + a.extra
        sel = lambda *i: m(*i[:nd])
        key = ('ext', mx, arr_class(a.mask), arr_class(Arr(sh, lambda *i: vite(sel(*i), f(*i), 0) , a.dt)))
        dt = a.dt
    else:
        a = asarr(a)
        f, sh = a.snap(), a.shape_
        tot = 1
        for d in sh:
            tot = tot * d
        if isinstance(tot, int) and tot <= 36:
            if tot == 0:
                raise ValueError('zero-size array to reduction operation')
            r = None
            for ix in itertools.product(*[range(d) for d in sh]):
                v = f(*ix)
                r = v if r is None else (C.nmax(r, v) if mx else C.nmin(r, v))
            return r
        if not (tot > 0):
            raise ValueError('zero-size array to reduction operation')
        sel = None
        key = ('ext', mx, arr_class(a))
        dt = a.dt
    if not hasattr(c, 'ext_cache') or c.ext_cache[0] is not c.arr_classes:
        c.ext_cache = (c.arr_classes, {})
    r = c.ext_cache[1].get(key)
    if r is not None:
        return r
    if dt == 'complex':
        raise Unsupported('max of complex')
    p = T.sym(T.fresh_name('max' if mx else 'min'), dt == 'int')
    r = Num(p, 'int' if dt == 'int' else 'real')

    def cmp(*i):
        v = f(*i)
        e = (v <= r) if mx else (r <= v)
        return e if sel is None else bor(bnot(sel(*i)), e)
    c.axiom(forall_idx(sh, cmp))
    w, conds = generic_idx(sh, 'wit')
    c.nofork += 1
    e = band(f(*w) == r, True if sel is None else sel(*w))
    c.nofork -= 1
    c.axiom(z3.And([C.zb(x) for x in conds] + [C.zb(e)]))
    c.ext_cache[1][key] = r
    return r


def np_max(a, axis=None, **k):
    if is_scalar(a):
        return a
    return _extreme(a, axis, True)


def np_min(a, axis=None, **k):
    if is_scalar(a):
        return a
    return _extreme(a, axis, False)


def _arg(a, mx, axis=None):
    a = asarr(a)
    if axis is not None and not (a.ndim == 1 and axis in (0, -1)):
        raise Unsupported('argmin/argmax along an axis')
    if a.ndim != 1:
        a = flatten(a)
    f = a.snap()
    n = a.shape_[0]
    if isinstance(n, int) and n <= 64:
        if n == 0:
            raise ValueError('attempt to get argmin of an empty sequence')
        bi, bv = 0, f(0)
        for k in range(1, n):
            v = f(k)
            c = (v > bv) if mx else (v < bv)
            bi = vite(c, k, bi)
            bv = vite(c, v, bv)
        return bi
    c = ctx()
    if not (n > 0):
        raise ValueError('attempt to get argmin of an empty sequence')
    key = ('arg', mx, arr_class(a))
    if not hasattr(c, 'ext_cache') or c.ext_cache[0] is not c.arr_classes:
        c.ext_cache = (c.arr_classes, {})
    r = c.ext_cache[1].get(key)
    if r is not None:
        return r
    r = Num(T.sym(T.fresh_name('arg'), True), 'int')
    c.axiom(z3.And((r >= 0).z, (r < n).z))
    best = f(r)
    c.axiom(forall_idx((n,), lambda i: (f(i) <= best) if mx else (best <= f(i))))
    c.axiom(forall_idx((n,), lambda i: bor(i >= r, (f(i) < best) if mx else (best < f(i)))))
    c.ext_cache[1][key] = r
    return r


def np_prod(a, axis=None, **k):
    a = asarr(a)
    if axis is not None or not isinstance(a.size, int) or a.size > 64:
        raise Unsupported('prod')
    f = flatten(a).snap()
    r = 1
    for i in range(a.size):
        r = r * f(i)
    return r


# ------------------------------------------------------------- rearrangement
def rot90(m, k=1, axes=(0, 1)):
    m = asarr(m)
    if m.ndim < 2:
        raise ValueError('Axes must be different')
    if isinstance(k, Num):
        raise Unsupported('symbolic rot90')
    if tuple(axes) != (0, 1):
        raise Unsupported('rot90 axes')
    k = int(k) % 4
    f = m.snap()
    R, Cc = m.shape_[0], m.shape_[1]
    if k == 0:
        r = Arr(m.shape_, f, m.dt)
    elif k == 1:
        r = Arr((Cc, R) + m.shape_[2:], lambda i, j, *x: f(j, Cc - 1 - i, *x), m.dt)
    elif k == 2:
        r = Arr((R, Cc) + m.shape_[2:], lambda i, j, *x: f(R - 1 - i, Cc - 1 - j, *x), m.dt)
    else:
        r = Arr((Cc, R) + m.shape_[2:], lambda i, j, *x: f(R - 1 - j, i, *x), m.dt)
    r.frozen = True
    return r


def flip(m, axis=None):
    m = asarr(m)
    ax = _axes(m.ndim, axis)
    f = m.snap()
    sh = m.shape_
    r = Arr(sh, lambda *i: f(*[(sh[d] - 1 - x) if d in ax else x for d, x in enumerate(i)]), m.dt)
    r.frozen = True
    return r


def roll(a, shift, axis=None):
    a = asarr(a)
    f = a.snap()
    sh = a.shape_
    if axis is None:
        if a.ndim != 1:
            return reshape(roll(flatten(a), shift, 0), sh)
        axis = 0
    if isinstance(axis, (tuple, list)):
        if not isinstance(shift, (tuple, list)):
            shift = [shift] * len(axis)
    else:
        axis, shift = [axis], [unwrap0(shift)]
    r = a
    sm = {}
    for x, s in zip(axis, shift):
        x = x % a.ndim
        sm[x] = sm.get(x, 0) + s

    def g(*i):
        o = []
        for d, x in enumerate(i):
            if d in sm:
                n = sh[d]
                s = sm[d]
                o.append(_wrap(x - s, n))
            else:
                o.append(x)
        return f(*o)
    return Arr(sh, g, a.dt)


def _wrap(x, n):
    """x mod n, x within (-2n, 2n) decided by ite when provable"""
    if isinstance(x, int) and isinstance(n, int):
        return x % n
    return x % n


def fftshift(a, axes=None):
    a = asarr(a)
    ax = _axes(a.ndim, axes)
    return roll_ite(a, ax, lambda n: n // 2)


def ifftshift(a, axes=None):
    a = asarr(a)
    ax = _axes(a.ndim, axes)
    return roll_ite(a, ax, lambda n: -(n // 2))


def roll_ite(a, ax, sfn):
    """roll by |shift| < n along axes: expressed with ite instead of mod"""
    f = a.snap()
    sh = a.shape_
    s = {d: sfn(sh[d]) for d in ax}

    def g(*i):
        o = []
        for d, x in enumerate(i):
            if d in s:
                y = x - s[d]
                n = sh[d]
                y = vite(_cb(y < 0), y + n, vite(_cb(y >= n), y - n, y))
                o.append(y)
            else:
                o.append(x)
        return f(*o)
    return Arr(sh, g, a.dt)


def _cb(c):
    return c


def squeeze(a, axis=None):
    a = asarr(a)
    if axis is None:
        keep = []
        for d, n in enumerate(a.shape_):
            if isinstance(n, int):
                if n != 1:
                    keep.append(d)
            elif bool(n == 1):
                pass
            else:
                keep.append(d)
    else:
        ax = _axes(a.ndim, axis)
        for d in ax:
            if not dim_eq(a.shape_[d], 1):
                raise ValueError('cannot select an axis to squeeze out')
        keep = [d for d in range(a.ndim) if d not in ax]
    if len(keep) == a.ndim:
        return a
    nd = a.ndim

    def mp(*i):
        r = [0] * nd
        for d, x in zip(keep, i):
            r[d] = x
        return r

    def region(*b):
        return True, [b[d] for d in keep]
    return Arr([a.shape_[d] for d in keep], None, a.dt, base=(a, mp, region))


def ix_(x, y):
    x, y = atleast_1d(x), atleast_1d(y)
    if isinstance(x, Compressed) or isinstance(y, Compressed):
        raise Unsupported('ix_ of masked selection')
    return reshape(x, (x.shape_[0], 1)), reshape(y, (1, y.shape_[0]))


def repeat(a, n, axis=None):
    a = asarr(a)
    if not is_scalar(n):
        raise Unsupported('repeat counts')
    if axis is None:
        a = flatten(a)
        axis = 0
    axis = axis % a.ndim
    f = a.snap()
    sh = list(a.shape_)
    sh[axis] = sh[axis] * n

    def g(*i):
        i = list(i)
        i[axis] = i[axis] // n
        return f(*i)
    return Arr(sh, g, a.dt)


def moveaxis(a, source, destination):
    a = asarr(a)
    so = [source] if isinstance(source, int) else list(source)
    de = [destination] if isinstance(destination, int) else list(destination)
    if len(so) != len(de):
        raise ValueError('`source` and `destination` arguments must have the same number of elements')
    n = a.ndim
    if any(not -n <= x < n for x in so + de):
        raise ValueError('axis out of bounds')
    so, de = [x % n for x in so], [x % n for x in de]
    order = [d for d in range(n) if d not in so]
    for d, x in sorted(zip(de, so)):
        order.insert(d, x)
    return transpose(a, tuple(order))


def swapaxes(a, i, j):
    a = asarr(a)
    order = list(range(a.ndim))
    order[i], order[j] = order[j], order[i]
    return transpose(a, tuple(order))


def tile(a, reps):
    a = asarr(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = list(reps)
    while len(reps) < a.ndim:
        reps.insert(0, 1)
    sh = (1,) * (len(reps) - a.ndim) + a.shape_
    b = reshape(a, sh) if len(sh) != a.ndim else a
    f = b.snap()
    return Arr([s * r for s, r in zip(sh, reps)],
               lambda *i: f(*[(0 if sz_is(s, 1) else (x if sz_is(r, 1) else x % s))
                              for x, s, r in zip(i, sh, reps)]), a.dt)


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    c_, x_, y_ = asarr(c), asarr(x), asarr(y)
    dt = tojoin(x_.dt, y_.dt)
    r = ewn(lambda cc, a, b: vite(cc, A.castv(a, dt), A.castv(b, dt)) if isinstance(cc, SBool)
            else (a if _truth(cc) else b), dt, c_, x_, y_)
    return r


def _truth(c):
    if isinstance(c, Num):
        raise Unsupported('where on numbers')
    return bool(c)


class IndexList(object):
    """np.nonzero(mask)[0] kept as the selecting mask (sorted, distinct)"""


def _factors(n):
    """(d1, d2) when n is the product of two size symbols"""
    p = aspoly(n)
    if len(p.t) != 1:
        return None
    (m, k), = p.t.items()
    if k != 1:
        return None
    at = [T.Poly.atom(T.atom_by_id(a)) for a, e in m for _ in range(e)]
    if len(at) != 2:
        return None
    return mknum(at[0], 'int'), mknum(at[1], 'int')


def unravel_index(k, shape, order='C'):
    if order != 'C' or not isinstance(shape, (tuple, list)):
        raise Unsupported('unravel_index')
    if isinstance(k, Arr):
        raise Unsupported('unravel_index of an array')
    tot = 1
    for d in shape:
        tot = tot * d
    if bool(band(k >= 0, k < tot)) is False:
        raise ValueError('index is out of bounds for array')
    out = []
    for d in reversed(shape[1:]):
        out.append(k % d)
        k = k // d
    out.append(k)
    return tuple(reversed(out))


def _named_mask(m):
    """a mask whose entries involve sums gets a name: a fresh predicate, without its definition (the same mask gives
    the same list again, see nonzero)"""
    c = ctx()
    if c.kdepth or c.in_scope or c.local:
        return m
    q = T.sym(T.fresh_name('q'), True)
    c.nofork += 1
    try:
        z = C.zb(m.snap()(Num(q, 'int')))
    finally:
        c.nofork -= 1
    seen, todo = set(), [z]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() and e.decl().name().startswith('Sum'):
                break
            todo.extend(e.children())
    else:
        return m
    n = m.shape_[0]
    P = z3.Function(T.fresh_name('mask'), z3.IntSort(), z3.BoolSort())
    return Arr((n,), lambda i: SBool(P(aspoly(i).z)), 'bool')


def nonzero(a):
    a = asarr(a)
    if a.ndim != 1:
        return _nonzero_nd(a)
    n = a.shape_[0]
    f = a.snap()
    c = ctx()
    m = ew1(a, _tb, dt='bool')
    if isinstance(n, int) and n <= 12:
        # fork on membership: concrete index list on every path
        out = [i for i in range(n) if bool(m.fn(i))]
        return (A.from_nd(_rnp.array(out, dtype=int), 'int'),)
    cl = arr_class(m)
    if not hasattr(c, 'nz_cache') or c.nz_cache[0] is not c.arr_classes:
        c.nz_cache = (c.arr_classes, {})
    old = c.nz_cache[1].get(cl)
    if old is not None:
        r = Arr(old.shape_, old._fn, 'int')
        r.maskof = (r._fn,) + old.maskof[1:]
        return (r,)
    m = _named_mask(m)
    cl2 = arr_class(m)
    cnt = count_true(m)
    tag = T.fresh_name('nz')
    mf = m.snap()

    def indp(p):
        a_ = T.poly_single_atom(p)
        if a_ is not None and a_.kind == 'app' and a_.args[0] == tag + '.pos':
            # position and list are inverse (positions of unlisted entries are free)
            return a_.args[1][0]
        return T.app(tag, [p], True, sig=(True,))
    T._SPECIAL_APP[tag] = indp

    def ind(i):
        p = aspoly(i)
        return mknum(indp(p), 'int')
    r = Arr((cnt,), ind, 'int')

    def posn(j):
        return mknum(T.app(tag + '.pos', [aspoly(j)], True, sig=(True,)), 'int')
    c.axiom(forall_idx((cnt,), lambda i: band(ind(i) >= 0, ind(i) < n)))
    q = T.sym(T.fresh_name('q'), True)
    qn = Num(q, 'int')
    c.nofork += 1
    try:
        sel = C.zb(mf(ind(qn)))
        selj = C.zb(mf(qn))
    finally:
        c.nofork -= 1
    c.axiom(z3.ForAll([q.z], z3.Implies(z3.And(q.z >= 0, q.z < aspoly(cnt).z),
                                       z3.And(sel, posn(ind(qn)).p.z == q.z))))
    c.axiom(z3.ForAll([q.z], z3.Implies(z3.And(q.z >= 0, q.z < aspoly(n).z, selj),
                                       z3.And(posn(qn).p.z >= 0, posn(qn).p.z < aspoly(cnt).z,
                                              ind(posn(qn)).p.z == q.z))))
    q2 = T.sym(T.fresh_name('q'), True)
    c.axiom(z3.ForAll([q.z, q2.z], z3.Implies(
        z3.And(q.z >= 0, q.z < q2.z, q2.z < aspoly(cnt).z),
        ind(qn).p.z < ind(Num(q2, 'int')).p.z)))
    c.axiom(z3.And(aspoly(cnt).z >= 0, aspoly(cnt).z <= aspoly(n).z))
    ds = _factors(n)
    if ds is not None:
        # the same fact on the two indices of a flattened map
        c.axiom(forall_idx(ds, lambda i, j: bor(bnot(mf(i * ds[1] + j)), cnt > 0)))
    r.maskof = (r._fn, m, posn)
    if not c.kdepth and not c.in_scope and not c.local:
        keep = Arr(r.shape_, r._fn, 'int')
        keep.maskof = r.maskof
        c.nz_cache[1][cl] = c.nz_cache[1][cl2] = keep
    return (r,)


def _nonzero_nd(a):
    """positions of the true entries of a map, one index list per axis, in C order"""
    if a.ndim == 0:
        raise ValueError('Calling nonzero on 0d arrays is not allowed')
    c = ctx()
    m = ew1(a, _tb, dt='bool')
    sh = m.shape_
    nd = len(sh)
    if all(isinstance(d, int) for d in sh) and int(_rnp.prod(sh)) <= 12:
        out = [ix for ix in _rnp.ndindex(*sh) if bool(m.fn(*ix))]
        return tuple(A.from_nd(_rnp.array([ix[d] for ix in out], dtype=int), 'int') for d in range(nd))
    cl = arr_class(m)
    if not hasattr(c, 'nz_cache') or c.nz_cache[0] is not c.arr_classes:
        c.nz_cache = (c.arr_classes, {})
    old = c.nz_cache[1].get(cl)
    if old is not None:
        out = tuple(Arr(x.shape_, x._fn, 'int') for x in old)
        out[0].posnd = old[0].posnd
        return out
    cnt = count_true(m)
    tag = T.fresh_name('nz')
    mf = m.snap()

    def mk(d):
        nm = tag + '.%d' % d

        def indp(p):
            a_ = T.poly_single_atom(p)
            if a_ is not None and a_.kind == 'app' and a_.args[0] == tag + '.pos':
                return a_.args[1][d]
            return T.app(nm, [p], True, sig=(True,))
        T._SPECIAL_APP[nm] = indp
        return lambda i: mknum(indp(aspoly(i)), 'int')
    ind = [mk(d) for d in range(nd)]

    def posn(*j):
        return mknum(T.app(tag + '.pos', [aspoly(x) for x in j], True, sig=(True,) * nd), 'int')
    q = Num(T.sym(T.fresh_name('q'), True), 'int')
    js = [Num(T.sym(T.fresh_name('q'), True), 'int') for _ in range(nd)]
    q2 = Num(T.sym(T.fresh_name('q'), True), 'int')
    c.nofork += 1
    try:
        at = [f(q) for f in ind]
        sel = C.zb(mf(*at))
        selj = C.zb(mf(*js))
        zb = lambda x: C.zb(x)
        bound = [zb(v >= 0) for v in at] + [zb(v < n) for v, n in zip(at, sh)]
        c.axiom(z3.ForAll([q.p.z], z3.Implies(z3.And(q.p.z >= 0, q.p.z < aspoly(cnt).z),
                                              z3.And(bound + [sel, posn(*at).p.z == q.p.z]))))
        jb = [zb(v >= 0) for v in js] + [zb(v < n) for v, n in zip(js, sh)]
        pj = posn(*js)
        c.axiom(z3.ForAll([j.p.z for j in js], z3.Implies(
            z3.And(jb + [selj]),
            z3.And([pj.p.z >= 0, pj.p.z < aspoly(cnt).z] + [aspoly(f(pj)).z == j.p.z for f, j in zip(ind, js)]))))
        at2 = [f(q2) for f in ind]
        less, eqs = [], []
        for u, v in zip(at, at2):
            less.append(z3.And(eqs + [aspoly(u).z < aspoly(v).z]))
            eqs = eqs + [aspoly(u).z == aspoly(v).z]
        c.axiom(z3.ForAll([q.p.z, q2.p.z], z3.Implies(
            z3.And(q.p.z >= 0, q.p.z < q2.p.z, q2.p.z < aspoly(cnt).z), z3.Or(less))))
        c.axiom(aspoly(cnt).z >= 0)
    finally:
        c.nofork -= 1
    out = tuple(Arr((cnt,), (lambda i, f=f: f(i)), 'int') for f in ind)
    out[0].posnd = posn
    if not c.kdepth and not c.in_scope and not c.local:
        keep = tuple(Arr(x.shape_, x._fn, 'int') for x in out)
        keep[0].posnd = posn
        c.nz_cache[1][cl] = c.nz_cache[1][arr_class(m)] = keep
    return out


# ------------------------------------------------------------ index lists as sets
def setof(a):
    """(mask, distinct) when a 1-D index list is known to enumerate the true entries of a mask, else None"""
    if not isinstance(a, Arr) or a.base is not None:
        return None
    mk = getattr(a, 'maskof', None)
    if mk is not None and mk[0] is a._fn:
        return mk[1], True
    so = getattr(a, 'setof_', None)
    if so is not None and so[0] is a._fn:
        return so[1], so[2]
    return None


def _in_set(m, x):
    """x is the index of a true entry of mask m"""
    n, mf = m.shape_[0], m.snap()
    if tyof(x) != 'int':
        return None
    lo, hi = (x >= 0), (x < n)
    if lo is False or hi is False:
        return False
    return band(lo, hi, mf(x))


def _short(a):
    """the elements of a short 1-D list of integers"""
    if a.ndim == 1 and isinstance(a.shape_[0], int) and a.shape_[0] <= 8 and a.dt == 'int':
        f = a.snap()
        return [f(i) for i in range(a.shape_[0])]
    return None


def _join_sets(xs):
    """the set a concatenation of index lists enumerates: (mask, distinct) or None"""
    m, distinct = None, True
    for x in xs:
        so = setof(x)
        if so is not None:
            m, distinct = so
            break
    else:
        return None
    first = x
    c = ctx()
    n = m.shape_[0]
    for x in xs:
        if x is first:
            continue
        so = setof(x)
        el = None if so is not None else _short(x)
        if so is None and el is None:
            return None
        m0 = m.snap()
        if so is not None:
            if not dim_same(so[0].shape_[0], n):
                return None
            distinct = False
            m1 = so[0].snap()
            m = Arr((n,), lambda i, m0=m0, m1=m1: bor(m0(i), m1(i)), 'bool')
            continue
        for t in el:
            r = band(t >= 0, t < n)
            if r is False or isinstance(r, SBool) and not (c.proves0(r.z) or c.proves(r.z, 1000)):
                return None
            q = _in_set(m, t)
            if distinct and not (q is False or isinstance(q, SBool) and c.proves0(z3.Not(q.z))):
                distinct = False
            m0 = m.snap()
            m = Arr((n,), lambda i, m0=m0, t=t: bor(m0(i), i == t), 'bool')
    return m, distinct




# -------------------------------------------------------------- linear algebra
def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('batched matmul')
    ka = a.shape_[-1]
    kb = b.shape_[0]
    if not dim_eq(ka, kb):
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension')
    f, g = a.snap(), b.snap()
    dt = tojoin(a.dt, b.dt)
    if a.ndim == 1 and b.ndim == 1:
        return symsum(ka, lambda k: f(k) * g(k))
    if a.ndim == 1:
        return Arr((b.shape_[1],), lambda j: symsum(ka, lambda k: f(k) * g(k, j)), dt)
    if b.ndim == 1:
        return Arr((a.shape_[0],), lambda i: symsum(ka, lambda k: f(i, k) * g(k)), dt)
    return Arr((a.shape_[0], b.shape_[1]),
               lambda i, j: symsum(ka, lambda k: f(i, k) * g(k, j)), dt)


def dot(a, b):
    if is_scalar(a) or is_scalar(b):
        return a * b
    return matmul(a, b)


def multi_dot(arrays):
    r = asarr(arrays[0])
    for a in arrays[1:]:
        r = matmul(r, a)
    return r


def solve(M, b):
    M, b = asarr(M), asarr(b)
    if M.ndim != 2 or not dim_eq(M.shape_[0], M.shape_[1]):
        raise ValueError('Last 2 dimensions of the array must be square')
    if not dim_eq(M.shape_[0], b.shape_[0]):
        raise ValueError('solve: mismatch in core dimension')
    return opaque('linalg.solve', [M, b], (), b.shape_, tojoin(M.dt, b.dt, 'real'))


def pinv(M):
    M = asarr(M)
    return opaque('linalg.pinv', [M], (), (M.shape_[1], M.shape_[0]), tojoin(M.dt, 'real'))


def norm(a, axis=None, ord=None):
    a = asarr(a)
    if ord is not None:
        raise Unsupported('norm ord')
    s = np_sum(ew1(a, lambda v: C.ascplx(v).re * C.ascplx(v).re + C.ascplx(v).im * C.ascplx(v).im
                   if isinstance(v, (Cplx, complex)) else v * v, dt='real'), axis)
    return np_sqrt(s)


# ------------------------------------------------------------------------ fft
def _fft(name, inverse, a, **k):
    k = {q: v for q, v in k.items() if v is not None}
    a = asarr(a)
    c = ctx()
    if not hasattr(c, 'fft_results') or c.fft_results[0] is not c.arr_classes:
        c.fft_results = (c.arr_classes, [])
    src = Arr(a.shape_, a.snap(), a.dt)
    for nm, par, x, res in c.fft_results[1]:
        if nm == inverse and par == repr(k) and x.ndim == a.ndim and arr_equal(res, src, 1500):
            return Arr(x.shape_, lambda *i: C.ascplx(x.fn(*i)), 'complex')
    r = opaque(name, [src], tuple(sorted((q, repr(v)) for q, v in k.items())), a.shape_, 'complex')
    c.fft_results[1].append((name, repr(k), src, Arr(r.shape_, r.snap(), 'complex')))
    return r


def fft2(a, **k):
    return _fft('fft2', 'ifft2', a, **k)


def ifft2(a, **k):
    return _fft('ifft2', 'fft2', a, **k)


def _only2d(f):
    def g(a, **k):
        if asarr(a).ndim != 2:
            raise Unsupported('n-dimensional FFT')
        return f(a, **k)
    return g


def fftfreq(n, d=1.0):
    """numpy: [0, 1, ..., ceil(n/2)-1, -floor(n/2), ..., -1] / (n d)"""
    half = (n - 1) // 2 + 1
    return Arr((n,), lambda i: vite(_cb(i < half), i, i - n) / (n * d), 'real')


# -------------------------------------------------------------- elementwise
def _u1(f, dt=None, name=None):
    def g(x, *a, **k):
        if a or (k and set(k) - {'dtype'}):
            if a and isinstance(a[0], Arr):
                raise Unsupported('ufunc out=')
        if isinstance(x, Compressed):
            return x._map(f, dt=(dt(x.dt) if callable(dt) else dt) or x.dt)
        if is_scalar(x):
            return f(x)
        x = asarr(x)
        r = ew1(x, f, dt=(dt(x.dt) if callable(dt) else dt))
        return unwrap0(r)
    return g


def _keepc(d):
    return 'complex' if d == 'complex' else 'real'


np_sqrt = _u1(C.nsqrt, _keepc)
np_exp = _u1(C.nexp, _keepc)
np_cos = _u1(C.ncos, 'real')
np_sin = _u1(C.nsin, 'real')
np_abs = _u1(C.nabs, lambda d: 'real' if d == 'complex' else d)
np_floor = _u1(C.nfloor, 'real')
np_ceil = _u1(C.nceil, 'real')
np_fix = _u1(C.nfix, 'real')
np_log10 = _u1(C.nlog10, 'real')
np_log = _u1(C.nlog, 'real')
np_angle = _u1(C.nangle, 'real')


def np_round(x, decimals=0, **k):
    if decimals != 0:
        raise Unsupported('round decimals')
    return _u1(C.nround, lambda d: d)(x)


def _real(x):
    if is_scalar(x):
        return C.ascplx(x).re if isinstance(x, (Cplx, complex)) else x
    if isinstance(x, Compressed):
        return x.real
    return asarr(x).real


def _imag(x):
    if is_scalar(x):
        return C.ascplx(x).im
    if isinstance(x, Compressed):
        return x.imag
    return asarr(x).imag


def _conj(x):
    if is_scalar(x):
        return C.ascplx(x).conj() if isinstance(x, (Cplx, complex)) else x
    if isinstance(x, Compressed):
        return x.conj()
    return asarr(x).conj().copy()


def _u2(f, dt=None):
    def g(a, b, **k):
        if isinstance(a, Compressed) or isinstance(b, Compressed):
            if isinstance(a, Compressed):
                return a._map(f, b, dt)
            return b._map(lambda q, p: f(p, q), a, dt)
        if is_scalar(a) and is_scalar(b):
            return f(a, b)
        return unwrap0(ew2(a, b, f, dt=dt))
    return g


def _lb(v):
    return v if C._isb(v) else _tb(v)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return _u2(lambda x, y: C.nabs(x - y) <= atol + rtol * C.nabs(y), 'bool')(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return np_all(isclose(a, b, rtol, atol))


def isscalar(x):
    if isinstance(x, (Num, SBool, Cplx)):
        return True
    if isinstance(x, (Arr, Compressed)):
        return False
    return _rnp.isscalar(x)


def ndim(x):
    if is_scalar(x):
        return 0
    return asarr(x).ndim


def shape(x):
    return asarr(x).shape


def size(x, axis=None):
    if axis is not None:
        return asarr(x).shape[axis]
    if is_scalar(x):
        return 1
    if isinstance(x, Compressed):
        return x.size
    return asarr(x).size


def isreal(x):
    return _u1(lambda v: (C.ascplx(v).im == 0) if isinstance(v, (Cplx, complex)) else True, 'bool')(x)


def iscomplex(x):
    return _u1(lambda v: bnot(C.ascplx(v).im == 0) if isinstance(v, (Cplx, complex)) else False, 'bool')(x)


def isrealobj(x):
    return not iscomplexobj(x)


def iscomplexobj(x):
    if is_scalar(x):
        return isinstance(x, (Cplx, complex, _rnp.complexfloating))
    if isinstance(x, _rnp.ndarray):
        return _rnp.iscomplexobj(x)
    return asarr(x).dt == 'complex'


def _concrete1(a):
    """concrete values of a small 1-D array, or None"""
    n = a.shape_[0]
    if not isinstance(n, int) or n > 64:
        return None
    f = a.snap()
    v = [f(i) for i in range(n)]
    return v if all(isinstance(x, (int, float)) for x in v) else None


def _fresh_axioms(key, fn):
    """state the axioms of an opaque operation once per path and operand class"""
    c = ctx()
    done = c.__dict__.setdefault('op_axioms', (None, set()))
    if done[0] is not c.arr_classes:
        done = c.op_axioms = (c.arr_classes, set())
    if key in done[1]:
        return
    done[1].add(key)
    fn(c)


def argsort(a, axis=-1, kind=None):
    """contract: a permutation of the indices that makes the values non-decreasing"""
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    v = _concrete1(a)
    if v is not None:
        return asarr(_rnp.argsort(v, kind='stable'))
    n = a.shape_[0]
    P = opaque('argsort', [a], (), (n,), 'int')
    f, g = a.snap(), P.snap()

    def ax(c):
        c.axiom(forall_idx((n,), lambda i: band(g(i) >= 0, g(i) < n)))
        c.axiom(forall_idx((n, n), lambda i, j: bor(bnot(i < j), bnot(g(i) == g(j)))))
        c.axiom(forall_idx((n, n), lambda i, j: bor(bnot(i < j), f(g(i)) <= f(g(j)))))
    _fresh_axioms(('argsort', arr_class(a)), ax)
    return P


def np_sort(a, axis=-1, kind=None):
    a = asarr(a)
    so = setof(a)
    if so is not None and so[1]:
        return nonzero(so[0])[0]
    return a[argsort(a)]


def diff(a, n=1, axis=-1):
    a = asarr(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported('diff of a matrix')
    f = a.snap()
    return Arr((C.nmax(a.shape_[0] - 1, 0),), lambda i: f(i + 1) - f(i), a.dt)


def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None):
    """contract: the distinct values in increasing order, with the index of the
    first occurrence of each and the position of every element's value"""
    a = asarr(x)
    a = flatten(a) if a.ndim != 1 else a
    if return_counts or axis is not None:
        raise Unsupported('unique options')
    so = setof(a)
    if so is not None and not return_index and not return_inverse:
        return nonzero(so[0])[0]
    v = _concrete1(a)
    if v is not None:
        r = _rnp.unique(_rnp.array(v), return_index=return_index, return_inverse=return_inverse)
        return tuple(asarr(q) for q in r) if isinstance(r, tuple) else asarr(r)
    n = a.shape_[0]
    L = opaque_scalar('unique.len', [a], (), 'int')
    U = opaque('unique.val', [a], (), (L,), a.dt if a.dt in ('int', 'real') else 'real')
    I = opaque('unique.idx', [a], (), (L,), 'int')
    V = opaque('unique.inv', [a], (), (n,), 'int')
    f, u, ix, iv = a.snap(), U.snap(), I.snap(), V.snap()

    def ax(c):
        c.axiom(C.zb(band(L >= 0, L <= n, bor(bnot(n > 0), L > 0))))
        c.axiom(forall_idx((L, L), lambda i, j: bor(bnot(i < j), u(i) < u(j))))
        c.axiom(forall_idx((L,), lambda i: band(ix(i) >= 0, ix(i) < n, f(ix(i)) == u(i), iv(ix(i)) == i)))
        c.axiom(forall_idx((n,), lambda i: band(iv(i) >= 0, iv(i) < L, u(iv(i)) == f(i), ix(iv(i)) <= i)))
    _fresh_axioms(('unique', arr_class(a)), ax)
    r = [U]
    if return_index:
        r.append(I)
    if return_inverse:
        r.append(V)
    return r[0] if len(r) == 1 else tuple(r)


def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    n = x.shape_[0]
    w = None if weights is None else asarr(weights).snap()
    f = x.snap()
    m = np_max(x) + 1
    if minlength:
        m = C.nmax(m, minlength)
    return Arr((m,), lambda k: symsum(n, lambda j: vite(f(j) == k, 1 if w is None else w(j), 0)),
               'int' if w is None else 'real')


def isfinite(x):
    return _u1(lambda v: True, 'bool')(x)


def isnan(x):
    return _u1(lambda v: False, 'bool')(x)


def nan_to_num(x, **k):
    return array(x)


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a.shape_, b.shape_):
        if not dim_eq(p, q):
            return False
    return np_all(a == b)


def clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = NP.maximum(r, lo)
    if hi is not None:
        r = NP.minimum(r, hi)
    return r


def interp(x, xp, fp, **k):
    xp, fp = asarr(xp), asarr(fp)
    if is_scalar(x):
        return opaque_scalar('interp', [xp, fp], tuple(sorted(k.items())), 'real', [x])
    x = asarr(x)
    f = x.snap()
    return Arr(x.shape_, lambda *i: opaque_scalar('interp', [xp, fp], tuple(sorted(k.items())), 'real', [f(*i)]), 'real')


def hypot(a, b):
    return _u2(lambda x, y: C.nsqrt(x * x + y * y), 'real')(a, b)


def cumsum(a, axis=None):
    a = asarr(a)
    if axis is not None and a.ndim != 1:
        raise Unsupported('cumsum axis')
    a = flatten(a)
    f = a.snap()
    return Arr(a.shape_, lambda i: symsum(i + 1, f), a.dt)


def kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        f, g = a.snap(), b.snap()
        n = b.shape_[0]
        return Arr((a.shape_[0] * n,), lambda i: f(i // n) * g(i % n), tojoin(a.dt, b.dt))
    if a.ndim == 2 and b.ndim == 2:
        f, g = a.snap(), b.snap()
        p, q = b.shape_
        return Arr((a.shape_[0] * p, a.shape_[1] * q),
                   lambda i, j: f(i // p, j // q) * g(i % p, j % q), tojoin(a.dt, b.dt))
    raise Unsupported('kron')


def union1d(a, b):
    return unique(concatenate((flatten(asarr(a)), flatten(asarr(b)))))


def isin(a, b, **k):
    a, b = asarr(a), asarr(b)
    f, g = a.snap(), flatten(b).snap()
    n = b.size
    so = setof(b)
    def h(*i):
        x = f(*i)
        if so is not None and tyof(x) == 'int':
            return _in_set(so[0], x)
        if isinstance(n, int):
            return bor(*[x == g(t) for t in range(n)])
        return C.mkbool(exists_idx((n,), lambda t: x == g(t)))
    r = Arr(a.shape_, h, 'bool')
    return unwrap0(r)


def gcd_unsupported(*a, **k):
    raise Unsupported('numpy primitive')


class _NS(object):
    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__dict__['_name'] = name

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('numpy primitive %s.%s has no contract' % (self._name, k))


def _dot_w(a, b):
    return dot(a, b)


def _max2(a, b):
    return C.nmax(a, b)


class _NPShim(_NS):
    @property
    def pi(self):
        return C.pi_num()


NP = _NPShim('numpy', dict(
    ndarray=Arr, newaxis=None, inf=float('inf'), nan=float('nan'), e=_rnp.e,
    integer=_rnp.integer, floating=_rnp.floating, number=_rnp.number,
    generic=_rnp.generic, bool_=_rnp.bool_, complexfloating=_rnp.complexfloating,
    int64=_rnp.int64, int32=_rnp.int32, int8=_rnp.int8, uint8=_rnp.uint8,
    double=lambda x: x * 1.0 if isinstance(x, Num) else (x.astype(float) if isinstance(x, Arr) else _rnp.float64(x)),
    float64=_rnp.float64, float32=_rnp.float64, complex128=_rnp.complex128,
    complex64=_rnp.complex128, intp=_rnp.int64,
    zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like,
    ones_like=ones_like, empty_like=empty_like, full_like=full_like,
    array=array, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray,
    arange=arange, linspace=linspace, eye=eye, identity=eye,
    atleast_1d=atleast_1d, atleast_2d=atleast_2d, meshgrid=meshgrid,
    outer=outer, diag=diag, concatenate=concatenate, hstack=hstack,
    vstack=vstack, stack=stack, append=append,
    sum=np_sum, mean=np_mean, any=np_any, all=np_all, max=np_max, min=np_min,
    amax=np_max, amin=np_min, prod=np_prod,
    argmin=lambda a, axis=None: _arg(a, False, axis), argmax=lambda a, axis=None: _arg(a, True, axis),
    rot90=rot90, flip=flip, flipud=lambda m: flip(m, 0), fliplr=lambda m: flip(m, 1),
    roll=roll, squeeze=squeeze, ix_=ix_, repeat=repeat, tile=tile, where=where,
    nonzero=nonzero, flatnonzero=lambda a: nonzero(flatten(asarr(a)))[0],
    matmul=matmul, dot=dot, kron=kron,
    sqrt=np_sqrt, exp=np_exp, cos=np_cos, sin=np_sin, abs=np_abs,
    absolute=np_abs, fabs=np_abs, floor=np_floor, ceil=np_ceil, fix=np_fix, trunc=np_fix,
    round=np_round, around=np_round, rint=np_round, log10=np_log10, log=np_log, angle=np_angle,
    arctan2=_u2(C.narctan2, 'real'), hypot=hypot,
    real=_real, imag=_imag, conj=_conj, conjugate=_conj,
    add=_u2(lambda a, b: a + b), subtract=_u2(lambda a, b: a - b),
    multiply=_u2(A.smul), divide=_u2(A.sdiv, 'div'), true_divide=_u2(A.sdiv, 'div'),
    mod=_u2(lambda a, b: a % b), remainder=_u2(lambda a, b: a % b),
    floor_divide=_u2(lambda a, b: a // b), power=_u2(C.npow),
    square=_u1(lambda v: v * v, lambda d: d), negative=_u1(lambda v: -v, lambda d: d),
    sign=_u1(lambda v: vite(v > 0, 1, vite(v < 0, -1, 0)) if isinstance(v, Num) else int(_rnp.sign(v)), lambda d: d),
    maximum=_u2(C.nmax), minimum=_u2(C.nmin), clip=clip,
    logical_and=_u2(lambda a, b: band(_lb(a), _lb(b)), 'bool'),
    logical_or=_u2(lambda a, b: bor(_lb(a), _lb(b)), 'bool'),
    logical_not=_u1(lambda a: bnot(_lb(a)), 'bool'),
    logical_xor=_u2(lambda a, b: bnot(_lb(a) == _lb(b)), 'bool'),
    equal=_u2(lambda a, b: a == b, 'bool'), not_equal=_u2(lambda a, b: bnot(a == b), 'bool'),
    less=_u2(lambda a, b: a < b, 'bool'), less_equal=_u2(lambda a, b: a <= b, 'bool'),
    greater=_u2(lambda a, b: a > b, 'bool'), greater_equal=_u2(lambda a, b: a >= b, 'bool'),
    isclose=isclose, allclose=allclose, isscalar=isscalar, ndim=ndim, shape=shape,
    size=size, isreal=isreal, iscomplex=iscomplex, isrealobj=isrealobj,
    iscomplexobj=iscomplexobj, unique=unique, isfinite=isfinite, isnan=isnan,
    nan_to_num=nan_to_num, array_equal=array_equal, interp=interp,
    transpose=lambda a, *x: transpose(asarr(a), *x), moveaxis=moveaxis, swapaxes=swapaxes,
    reshape=lambda a, s, **k: reshape(asarr(a), s if isinstance(s, (tuple, list)) else (s,), **k),
    unravel_index=unravel_index,
    ravel=lambda a, **k: asarr(a).ravel(**k), copy=lambda a: array(a),
    radians=_u1(lambda v: v * (C.pi_num() / 180), 'real'),
    deg2rad=_u1(lambda v: v * (C.pi_num() / 180), 'real'),
    degrees=_u1(lambda v: v * (180 / C.pi_num()), 'real'),
    rad2deg=_u1(lambda v: v * (180 / C.pi_num()), 'real'),
    tan=_u1(lambda v: C.nsin(v) / C.ncos(v), 'real'),
    sinc=_u1(lambda v: mknum(T.app('sinc', [aspoly(v)]), 'real'), 'real'),
    count_nonzero=lambda a: count_true(ew1(asarr(a), _tb, dt='bool')),
    argsort=argsort, sort=np_sort, diff=diff, bincount=bincount, cumsum=cumsum, isin=isin, in1d=isin, union1d=union1d,
    dtype=_rnp.dtype, finfo=_rnp.finfo, set_printoptions=lambda *a, **k: None,
    errstate=_rnp.errstate, testing=None,
    linalg=_NS('numpy.linalg', dict(solve=solve, pinv=pinv, norm=norm, multi_dot=multi_dot)),
    fft=_NS('numpy.fft', dict(fft2=fft2, ifft2=ifft2, fftn=_only2d(fft2), ifftn=_only2d(ifft2),
                              fftshift=fftshift, ifftshift=ifftshift, fftfreq=fftfreq)),
    random=_NS('numpy.random', {}),
))


def _tracked(name, f):
    def w(*a, **k):
        C.CTX.shims.add(name)
        return f(*a, **k)
    w.__name__ = name
    w.__wrapped__ = f
    return w


for _ns, _pre in ((NP, 'numpy'), (NP.linalg, 'numpy.linalg'), (NP.fft, 'numpy.fft')):
    for _k, _v in list(_ns.__dict__.items()):
        if callable(_v) and not isinstance(_v, (type, _NS)) and not _k.startswith('_'):
            _ns.__dict__[_k] = _tracked(_pre + '.' + _k, _v)

SCIPY_FFT = _NS('scipy.fft', dict(NP.fft.__dict__))
