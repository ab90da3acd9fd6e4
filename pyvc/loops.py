"""The loop rule: a for loop over a sequence of symbolic length n.

The body is explored once for an arbitrary iteration k (0 <= k < n) from a
havocked state H (every location the body writes is replaced by a fresh
unknown).  If each written location ends, for every path of the body, as
  * H + e(k)            (accumulation, e free of H)      -> init + sum_{k<n} e(k)
  * e(k), guarded by a condition that pins k             -> map write
  * e(k), unconditionally                                -> e(n-1)
then that closed form is the strongest inductive invariant of the loop and is
used after it.  Anything else is Unsupported (undecided), never assumed.
"""
import itertools
import z3
from . import core as C
from . import terms as T
from . import arr as A
from . import symnp
from .core import Num, SBool, Cplx, Unsupported, is_scalar, tyof, aspoly, mknum
from .arr import Arr


class Poison(object):
    def __init__(self, why):
        self.__dict__['why'] = why

    def _no(self, *a, **k):
        raise Unsupported(self.why)
    __getattr__ = __call__ = __getitem__ = __add__ = __radd__ = __iter__ = _no
    __bool__ = __len__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _no
    __lt__ = __gt__ = __le__ = __ge__ = _no

    def __deepcopy__(self, memo):
        return self


class Journal(object):
    def __init__(self, parent, start_oid):
        self.parent = parent
        self.start = start_oid
        self.arrs = {}       # oid -> (arr, old fn, old cache)
        self.attrs = {}      # (id obj, name) -> (obj, name, had, old)

    def arr(self, a):
        if a.oid < self.start and a.oid not in self.arrs:
            self.arrs[a.oid] = (a, a._fn, a.cache)
        if self.parent is not None:
            self.parent.arr(a)

    def attr(self, o, name, had, old):
        k = (id(o), name)
        if o.__dict__['_oid'] < self.start and k not in self.attrs:
            self.attrs[k] = (o, name, had, old)
        if self.parent is not None:
            self.parent.attr(o, name, had, old)

    def lst(self, l):
        if l.oid < self.start:
            raise Unsupported('list mutated in a loop of symbolic length')
        if self.parent is not None:
            self.parent.lst(l)

    def rollback(self):
        for a, f, c in self.arrs.values():
            a._fn = f
            a.cache = {}
        for o, name, had, old in self.attrs.values():
            if had:
                o.__dict__[name] = old
            else:
                o.__dict__.pop(name, None)


class SObj(object):
    """attribute record used for mp / ev / cvar-like structures"""

    def __init__(self, **kw):
        self.__dict__['_oid'] = next(A._OID)
        for k, v in kw.items():
            self.__dict__[k] = v

    def __setattr__(self, k, v):
        if k in self.__dict__ and self.__dict__[k] is v:
            return              # x.a += array: the array changes, the binding does not
        j = C.CTX.journal if C.CTX is not None else None
        if j is not None:
            j.attr(self, k, k in self.__dict__, self.__dict__.get(k))
        self.__dict__[k] = v

    def __delattr__(self, k):
        if C.CTX is not None and C.CTX.journal is not None:
            raise Unsupported('del attribute inside symbolic loop')
        del self.__dict__[k]

    def __getitem__(self, k):
        return getattr(self, k)

    def __setitem__(self, k, v):
        setattr(self, k, v)

    def __deepcopy__(self, memo):
        import copy
        r = type(self)()
        memo[id(self)] = r
        for k, v in self.__dict__.items():
            if k != '_oid':
                r.__dict__[k] = copy.deepcopy(v, memo)
        return r

    def __copy__(self):
        r = type(self)()
        for k, v in self.__dict__.items():
            if k != '_oid':
                r.__dict__[k] = v
        return r

    def attrs(self):
        return {k: v for k, v in self.__dict__.items() if k != '_oid'}


def _havoc(v, name):
    """fresh unknown of the same kind; returns (value, hsym) or None"""
    h = T.sym(T.fresh_name('H_' + name), False)
    if isinstance(v, bool) or isinstance(v, SBool):
        return None
    if isinstance(v, (Num, int, float)):
        ty = tyof(v)
        isint = ty == 'int'
        return mknum(T.app('hv', [h], isint, sig=(False,)), ty), h
    if isinstance(v, (Cplx, complex)):
        return C.mkc(mknum(T.app('hvr', [h]), 'real'), mknum(T.app('hvi', [h]), 'real')), h
    if isinstance(v, Arr):
        dt = v.dt

        def e(tag, isint=False):
            def f(*i):
                return mknum(T.app('hva' + tag, [h] + [aspoly(x) for x in i], isint,
                                   sig=(False,) + (True,) * len(i)), 'int' if isint else 'real')
            return f
        if dt == 'complex':
            fr, fi = e('r'), e('i')
            fn = lambda *i: C.mkc(fr(*i), fi(*i))
        elif dt == 'bool':
            fb = e('b', True)
            fn = lambda *i: fb(*i) > 0
        else:
            fn = e('', dt == 'int')
        return Arr(v.shape_, fn, dt), h
    return None


def run_loop(it, body, get, set_, ident):
    from .loader import b_len, seq_elem
    c = C.CTX
    n = b_len(it)
    if n <= 0:
        return
    init_locals = get()
    mod_locals = set()
    mod_arrs = {}
    mod_attrs = {}
    k = Num(T.sym(T.fresh_name('k'), True), 'int')
    kid = T.poly_sym_atom(k.p).id
    iv = {}
    for rnd in range(8):
        res = _explore(c, body, get, set_, k, n, init_locals, mod_locals, mod_arrs, mod_attrs, iv)
        paths, nl, na, nt, hv = res
        grew = False
        for v, st in _induction(paths, hv, init_locals, mod_locals, kid).items():
            if v not in iv:
                iv[v] = st
                grew = True
        if not nl <= mod_locals:
            mod_locals |= nl
            grew = True
        for o, a in na.items():
            if o not in mod_arrs:
                mod_arrs[o] = a
                grew = True
        for q, a in nt.items():
            if q not in mod_attrs:
                mod_attrs[q] = a
                grew = True
        if not grew:
            break
    else:
        raise Unsupported('loop write set did not stabilise')
    exc = [p for p in paths if p['exc'] is not None]
    if exc:
        hs = frozenset(T.poly_sym_atom(h).id for h in hv['hs'])
        for p in exc:
            for z in p['pc']:
                if T.zfree(z) & hs:
                    raise Unsupported('exception in loop body depends on loop state')
        zc = z3.Or([z3.And(p['pc']) if p['pc'] else z3.BoolVal(True) for p in exc])
        rng = z3.And(k.p.z >= 0, k.p.z < aspoly(n).z)
        if c.choose(2) == 1:
            c.assume(z3.And(rng, zc))
            raise exc[0]['exc']
        c.assume(z3.ForAll([k.p.z], z3.Implies(rng, z3.Not(zc))))
        paths = [p for p in paths if p['exc'] is None]
    hsyms = frozenset(T.poly_sym_atom(h).id for h in hv['hs'])
    for x in [init_locals.get(v) for v in mod_locals] + [x for x in hv['init_attr'].values()]:
        while isinstance(x, Arr) and x.base is not None:
            x = x.base[0]
        if isinstance(x, Arr) and x.oid in mod_arrs:
            raise Unsupported('array both rebound and modified in place in a symbolic loop')
    # -------- close every written location
    newl = {}
    for v in mod_locals:
        if v in iv:
            newl[v] = init_locals[v] + n * iv[v]
            continue
        finals = [(p['pc'], p['locals'].get(v, _MISSING)) for p in paths]
        newl[v] = _close_al(finals, hv['locals'].get(v), init_locals.get(v, _MISSING),
                            k, kid, n, hsyms, v, mod_arrs)
    for oid, a in mod_arrs.items():
        finals = [(p['pc'], p['arrs'].get(oid)) for p in paths]
        hval = hv['arrs'][oid]
        finals = [(pc, f if f is not None else hval.snap()) for pc, f in finals]
        try:
            fn = _close_arr(finals, hval.snap(), hv['init_fn'][oid], a.shape_, a.dt, k, kid, n,
                            hsyms, 'array')
        except Unsupported as e:
            fn = _poison_fn(str(e))
        a._mutate(fn)
    for q, (o, name) in mod_attrs.items():
        finals = [(p['pc'], p['attrs'].get(q, hv['attrs'].get(q, _MISSING))) for p in paths]
        v = _close_al(finals, hv['attrs'].get(q), hv['init_attr'][q], k, kid, n, hsyms, name, mod_arrs)
        setattr(o, name, v)
    set_(newl)


_MISSING = object()


def _poison_fn(why):
    def fn(*idx):
        raise Unsupported(why)
    return fn


def _induction(paths, hv, init_locals, mod_locals, kid):
    """scalars that every iteration changes by the same loop-invariant step:
    their value at iteration k is init + k*step (base: k=0; step: just shown
    from an arbitrary entry value)"""
    r = {}
    hs = frozenset(T.poly_sym_atom(h).id for h in hv['hs'])
    live = [p for p in paths if p['exc'] is None]
    for v in mod_locals:
        h = hv['locals'].get(v)
        i = init_locals.get(v)
        if not live or not isinstance(h, Num) or i is None or not is_scalar(i) or isinstance(i, (Cplx, complex, SBool, bool)):
            continue
        st = None
        for p in live:
            x = p['locals'].get(v)
            if not isinstance(x, (Num, int, float)) or isinstance(x, bool):
                st = None
                break
            d = aspoly(x).add(aspoly(h), -1)
            if d.free & hs or kid in d.free or (st is not None and st[0].key != d.key) or not d.t:
                st = None
                break
            st = (d, tyof(x) == 'int')
        if st is not None:
            r[v] = mknum(st[0], 'int' if st[1] and tyof(i) == 'int' else 'real')
    return r


def _floor_sol(kfree, k, kid):
    """solve 0 <= a - W*k < W for k: k = a div W"""
    lows, ups = [], []
    for z in kfree:
        d = _ineq(z)
        if d is None:
            continue
        e, strict = d                 # e >= 0 or e > 0
        cf = T.ZERO
        okk = True
        for m, q in e.t.items():
            if any(a == kid for a, _ in m):
                if [x for x in m if x[0] == kid] != [(kid, 1)]:
                    okk = False
                cf = cf.add(T.Poly({tuple(x for x in m if x[0] != kid): q}))
            elif any(kid in T.atom_by_id(a).free for a, _ in m):
                okk = False
        if not okk or not cf.t:
            continue
        rest = e.add(cf.mul(k.p), -1)
        if kid in rest.free or not rest.isint or not cf.isint:
            continue
        if strict:
            rest = rest.add(T.Poly.const(-1))
        lows.append((rest, cf))
    for rest, cf in lows:
        W = cf.neg()                  # rest - W*k >= 0
        for r2, c2 in lows:
            # W - 1 - (rest - W*k) >= 0
            if c2.key == W.key and r2.key == W.add(T.Poly.const(-1)).add(rest, -1).key:
                if C.CTX.proves(W.z > 0, 500):
                    return aspoly(mknum(rest, 'int') // mknum(W, 'int'))
    return None


def _ineq(z):
    """(e, strict): z is e >= 0 (or e > 0)"""
    neg = False
    while z3.is_not(z):
        z = z.arg(0)
        neg = not neg
    info = C.CMP.get(z.get_id())
    if info is not None:
        op, a, b = info[:3]
    else:
        kd = z.decl().kind() if z3.is_app(z) else None
        op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}.get(kd)
        if op is None:
            return None
        a, b = T.from_z3(z.arg(0)), T.from_z3(z.arg(1))
        if a is None or b is None:
            return None
    if op not in ('<=', '<', '>=', '>'):
        return None
    if neg:
        op = {'<=': '>', '<': '>=', '>=': '<', '>': '<='}[op]
    if op in ('<=', '<'):
        a, b = b, a
    return a.add(b, -1), op in ('<', '>')


def _explore(c, body, get, set_, k, n, init_locals, mod_locals, mod_arrs, mod_attrs, iv={}):
    # ---- havoc
    hv = {'locals': {}, 'arrs': {}, 'attrs': {}, 'hs': [], 'init_fn': {}, 'init_attr': {}}
    start_oid = next(A._OID)
    parent = c.journal
    entry_locals = dict(init_locals)
    for v in mod_locals:
        if v in iv:
            # known induction variable
            entry_locals[v] = init_locals[v] + k * iv[v]
            hv['locals'][v] = entry_locals[v]
            continue
        if v in init_locals:
            h = _havoc(init_locals[v], v)
            if h is None:
                entry_locals[v] = Poison('loop-carried variable %s of unsupported kind' % v)
            else:
                entry_locals[v] = h[0]
                hv['locals'][v] = h[0]
                hv['hs'].append(h[1])
    j0 = Journal(parent, start_oid)      # havoc writes, undone at the end
    saved_arr = {}
    for oid, a in mod_arrs.items():
        hv['init_fn'][oid] = a._fn
        h = _havoc(a, 'arr')
        hv['arrs'][oid] = h[0]
        hv['hs'].append(h[1])
        saved_arr[oid] = (a, a._fn)
    saved_attr = {}
    for q, (o, name) in mod_attrs.items():
        had = name in o.__dict__
        old = o.__dict__.get(name, _MISSING)
        hv['init_attr'][q] = old
        saved_attr[q] = (o, name, had, old)
        h = _havoc(old, name) if old is not _MISSING else None
        if h is None:
            hv['attrs'][q] = Poison('loop-carried attribute %s of unsupported kind' % name)
        else:
            hv['attrs'][q] = h[0]
            hv['hs'].append(h[1])
    # ---- explore
    paths = []
    nl, na, nt = set(), {}, {}
    save = (c.trail, c.pos, c.todo, c.pc, dict(c.decided))
    c.local += 1
    todo = [[]]
    try:
        while todo:
            tr = todo.pop()
            if len(paths) > 64:
                raise Unsupported('too many paths in loop body')
            c.solver.push()
            c.trail, c.pos, c.todo = list(tr), 0, []
            c.pc = []
            c.decided = dict(save[4])
            nax = len(c.axioms)
            j = Journal(None, start_oid)
            c.journal = None
            for oid, (a, f) in saved_arr.items():
                a._fn = hv['arrs'][oid]._fn
                a.cache = {}
            for q, (o, name, had, old) in saved_attr.items():
                o.__dict__[name] = hv['attrs'][q]
            # every path starts from its own copy of the havocked arrays
            el = {}
            for v, x in entry_locals.items():
                el[v] = Arr(x.shape_, x._fn, x.dt) if x is hv['locals'].get(v) and isinstance(x, Arr) else x
            for q, (o, name, had, old) in saved_attr.items():
                x = o.__dict__[name]
                if isinstance(x, Arr):
                    o.__dict__[name] = Arr(x.shape_, x._fn, x.dt)
            set_(dict(el))
            c.journal = j
            exc = None
            ok = True
            try:
                c.add_pc((k >= 0).z)
                e = (k < n)
                if isinstance(e, SBool):
                    c.add_pc(e.z)
                body(k)
            except T.PathAbort:
                ok = False
            except Unsupported:
                raise
            except Exception as ex:          # raised by the code under proof
                if isinstance(ex, (NameError, AttributeError)) and 'Poison' in repr(ex):
                    raise
                exc = ex
            finally:
                c.journal = None
                newax = c.axioms[nax:]
                pc = c.pc[2:] if len(c.pc) >= 2 else []
                if not isinstance(n, int) and len(c.pc) < 2:
                    pc = []
                c.solver.pop()
                for ax in newax:
                    c.solver.add(ax)
                if ok:
                    locs = get()
                    for v, x in locs.items():
                        if v not in el or el[v] is not x:
                            nl.add(v)
                    for oid, (a, f, ch) in j.arrs.items():
                        na[oid] = a
                    for q, (o, name, had, old) in j.attrs.items():
                        nt[q] = (o, name)
                    paths.append({'pc': pc, 'locals': locs, 'exc': exc,
                                  'arrs': {oid: a._fn for oid, (a, f, ch) in j.arrs.items()},
                                  'attrs': {q: o.__dict__.get(name, _MISSING)
                                            for q, (o, name, had, old) in j.attrs.items()}})
                todo.extend(c.todo)
                j.rollback()
    finally:
        c.trail, c.pos, c.todo, c.pc = save[:4]
        c.decided = save[4]
        c.journal = parent
        c.local -= 1
        c.sum_classes = [e for e in c.sum_classes if e[2]]
        for oid, (a, f) in saved_arr.items():
            a._fn = f
            a.cache = {}
        for q, (o, name, had, old) in saved_attr.items():
            if had:
                o.__dict__[name] = old
            else:
                o.__dict__.pop(name, None)
        set_(dict(init_locals))
    if not paths:
        raise Unsupported('loop body has no feasible path')
    return paths, nl, na, nt, hv


def _pcz(pc):
    return C.mkbool(z3.And(pc) if len(pc) > 1 else (pc[0] if pc else z3.BoolVal(True)))


def _merge(finals):
    """ite over body paths (the path conditions partition the iteration)"""
    r = finals[-1][1]
    for pc, v in reversed(finals[:-1]):
        r = C.vite(_pcz(pc), v, r)
    return r


def _close_al(finals, hval, init, k, kid, n, hsyms, name, mod_arrs):
    """names that end up bound to an array that the loop modifies stay bound to it"""
    for _, v in finals:
        r = v
        while isinstance(r, Arr) and r.base is not None:
            r = r.base[0]
        if isinstance(r, Arr) and r.oid in mod_arrs:
            if all(w is r for _, w in finals):
                return r
            return Poison('%s is a view of an array modified in the loop' % name)
    return _close(finals, hval, init, k, kid, n, hsyms, name)


def _close(finals, hval, init, k, kid, n, hsyms, name):
    vals = [v for _, v in finals]
    if all(v is vals[0] for v in vals):
        if not isinstance(vals[0], (Num, SBool, Cplx, Arr)) and not is_scalar(vals[0]):
            if vals[0] is init:
                return init
            return _last_obj(vals[0], k, kid, n, hsyms, name)
    if all(isinstance(v, Arr) for v in vals):
        sh = vals[0].shape_
        for v in vals[1:]:
            if v.ndim != len(sh) or not all(A.dim_same(p, q) for p, q in zip(v.shape_, sh)):
                return Poison('variable %s changes shape inside a symbolic loop' % name)
        dt = C.tojoin(*[v.dt for v in vals])
        for d in sh:
            if isinstance(d, Num) and (kid in d.p.free or d.p.free & hsyms):
                return Poison('shape of %s depends on the iteration' % name)
        if isinstance(hval, Arr):
            if hval.ndim != len(sh) or not all(A.dim_same(p, q) for p, q in zip(hval.shape_, sh)):
                return Poison('variable %s changes shape inside a symbolic loop' % name)
            hf, inf = hval.snap(), init.snap()
        else:
            hf, inf = None, None
        fin = [(pc, v.snap()) for pc, v in finals]
        try:
            fn = _close_arr(fin, hf, inf, sh, dt, k, kid, n, hsyms, name)
        except Unsupported as e:
            return Poison(str(e))
        return Arr(sh, fn, dt)
    if any(not is_scalar(v) for v in vals):
        return Poison('variable %s after a symbolic loop' % name)
    try:
        v = _merge(finals)
        return _close_scalar(v, hval, init, k, kid, n, hsyms, name)
    except Unsupported as e:
        return Poison(str(e))


def _last_obj(v, k, kid, n, hsyms, name):
    return Poison('object variable %s after a symbolic loop' % name)


def _close_scalar(v, hval, init, k, kid, n, hsyms, name):
    if isinstance(v, (Cplx, complex)):
        v = C.ascplx(v)
        h = C.ascplx(hval) if hval is not None else None
        i = C.ascplx(init) if init is not _MISSING and init is not None and is_scalar(init) else None
        return C.mkc(_close_scalar(v.re, h.re if h else None, i.re if i else _MISSING, k, kid, n, hsyms, name),
                     _close_scalar(v.im, h.im if h else None, i.im if i else _MISSING, k, kid, n, hsyms, name))
    if isinstance(v, SBool):
        r = _close_scalar(v.num(), None, _MISSING, k, kid, n, hsyms, name)
        return C.mkbool((r > 0).z if isinstance(r > 0, SBool) else z3.BoolVal(bool(r > 0)))
    p = aspoly(v)
    hp = aspoly(hval) if hval is not None and is_scalar(hval) and not isinstance(hval, (Cplx, complex)) else None
    ip = aspoly(init) if init is not _MISSING and init is not None and is_scalar(init) else None
    r = _close_poly(p, hp, ip, k, kid, n, hsyms, (), name)
    ty = 'int' if tyof(v) in ('int', 'bool') and (ip is None or tyof(init) in ('int', 'bool')) else 'real'
    return mknum(r, ty)


def _close_arr(finals, hf, inf, shape, dt, k, kid, n, hsyms, name):
    try:
        return _close_arr0(finals, hf, inf, shape, dt, k, kid, n, hsyms, name, False)
    except Unsupported:
        # once more, with the conditions that the path decides resolved
        return _close_arr0(finals, hf, inf, shape, dt, k, kid, n, hsyms, name, True)


def _resolved(v, pc, conds, k, n):
    c = C.CTX
    if isinstance(v, (Cplx, complex)):
        v = C.ascplx(v)
        return C.mkc(_resolved(v.re, pc, conds, k, n), _resolved(v.im, pc, conds, k, n))
    if not isinstance(v, Num):
        return v
    p = v.p
    save = c.decided
    c.decided = {}
    c.solver.push()
    try:
        for z in pc:
            c.solver.add(z)
        for x in list(conds) + [k >= 0, k < n]:
            if isinstance(x, SBool):
                c.solver.add(x.z)
        for _ in range(40):
            hit = False
            for z in T.has_nested_ite(p, True, set()):
                kn = c.known(z)
                if kn is not None:
                    p = T.resolve_ite(p, z, kn)
                    hit = True
                    break
            if not hit:
                break
    finally:
        c.solver.pop()
        c.decided = save
    return mknum(p, v.ty)


def _close_arr0(finals, hf, inf, shape, dt, k, kid, n, hsyms, name, resolve):
    g, conds = A.generic_idx(shape, 'w')
    c = C.CTX
    c.nofork += 1
    try:
        vs = [(pc, A.castv(f(*g), dt)) for pc, f in finals]
        if resolve:
            vs = [(pc, _resolved(x, pc, conds, k, n)) for pc, x in vs]
        v = _merge(vs)
        h = A.castv(hf(*g), dt) if hf is not None else None
        i = A.castv(inf(*g), dt) if inf is not None else None
    finally:
        c.nofork -= 1
    gids = [(T.poly_sym_atom(x.p).id, x) for x in g if isinstance(x, Num)]

    def close1(v, h, i):
        p = aspoly(v.num() if isinstance(v, SBool) else v)
        hp = None if h is None else aspoly(h.num() if isinstance(h, SBool) else h)
        ip = None if i is None else aspoly(i.num() if isinstance(i, SBool) else i)
        return _close_poly(p, hp, ip, k, kid, n, hsyms, g, name)
    c.solver.push()
    for x in conds:
        if isinstance(x, SBool):
            c.solver.add(x.z)
    try:
        if dt == 'complex':
            parts = (close1(v.re, h.re if h is not None else None, i.re if i is not None else None),
                     close1(v.im, h.im if h is not None else None, i.im if i is not None else None))
        else:
            parts = (close1(v, h, i),)
    finally:
        c.solver.pop()
        # axioms created inside stay valid (definitional)
        for ax in c.axioms:
            pass

    def inst(p, idx):
        for (gid, x), y in zip(gids, [q for q, x0 in zip(idx, g) if isinstance(x0, Num)]):
            if gid in p.free:
                yp = aspoly(y)
                p = p.subst(gid, yp, x.p.z, yp.z)
        return p

    def fn(*idx):
        if dt == 'complex':
            return C.mkc(mknum(inst(parts[0], idx), 'real'), mknum(inst(parts[1], idx), 'real'))
        r = mknum(inst(parts[0], idx), 'int' if dt in ('int', 'bool') else 'real')
        if dt == 'bool':
            r = r > 0
        return r
    return fn


def _leaves(p, conds=()):
    if len(p.t) == 1:
        (m, cf), = p.t.items()
        if cf == 1 and len(m) == 1 and m[0][1] == 1:
            at = T.atom_by_id(m[0][0])
            if at.kind == 'ite':
                cz, a, b = at.args
                return _leaves(a, conds + (cz,)) + _leaves(b, conds + (z3.Not(cz),))
    return [(conds, p)]


def _close_poly(p, hp, ip, k, kid, n, hsyms, g, name):
    if not (p.free & hsyms) and kid not in p.free:
        return p
    if not (p.free & hsyms):
        # last iteration
        last = aspoly(n - 1)
        return p.subst(kid, last, k.p.z, last.z)
    if hp is None:
        raise Unsupported('loop variable %s: value carried from an unknown state' % name)
    if p.key == hp.key:
        return ip
    d = p.add(hp, -1)
    if not (d.free & hsyms):
        if ip is None:
            raise Unsupported('accumulation into undefined %s' % name)
        return ip.add(_sum_over(d, k, kid, n))
    ls = _leaves(p)
    acc = []
    wr = []
    for conds, q in ls:
        for z in conds:
            if T.zfree(z) & hsyms:
                raise Unsupported('loop %s: condition depends on loop state' % name)
        if q.key == hp.key:
            continue
        dq = q.add(hp, -1)
        if not (dq.free & hsyms):
            acc.append((conds, dq))
        elif not (q.free & hsyms):
            wr.append((conds, q))
        else:
            raise Unsupported('loop-carried dependence in %s' % name)
    if acc and wr:
        raise Unsupported('loop %s mixes accumulation and assignment' % name)
    if ip is None:
        raise Unsupported('conditional write into undefined %s' % name)
    if acc:
        t = T.ZERO
        for conds, dq in acc:
            t = t.add(T.ite(_andz(conds), dq, T.ZERO))
        return ip.add(_sum_over(t, k, kid, n))
    # map writes
    nz = aspoly(n)
    out = ip
    sols = []
    for conds, q in wr:
        cs = [x for z in conds for x in symnp._conjuncts(_norm(z))]
        kfree = [z for z in cs if kid in T.zfree(z)]
        sol = None
        for z in kfree:
            if not z3.is_eq(z):
                continue
            info = C.CMP.get(z.get_id())
            if info is not None and info[0] == '==':
                dd = info[1].add(info[2], -1)
            else:
                l, r = T.from_z3(z.arg(0)), T.from_z3(z.arg(1))
                if l is None or r is None:
                    continue
                dd = l.add(r, -1)
            lin = dd.t.get(((kid, 1),))
            if lin in (1, -1):
                rest = dd.add(k.p.scale(lin), -1)
                if kid not in rest.free and rest.isint:
                    sol = rest.scale(-1 / lin)
                    break
        if sol is None and kfree:
            sol = _floor_sol(kfree, k, kid)
        sols.append((conds, q, sol, kfree))
    for conds, q, sol, kfree in reversed(sols):
        if sol is not None:
            cz = z3.substitute(_andz(conds), (k.p.z, sol.z))
            val = q.subst(kid, sol, k.p.z, sol.z)
            cz = z3.And(cz, sol.z >= 0, sol.z < nz.z)
        elif not kfree:
            last = aspoly(n - 1)
            val = q.subst(kid, last, k.p.z, last.z)
            cz = _andz(conds)
        elif kid not in q.free:
            cz = z3.Exists([k.p.z], z3.And(_andz(conds), k.p.z >= 0, k.p.z < nz.z))
            val = q
        else:
            raise Unsupported('loop %s: write position not solvable: %s' % (name, str(conds)[:300]))
        out = T.ite(cz, val, out)
    ks = [s[2] for s in sols]
    if len(sols) > 1:
        same = all(x is not None and x.key == ks[0].key for x in ks)
        vals_same = all(s[1].key == sols[0][1].key and kid not in s[1].free for s in sols)
        if not same and not vals_same:
            raise Unsupported('loop %s: several write positions' % name)
    return out


def _norm(z):
    """push one level of Not(Or) into conjunctions"""
    if z3.is_not(z) and z3.is_or(z.arg(0)):
        return z3.And([z3.Not(x) for x in z.arg(0).children()])
    return z


def _andz(conds):
    return z3.And(list(conds)) if len(conds) > 1 else (conds[0] if conds else z3.BoolVal(True))


def _sum_over(d, k, kid, n):
    c = C.CTX
    bvp = T.sym('bv%d' % c.kdepth, True)
    d2 = d.subst(kid, bvp, k.p.z, bvp.z)
    c.kdepth += 1
    try:
        return symnp._psum(aspoly(n), d2, bvp)
    finally:
        c.kdepth -= 1
