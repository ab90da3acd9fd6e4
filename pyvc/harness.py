"""Symbolic interpretation of contracts: obligation generation and discharge."""
import os
import re
import sys
import time
import traceback
import z3
import numpy as _rnp
from . import core as C
from . import terms as T
from . import arr as A
from . import symnp
from . import loops
from . import loader as L
from .core import Num, SBool, Cplx, Unsupported, is_scalar, tyof, aspoly, mknum, band, bor, bnot, vite
from .arr import Arr, Compressed
from .terms import PathAbort


class Fail(Exception):
    pass


class SymG(object):
    mode = 'sym'
    sym = True

    def __init__(self, loader, ctx, name):
        self.loader = loader
        self.ctx = ctx
        self.name = name
        self.np = symnp.NP
        self.obls = []           # (name, status, backend, secs, info)
        self.stubbed = []
        self.covers = {}

    # ------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None, max=None, step=None):
        v = Num(T.sym('in:' + name, True), 'int')
        self.ctx.inputs[name] = ('int', v)
        if lo is not None:
            self.assume(v >= lo)
        if max is not None:
            self.assume(v <= max)
        return v

    def real(self, name, lo=None, hi=None, pos=False, max=None, nonzero=False):
        v = Num(T.sym('in:' + name, False), 'real')
        self.ctx.inputs[name] = ('real', v)
        if pos:
            self.assume(v > 0)
        if lo is not None and not pos:
            self.assume(v >= lo)
        if max is not None:
            self.assume(v <= max)
        if nonzero:
            self.assume(v != 0)
        return v

    def cplx(self, name):
        return C.mkc(self.real(name + '.re'), self.real(name + '.im'))

    def bool(self, name):
        v = Num(T.sym('in:' + name, True), 'int')
        self.ctx.inputs[name] = ('bool', v)
        self.assume(band(v >= 0, v <= 1))
        return v > 0

    def choice(self, name, opts):
        i = self.ctx.choose(len(opts))
        self.ctx.inputs[name] = ('choice', i)
        return opts[i]

    def array(self, name, shape, kind='real', lo=None, hi=None, vals=None, max=None, elem=None):
        shape = tuple(shape)
        sig = (True,) * len(shape)

        def e(tag, isint=False):
            def f(*i):
                return mknum(T.app('in:' + name + tag, [aspoly(x) for x in i], isint, sig=sig, opaque=False),
                             'int' if isint else 'real')
            return f
        if kind == 'complex':
            fr, fi = e('.re'), e('.im')
            a = Arr(shape, lambda *i: C.mkc(fr(*i), fi(*i)), 'complex')
        elif kind == 'bool':
            fb = e('', True)
            a = Arr(shape, lambda *i: fb(*i) > 0, 'bool')
        elif kind == 'int':
            a = Arr(shape, e('', True), 'int')
        else:
            a = Arr(shape, e(''), 'real')
        self.ctx.inputs[name] = ('array', shape, kind)
        if lo is not None or max is not None:
            f = a.snap()
            cs = []
            def pr(*i):
                v = f(*i)
                return band(True if lo is None else v >= lo, True if max is None else v <= max)
            self.ctx.axiom(symnp.forall_idx(shape, pr))
        return a

    def distinct(self, a, sorted=True):
        """assume 1-D int array strictly increasing"""
        f = a.snap()
        n = a.shape_[0]
        if isinstance(n, int):
            for i in range(n - 1):
                self.assume(f(i) < f(i + 1))
            return
        q1, q2 = T.sym(T.fresh_name('q'), True), T.sym(T.fresh_name('q'), True)
        self.ctx.axiom(z3.ForAll([q1.z, q2.z], z3.Implies(
            z3.And(q1.z >= 0, q1.z < q2.z, q2.z < aspoly(n).z),
            f(Num(q1, 'int')).p.z < f(Num(q2, 'int')).p.z)))

    def index_set(self, name, n, count=None, hi=4):
        """strictly increasing int array with values in [0, n)"""
        if count is None:
            count = self.int(name + '.len', 0, hi)
        a = self.array(name, (count,), 'int', lo=0)
        f = a.snap()
        self.ctx.axiom(symnp.forall_idx((count,), lambda i: f(i) < n))
        self.distinct(a)
        return a

    def obj(self, **kw):
        return loops.SObj(**kw)

    def params(self, **kw):
        return self.loader.load('falco.config').ModelParameters(**kw)

    def mvar(self, **kw):
        return self.loader.load('falco.config').ModelVariables(**kw)

    def seq(self, n, f):
        if isinstance(n, int):
            return [f(i) for i in range(n)]
        return L.SSeq(n, f)

    def const(self, x):
        """concrete numpy data as an array value"""
        return A.asarr(_rnp.asarray(x))

    # ------------------------------------------------------------ code under proof
    def fn(self, path):
        mod, f = path.rsplit('.', 1)
        try:
            m = self.loader.load(mod)
            return getattr(m, f)
        except ImportError:
            # class attribute
            m, cl = mod.rsplit('.', 1)
            return getattr(getattr(self.loader.load(m), cl), f)

    def has(self, path):
        mod, nm = path.rsplit('.', 1)
        return nm in self.loader.load(mod).__dict__

    def stub(self, path, f):
        """replace a callee by its contract everywhere it is referenced"""
        mod, nm = path.rsplit('.', 1)
        if not mod.startswith('falco'):
            m = self.loader.imp(mod, fromlist=(nm,))
            self.stubbed.append((m, nm, m.__dict__.get(nm)))
            m.__dict__[nm] = f
            return
        m = self.loader.load(mod)
        old = getattr(m, nm, None)
        for mm in list(self.loader.mods.values()):
            for k, v in list(getattr(mm, '__dict__', {}).items()):
                if (v is old and old is not None and k == nm) or (mm is m and k == nm):
                    self.stubbed.append((mm, k, v))
                    mm.__dict__[k] = f
        if not any(q[0] is m and q[1] == nm for q in self.stubbed):
            self.stubbed.append((m, nm, old))
            m.__dict__[nm] = f
        pk = self.loader.mods.get('falco')
        if pk is not None:
            self.stubbed.append((pk, nm, pk.__dict__.get(nm, None)))
            pk.__dict__[nm] = f

    def unstub(self):
        for m, k, v in reversed(self.stubbed):
            if v is None:
                m.__dict__.pop(k, None)
            else:
                m.__dict__[k] = v
        self.stubbed = []

    def opaque(self, name, arrays, shape, kind='complex', params=(), sym=()):
        """result of an unverified callee, a function of its arguments only"""
        self.ctx.assumptions.add('callee %s treated as a pure function of its arguments' % name)
        arrays = [A.asarr(a) for a in arrays]
        if shape == ():
            return symnp.opaque_scalar(name, arrays, tuple(params), kind, list(sym))
        return symnp.opaque(name, arrays, tuple(params), tuple(shape), kind, list(sym))

    # ----------------------------------------------------------------- logic
    def assume(self, b):
        if isinstance(b, SBool):
            self.ctx.assume(b.z)
        elif not b:
            raise PathAbort()

    def assume_forall(self, shape, pred):
        self.ctx.axiom(symnp.forall_idx(tuple(shape), pred))

    ite = staticmethod(lambda c, a, b: vite(c, a, b))
    and_ = staticmethod(band)
    or_ = staticmethod(bor)
    not_ = staticmethod(bnot)
    implies = staticmethod(lambda a, b: bor(bnot(a), b))
    max2 = staticmethod(lambda a, b: C.nmax(a, b))
    min2 = staticmethod(lambda a, b: C.nmin(a, b))
    abs = staticmethod(lambda a: abs(a))
    floor = staticmethod(lambda x: C.toint(C.nfloor(x)) if not is_py(x) else __import__('math').floor(x))
    ceil = staticmethod(lambda x: C.toint(C.nceil(x)) if not is_py(x) else __import__('math').ceil(x))
    conj = staticmethod(lambda z: C.ascplx(z).conj() if isinstance(z, (Cplx, complex)) else z)
    sqrt = staticmethod(lambda x: C.nsqrt(x))
    re = staticmethod(lambda z: C.ascplx(z).re)
    im = staticmethod(lambda z: C.ascplx(z).im)

    @property
    def pi(self):
        return C.pi_num()

    def frac(self, a, b):
        return mknum(aspoly(a).div(aspoly(b)), 'real')

    def expi(self, th):
        return C.mkc(C.ncos(th), C.nsin(th))

    def complex(self, re, im):
        return C.mkc(re, im)

    def sum(self, n, f):
        return symnp.symsum(n, f)

    def all(self, shape, pred):
        return C.mkbool(z3.simplify(symnp.forall_idx(tuple(shape), pred)))

    def exists(self, shape, pred):
        return C.mkbool(z3.simplify(symnp.exists_idx(tuple(shape), pred)))

    def eq(self, a, b, tol=None):
        if isinstance(a, Arr) and a.size == 1 and not isinstance(b, Arr):
            a = a.item()
        if C._isb(a) and C._isb(b):
            return C.mkbool(C.zb(a) == C.zb(b))
        return C.smart_eq(a, b)

    def le(self, a, b, tol=None):
        return a <= b

    def at(self, a, *idx):
        """element of an array result (no bounds forks)"""
        if isinstance(a, Arr):
            return a.fn(*idx)
        if isinstance(a, (list, tuple)) and all(isinstance(i, int) for i in idx):
            r = a
            for i in idx:
                r = r[i]
            return r
        if isinstance(a, L.SSeq):
            return a.elem(idx[0])
        if isinstance(a, A.Compressed):
            a = a.toarr()
        return A.asarr(a).fn(*idx)

    def len(self, x):
        return L.b_len(x)

    def snapshot(self, x):
        if isinstance(x, (Arr,)):
            return x.copy()
        import copy
        return copy.deepcopy(x)

    def isarray(self, x):
        return isinstance(x, Arr)

    def fold(self, x):
        return x

    # ------------------------------------------------------------ obligations
    def ensure(self, name, cond):
        if C._isb(cond):
            z = C.zb(cond)
        elif isinstance(cond, Arr):
            z = C.zb(symnp.np_all(cond))
        elif isinstance(cond, z3.ExprRef):
            z = cond
        else:
            z = z3.BoolVal(bool(cond))
        self._oblige(name, z)

    def ensure_eq(self, name, a, b, tol=None):
        """values equal (arrays: same shape and elements)"""
        ia, ib = isinstance(a, (Arr, list, tuple, L.SSeq, _rnp.ndarray)), isinstance(b, (Arr, list, tuple, L.SSeq, _rnp.ndarray))
        if ia or ib:
            if not (ia and ib):
                self._oblige(name + '.kind', z3.BoolVal(False))
                return
            self.ensure_arr(name, a, b)
            return
        if a is None or b is None or isinstance(a, str):
            self._oblige(name, z3.BoolVal(a is b or a == b))
            return
        self.ensure(name, self.eq(a, b))

    def ensure_shape(self, name, a, shape):
        a = A.asarr(a)
        if a.ndim != len(shape):
            self._oblige(name + '.ndim', z3.BoolVal(False))
            return False
        self._oblige(name, z3.And([C.zb(x == y) for x, y in zip(a.shape_, shape)] or [z3.BoolVal(True)]))
        return True

    def ensure_arr(self, name, a, b, tol=None):
        a, b = A.asarr(a), A.asarr(b)
        if not self.ensure_shape(name + '.shape', a, b.shape_):
            return
        self.forall(name, b.shape_, lambda *i: self.eq(a.fn(*i), b.fn(*i)))

    def forall(self, name, shape, pred):
        idx, conds = A.generic_idx(tuple(shape), 'sk')
        c = self.ctx
        c.solver.push()
        save, savepc = dict(c.decided), list(c.pc)
        npc = len(c.pc)
        feasible = True
        for x in conds:
            if isinstance(x, SBool):
                c.pc.append(x.z)
                c.solver.add(x.z)
            elif not x:
                feasible = False
        nax = len(c.axioms)
        try:
            if feasible:
                c.nofork += 1
                try:
                    v = pred(*idx)
                finally:
                    c.nofork -= 1
                hyp = [x.z for x in conds if isinstance(x, SBool)]
                self._oblige(name, C.zb(v), hyp)
        finally:
            c.solver.pop()
            for ax in c.axioms[nax:]:
                c.solver.add(ax)
            c.pc = savepc
            c.decided = save
            c.sum_classes = [e for e in c.sum_classes if e[2]]

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except (Unsupported, PathAbort):
            raise
        except exc as e:
            genuine(e)
            self._oblige(name, z3.BoolVal(True))
            return
        except Exception as e:
            genuine(e)
            self._oblige(name, z3.BoolVal(False), info='raised %s: %s' % (type(e).__name__, e))
            return
        self._oblige(name, z3.BoolVal(False), info='no exception')

    def outcome(self, thunk):
        """('ok', value) or ('raise', exception)"""
        try:
            return 'ok', thunk()
        except (Unsupported, PathAbort):
            raise
        except Exception as e:
            genuine(e)
            return 'raise', e

    def cover(self, name):
        """reachability: this point must be feasible on some path"""
        if self.covers.get(name):
            return
        self.covers[name] = self.ctx._check() != z3.unsat or self.covers.get(name, False)

    def _oblige(self, name, z, hyp=(), info=None):
        c = self.ctx
        t = time.time()
        z = z3.simplify(z)
        hyp = list(hyp)
        status, backend, model = 'unknown', 'z3', None
        if z3.is_true(z):
            status, backend = 'proved', 'normaliser'
        else:
            base = list(c.pc) + list(c.axioms) + hyp
            status, backend, model = prove(base, z, c)
        dt = time.time() - t
        rec = {'name': name, 'status': status, 'backend': backend, 's': round(dt, 3)}
        if info:
            rec['info'] = info
        if status == 'refuted':
            rec['exact'] = model[1]
            rec['model'] = extract_model(model[0], c)
            rec['goal'] = str(z)[:400]
            if model[2] is not None:
                small = extract_model(model[2], c)
                rec['model'] = small
        elif status == 'unknown':
            rec['goal'] = str(z)[:400]
        self.obls.append(rec)


_SHIMCLS = re.compile(r"'?\b(Arr|Num|SBool|Cplx|SSeq|SRange|Compressed|SObj|Stub|_NP|NP|VC|Poison)\b'?")


def engine_artifact(e):
    """True when the exception comes from the engine's own incompleteness and
    not from the code under proof (or from a numpy error that a shim raises)"""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1]
    here = os.path.dirname(os.path.abspath(__file__))
    if last.filename.startswith(here):
        ln = (last.line or '').strip()
        if not ln.startswith('raise') and ' raise ' not in ln:
            return True
        return False
    if '/falco/' not in last.filename and '/contracts/' in last.filename:
        return True
    if isinstance(e, (AttributeError, TypeError)) and _SHIMCLS.search(str(e)):
        return True
    return False


def genuine(e):
    if engine_artifact(e):
        tb = traceback.extract_tb(e.__traceback__)
        raise Unsupported('engine: %s: %s at %s:%s' % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno))


def is_py(x):
    return not isinstance(x, (Num, SBool, Cplx))


def decls(z, acc, seen):
    st = [z]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0:
                acc.add(d.name())
            st.extend(x.children())


def abstractly(base, goal, ms):
    """the same query with every non-linear product, quotient and power of
    quantifier-free terms replaced by an unconstrained constant (unsat carries over)"""
    memo, fresh = {}, {}

    def go(z):
        k = z.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_quantifier(z) or z3.is_var(z) or z.num_args() == 0:
            r = z
        else:
            d = z.decl().kind()
            ch = [go(q) for q in z.children()]
            key = None
            if d == z3.Z3_OP_MUL:
                num = [q for q in ch if z3.is_rational_value(q) or z3.is_int_value(q)]
                non = [q for q in ch if not (z3.is_rational_value(q) or z3.is_int_value(q))]
                if len(non) > 1:
                    key = ('*', tuple(sorted(q.get_id() for q in non)))
            elif d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (
                    z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])) or d == z3.Z3_OP_POWER:
                num, non = [], ch
                key = (d, tuple(q.get_id() for q in ch))
            if key is not None:
                if key not in fresh:
                    fresh[key] = (z3.FreshConst(z.sort(), 'nl'), non)
                r = fresh[key][0]
                for q in num:
                    r = q * r
            elif all(a.get_id() == b.get_id() for a, b in zip(ch, z.children())):
                r = z
            else:
                r = z.decl()(*ch)
        memo[k] = (r, z)
        return r
    try:
        s = z3.Solver()
        s.set('timeout', ms)
        for b in base:
            s.add(go(b))
        s.add(z3.Not(go(goal)))
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def prove(base, goal, c):
    s = z3.Solver()
    s.set('timeout', c.timeout_ms)
    for b in base:
        s.add(b)
    s.add(z3.Not(goal))
    c.stats['solver_calls'] += 1
    t = time.time()
    s.set('timeout', min(2000, c.timeout_ms))
    r = s.check()
    if r == z3.unknown:
        if abstractly(base, goal, min(4000, c.timeout_ms)):
            c.stats['solver_s'] += time.time() - t
            return 'proved', 'z3/linear', None
        s.set('timeout', c.timeout_ms)
        r = s.check()
    c.stats['solver_s'] += time.time() - t
    if r == z3.unsat:
        return 'proved', 'z3', None
    if r == z3.unknown:
        # second strategy: nonlinear tactic pipeline on the same query
        for tac in ('qfnra-nlsat', 'default'):
            try:
                if tac == 'default':
                    s2 = z3.SolverFor('AUFNIRA')
                else:
                    s2 = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'smt').solver()
                s2.set('timeout', c.timeout_ms)
                for b in base:
                    s2.add(b)
                s2.add(z3.Not(goal))
                t = time.time()
                r2 = s2.check()
                c.stats['solver_s'] += time.time() - t
                if r2 == z3.unsat:
                    return 'proved', 'z3/' + tac, None
            except z3.Z3Exception:
                pass
        r3 = cvc5_unsat(s, c)
        if r3:
            return 'proved', 'cvc5', None
        return 'unknown', 'z3', None
    m = s.model()
    acc = set()
    seen = set()
    decls(goal, acc, seen)
    exact = all(n.startswith('in:') for n in acc)
    small = None
    ints = [v.p.z for k, v in ((q[0], q[1]) for q in c.inputs.values()) if k == 'int' and isinstance(v, Num)]
    for bound in (4, 8, 16):
        s.push()
        for x in ints:
            s.add(x <= bound, x >= -bound)
        s.set('timeout', 3000)
        if s.check() == z3.sat:
            small = s.model()
            s.pop()
            break
        s.pop()
    return 'refuted', 'z3', (m, exact, small)


def cvc5_unsat(s, c):
    try:
        import cvc5
    except ImportError:
        return False
    t = time.time()
    try:
        sl = cvc5.Solver()
        sl.setOption('tlimit-per', str(c.timeout_ms))
        p = cvc5.InputParser(sl)
        txt = s.to_smt2()
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(sl, sm)
            if 'unsat' in str(o):
                res = True
                break
            if 'sat' in str(o) or 'unknown' in str(o):
                break
        return bool(res)
    except Exception:
        return False
    finally:
        c.stats['solver_s'] += time.time() - t


def _val(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(12).as_fraction())
    return 0


def extract_model(m, c):
    import itertools
    out = {}
    for name, q in c.inputs.items():
        try:
            if q[0] in ('int', 'real', 'bool'):
                out[name] = _val(m, q[1].p.z)
            elif q[0] == 'choice':
                out[name] = q[1]
            elif q[0] == 'array':
                shape, kind = q[1], q[2]
                dims = [d if isinstance(d, int) else _val(m, d.p.z) for d in shape]
                tot = 1
                for d in dims:
                    tot *= max(d, 0)
                if tot > 400:
                    continue
                vals = []
                isint = kind in ('int', 'bool')
                for ix in itertools.product(*[range(d) for d in dims]):
                    def ev(tag):
                        f = T.zfun('in:' + name + tag, (True,) * len(dims), isint)
                        return _val(m, f(*[z3.IntVal(i) for i in ix]))
                    if kind == 'complex':
                        vals.append([ev('.re'), ev('.im')])
                    else:
                        vals.append(ev(''))
                out[name] = {'shape': dims, 'vals': vals}
        except Exception:
            continue
    return out


def run_symbolic(contract, root, timeout_ms=8000, budget_s=200, loader=None):
    """explore every path of a contract; returns a JSON-able record"""
    t0 = time.time()
    ctx = C.Ctx(timeout_ms=timeout_ms)
    C.set_ctx(ctx)
    rec = {'contract': contract.name, 'obligations': [], 'paths': 0, 'aborted': 0,
           'status': 'ok', 'covers': {}, 'functions': []}
    funcs = set()
    work = [[]]
    covers = {}
    rp = root.rstrip('/') + '/falco/'
    while work:
        tr = work.pop()
        ctx.reset_path(tr)
        ctx.timeout_ms = timeout_ms
        loader = L.Loader(root)
        install_config(loader)
        g = SymG(loader, ctx, contract.name)
        g.covers = covers
        ctx.ext_cache = (None, {})
        ctx.fft_results = (None, [])

        def prof(frame, ev, arg):
            if ev == 'call':
                co = frame.f_code
                if co.co_filename.startswith(rp) and not co.co_name.startswith(('<', '__')):
                    funcs.add(co.co_filename[len(root.rstrip('/')) + 1:-3].replace('/', '.') + '.' + co.co_name)
        first = rec['paths'] < 40
        if first:
            sys.setprofile(prof)
        try:
            contract.fn(g)
            rec['paths'] += 1
        except PathAbort:
            rec['aborted'] += 1
        except Unsupported as e:
            sys.setprofile(None)
            if os.environ.pop('VC_DEBUG', None):
                traceback.print_exc()
            rec['status'] = 'unsupported'
            rec['reason'] = str(e)[:300]
            rec['where'] = _where(root)
            rec['paths'] += 1
        except RecursionError as e:
            rec['status'] = 'unsupported'
            rec['reason'] = 'recursion limit'
        except Exception as e:
            # an exception escaping from the code under proof
            tb = traceback.extract_tb(sys.exc_info()[2])
            inrepo = [f for f in tb if f.filename.startswith(rp)]
            if inrepo and not engine_artifact(e):
                sys.setprofile(None)
                z = z3.BoolVal(False)
                g._oblige('no exception', z, info='%s: %s at %s:%d' % (
                    type(e).__name__, e, inrepo[-1].filename, inrepo[-1].lineno))
                rec['paths'] += 1
            else:
                rec['status'] = 'unsupported'
                rec['reason'] = 'engine: ' + ''.join(traceback.format_exception(*sys.exc_info()))[-1500:]
        finally:
            sys.setprofile(None)
            g.unstub()
        rec['obligations'].extend(g.obls)
        work.extend(ctx.todo)
        if time.time() - t0 > budget_s or rec['paths'] + rec['aborted'] > ctx.max_paths:
            if work:
                rec['status'] = 'budget'
                rec['reason'] = '%d paths left' % len(work)
            break
    rec['covers'] = covers
    rec['functions'] = sorted(funcs)
    rec['stats'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in ctx.stats.items()}
    rec['shims'] = sorted(ctx.shims)
    rec['assumptions'] = sorted(ctx.assumptions)
    rec['wall_s'] = round(time.time() - t0, 2)
    return rec


def _where(root):
    tb = traceback.extract_tb(sys.exc_info()[2])
    fr = [f for f in tb if f.filename.startswith(root)]
    return '%s:%d' % (fr[-1].filename, fr[-1].lineno) if fr else ''


def install_config(loader):
    """falco.config containers are plain attribute records for the proofs"""
    import types
    m = types.ModuleType('falco.config')

    class Object(loops.SObj):
        pass

    class ModelVariables(loops.SObj):
        def __init__(self, **k):
            loops.SObj.__init__(self)
            self.__dict__.update(dict(sbpIndex=0, wpsbpIndex=0, starIndex=0, zernIndex=1, whichSource='star',
                                      x_offset=0, y_offset=0))
            self.__dict__.update(k)
    m.Object = Object
    m.ModelVariables = ModelVariables
    m.ModelParameters = Object
    m.EmptyClass = Object
    m.__path__ = []
    loader.mods['falco.config'] = m
    for s in ('ModelVariables', 'ModelParameters', 'Object', 'Eval', 'Probe', 'ProbeSchedule', 'init_from_mat'):
        mm = types.ModuleType('falco.config.' + s)
        mm.__dict__.update(m.__dict__)
        loader.mods['falco.config.' + s] = mm
