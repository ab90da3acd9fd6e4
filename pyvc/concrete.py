"""Concrete interpretation of the same contracts on the real code.

Used (a) to replay the verifier's counter-models, and (b) as the labelled
bounded stand-in for contracts outside the verifier's reach.  Runs in the
repository's own interpreter against the real numpy."""
import importlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
import zlib

import numpy as np


class Discard(Exception):
    pass


class Fail(Exception):
    pass


class MissingTarget(Exception):
    """a function the contract names is gone: the contract says nothing"""


def _h(*a):
    return zlib.crc32('|'.join(map(str, a)).encode()) & 0x7fffffff


class ConG(object):
    mode = 'con'
    sym = False
    np = np
    pi = math.pi

    def __init__(self, name, seed, root, inject=None, trial=0):
        self.name = name
        self.rng = random.Random(_h(name, seed))
        self.nrng = np.random.RandomState(_h(name, seed, 'np'))
        self.root = root
        self.inject = inject or {}
        self.inputs = {}
        self.nchecks = 0
        self.stubs = []
        self.covers = {}
        self.trial = trial
        self.called = False
        self.reltol = 1e-8
        self.floor_ = 1e-9

    # ----------------------------------------------------------------- inputs
    def _rec(self, name, v):
        self.inputs[name] = v.tolist() if isinstance(v, np.ndarray) else v
        return v

    def int(self, name, lo=None, hi=None, max=None, step=None):
        if name in self.inject:
            v = int(self.inject[name])
        else:
            l = -6 if lo is None else lo
            h = l + 12 if hi is None else hi
            if max is not None:
                h = min(h, max)
            h = h if h >= l else l
            v = self.rng.randint(l, h)
        if lo is not None and v < lo or max is not None and v > max:
            raise Discard()
        return self._rec(name, v)

    def real(self, name, lo=None, hi=None, pos=False, max=None, nonzero=False):
        if name in self.inject:
            v = float(self.inject[name])
        else:
            r = self.rng.random()
            if pos and lo is None:
                lo_ = 0.05
            else:
                lo_ = lo if lo is not None else (max - 4.0 if max is not None else -3.0)
            hi_ = hi if hi is not None else (max if max is not None else lo_ + 4.0)
            if r < 0.15 and not pos:
                v = float(lo_)
            elif r < 0.3:
                v = float(round(lo_ + (hi_ - lo_) * self.rng.random(), 1))
            else:
                v = lo_ + (hi_ - lo_) * self.rng.random()
        if pos and v <= 0 or (lo is not None and v < lo) or (max is not None and v > max) or (nonzero and v == 0):
            raise Discard()
        return self._rec(name, v)

    def cplx(self, name):
        return complex(self.real(name + '.re'), self.real(name + '.im'))

    def bool(self, name):
        if name in self.inject:
            v = bool(self.inject[name])
        else:
            v = self.rng.random() < 0.5
        return self._rec(name, v)

    def choice(self, name, opts):
        if name in self.inject:
            i = int(self.inject[name])
        else:
            i = self.rng.randrange(len(opts))
        self._rec(name, i)
        return opts[i % len(opts)]

    def array(self, name, shape, kind='real', lo=None, hi=None, vals=None, max=None, elem=None):
        shape = tuple(int(s) for s in shape)
        if any(s < 0 for s in shape):
            raise Discard()
        v = None
        if name in self.inject:
            q = self.inject[name]
            if tuple(q['shape']) == shape:
                w = np.array(q['vals'], dtype=float)
                if kind == 'complex':
                    w = w.reshape(-1, 2) if w.size else w.reshape(0, 2)
                    v = (w[:, 0] + 1j * w[:, 1]).reshape(shape)
                elif kind == 'bool':
                    v = (w > 0).reshape(shape)
                elif kind == 'int':
                    v = w.astype(int).reshape(shape)
                else:
                    v = w.reshape(shape)
        if v is None:
            if vals is not None:
                v = np.array([self.rng.choice(vals) for _ in range(int(np.prod(shape)))],
                             dtype=complex if kind == 'complex' else (int if kind == 'int' else float)).reshape(shape)
            elif kind == 'complex':
                v = self.nrng.randn(*shape) + 1j * self.nrng.randn(*shape)
            elif kind == 'bool':
                v = self.nrng.rand(*shape) < self.rng.choice([0.2, 0.5, 0.8])
            elif kind == 'int':
                l = -6 if lo is None else lo
                h = hi if hi is not None else (max if max is not None else l + 10)
                v = self.nrng.randint(l, h + 1, size=shape)
            else:
                if lo is None and max is None and hi is None:
                    v = self.nrng.randn(*shape)
                else:
                    l = lo if lo is not None else (max if max is not None else hi) - 4.0
                    h = hi if hi is not None else (max if max is not None else l + 4.0)
                    v = l + (h - l) * self.nrng.rand(*shape)
        v = np.asarray(v)
        if kind == 'bool':
            v = v.astype(bool)
        if lo is not None and np.any(v < lo) or max is not None and np.any(v > max):
            raise Discard()
        self.inputs[name] = [[float(x.real), float(x.imag)] for x in v.ravel()] if kind == 'complex' else v.tolist()
        return v

    def distinct(self, a, sorted=True):
        if a.size > 1 and not np.all(np.diff(a) > 0):
            raise Discard()

    def index_set(self, name, n, count=None, hi=4):
        if name in self.inject and tuple(self.inject[name]['shape']) == ((count,) if count is not None else tuple(self.inject[name]['shape'])):
            v = np.array(self.inject[name]['vals'], dtype=int)
            if v.size and (v.min() < 0 or v.max() >= n or (v.size > 1 and not np.all(np.diff(v) > 0))):
                raise Discard()
        else:
            k = count if count is not None else self.rng.randint(0, min(n, hi))
            if k > n:
                raise Discard()
            v = np.array(sorted(self.rng.sample(range(n), k)), dtype=int)
        return self._rec(name, v)

    def obj(self, **kw):
        from falco.config import Object
        o = Object()
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def params(self, **kw):
        from falco.config import ModelParameters
        o = ModelParameters.__new__(ModelParameters)
        o.__dict__['data'] = {}
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def mvar(self, **kw):
        from falco.config import ModelVariables
        o = ModelVariables()
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def seq(self, n, f):
        return [f(i) for i in range(n)]

    def const(self, x):
        return np.asarray(x)

    # --------------------------------------------------------------- the code
    def fn(self, path):
        f = self._fn(path)
        self.called = True
        return f

    def _fn(self, path):
        mod, f = path.rsplit('.', 1)
        try:
            try:
                return getattr(importlib.import_module(mod), f)
            except ImportError:
                m, cl = mod.rsplit('.', 1)
                return getattr(getattr(importlib.import_module(m), cl), f)
        except (ImportError, AttributeError) as e:
            raise MissingTarget('%s: %s' % (path, e))

    def has(self, path):
        mod, nm = path.rsplit('.', 1)
        return hasattr(importlib.import_module(mod), nm)

    def stub(self, path, f):
        mod, nm = path.rsplit('.', 1)
        try:
            m = importlib.import_module(mod)
        except ImportError as e:
            raise MissingTarget('%s: %s' % (path, e))
        old = m.__dict__.get(nm)
        if old is None and not hasattr(__builtins__ if not isinstance(__builtins__, dict) else __import__('builtins'), nm):
            raise MissingTarget(path)
        for mm in list(sys.modules.values()):
            if getattr(mm, '__name__', '').startswith('falco') and mm.__dict__.get(nm, Discard) is old and old is not None:
                self.stubs.append((mm, nm, old))
                setattr(mm, nm, f)
        if not any(q[0] is m and q[1] == nm for q in self.stubs):
            self.stubs.append((m, nm, old))
            setattr(m, nm, f)

    def unstub(self):
        for m, nm, old in reversed(self.stubs):
            if old is None:
                m.__dict__.pop(nm, None)
            else:
                setattr(m, nm, old)
        self.stubs = []

    def opaque(self, name, arrays, shape, kind='complex', params=(), sym=()):
        """a fixed generic smooth function of the arguments"""
        v = []
        for a in list(arrays) + [np.atleast_1d(np.asarray(s, dtype=complex)) for s in sym]:
            a = np.asarray(a, dtype=complex).ravel()
            v.append(a.real)
            v.append(a.imag)
        v = np.concatenate(v) if v else np.zeros(0)
        shape = tuple(int(s) for s in shape)
        r = np.random.RandomState(_h(name, shape, tuple(map(str, params)), v.size))
        n = int(np.prod(shape)) if shape else 1

        def g():
            W = r.randn(n, max(v.size, 1))
            x = r.randn(n) + (W[:, :v.size] @ v if v.size else 0)
            return x + 0.5 * np.sin(x)
        if kind == 'complex':
            z = g() + 1j * g()
        elif kind == 'bool':
            z = g() > 0
        else:
            z = g()
        if kind == 'pos':
            z = np.abs(z) + 0.01
        if shape == ():
            return z[0].item()
        return z.reshape(shape)

    # ------------------------------------------------------------------ logic
    def assume(self, b):
        if isinstance(b, np.ndarray):
            b = b.all()
        if not b:
            raise Discard()

    def assume_forall(self, shape, pred):
        for ix in np.ndindex(*[int(s) for s in shape]):
            if not pred(*ix):
                raise Discard()

    ite = staticmethod(lambda c, a, b: a if c else b)
    and_ = staticmethod(lambda *a: all(bool(x) for x in a))
    or_ = staticmethod(lambda *a: any(bool(x) for x in a))
    not_ = staticmethod(lambda a: not a)
    implies = staticmethod(lambda a, b: (not a) or bool(b))
    max2 = staticmethod(max)
    min2 = staticmethod(min)
    abs = staticmethod(abs)
    floor = staticmethod(lambda x: math.floor(x))
    ceil = staticmethod(lambda x: math.ceil(x))
    conj = staticmethod(np.conj)
    sqrt = staticmethod(math.sqrt)
    re = staticmethod(np.real)
    im = staticmethod(np.imag)

    def frac(self, a, b):
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            import fractions
            return fractions.Fraction(int(a), int(b))
        return a / b

    def expi(self, th):
        return np.exp(1j * float(th))

    def complex(self, re, im):
        return re + 1j * im

    def sum(self, n, f):
        r = 0
        for k in range(n):
            r = r + f(k)
        return r

    def all(self, shape, pred):
        return all(bool(pred(*ix)) for ix in np.ndindex(*[int(s) for s in shape]))

    def exists(self, shape, pred):
        return any(bool(pred(*ix)) for ix in np.ndindex(*[int(s) for s in shape]))

    def eq(self, a, b, tol=None):
        if isinstance(a, np.ndarray) and a.size == 1:
            a = a.ravel()[0]
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a is b or a == b
        import fractions
        if isinstance(a, fractions.Fraction):
            a = float(a)
        if isinstance(b, fractions.Fraction):
            b = float(b)
        t = self.reltol if tol is None else tol
        m = max(abs(a), abs(b))
        if isinstance(m, float) and (math.isnan(m) or math.isinf(m)):
            return a == b or (a != a and b != b)
        return bool(abs(a - b) <= t * max(m, self.scale_))

    scale_ = 1e-1

    def le(self, a, b, tol=None):
        t = self.reltol if tol is None else tol
        return bool(float(a) <= float(b) + t * max(abs(float(a)), abs(float(b)), self.scale_))

    def at(self, a, *idx):
        if isinstance(a, (list, tuple)):
            r = a
            for i in idx:
                r = r[i]
            return r
        a = np.asarray(a)
        idx = tuple(int(i) for i in idx)
        for i, n in zip(idx, a.shape):
            if i < 0 or i >= n:
                return 0
        return a[idx].item() if a.dtype != object and len(idx) == a.ndim else a[idx]

    def len(self, x):
        return len(x)

    def snapshot(self, x):
        import copy
        return copy.deepcopy(x)

    def isarray(self, x):
        return isinstance(x, np.ndarray)

    def fold(self, x):
        return x

    # ------------------------------------------------------------ obligations
    def _fail(self, name, info):
        raise Fail(name, info)

    def ensure(self, name, cond):
        self.nchecks += 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not bool(cond):
            self._fail(name, 'condition is false')

    def ensure_eq(self, name, a, b, tol=None):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            if not (isinstance(a, (np.ndarray, list, tuple)) and isinstance(b, (np.ndarray, list, tuple))):
                self._fail(name, 'got %s, expected %s' % (type(a).__name__, type(b).__name__))
            self.ensure_arr(name, a, b, tol)
            return
        self.nchecks += 1
        if not self.eq(a, b, tol):
            self._fail(name, 'got %r, expected %r' % (a, b))

    def ensure_shape(self, name, a, shape):
        self.nchecks += 1
        if np.shape(a) != tuple(int(s) for s in shape):
            self._fail(name, 'shape %r, expected %r' % (np.shape(a), tuple(shape)))
        return True

    def ensure_arr(self, name, a, b, tol=None):
        a, b = np.asarray(a), np.asarray(b)
        self.ensure_shape(name + '.shape', a, b.shape)
        if b.dtype == object:
            for ix in np.ndindex(*b.shape):
                self.ensure_eq(name, a[ix], b[ix], tol)
            return
        t = self.reltol if tol is None else tol
        if b.dtype == bool or a.dtype == bool:
            bad = a != b
        elif b.size:
            m = np.abs(b)
            sc = max(np.nanmax(m[np.isfinite(m)], initial=0.0), self.floor_)
            d = np.abs(a - b)
            bad = ~((d <= t * sc) | (a == b) | (np.isnan(a) & np.isnan(b)))
        else:
            return
        if np.any(bad):
            ix = tuple(int(q) for q in np.argwhere(bad)[0])
            self._fail(name, 'element %r is %r, expected %r' % (ix, a[ix], b[ix]))

    def forall(self, name, shape, pred):
        shape = [int(s) for s in shape]
        n = 1
        for s in shape:
            n *= max(s, 0)
        if n <= 600:
            it = np.ndindex(*shape)
        else:
            it = (tuple(self.rng.randrange(s) for s in shape) for _ in range(600))
        self.nchecks += 1
        for ix in it:
            if not pred(*[int(q) for q in ix]):
                self._fail(name, 'fails at index %r' % (tuple(int(q) for q in ix),))

    def raises(self, name, exc, thunk):
        self.nchecks += 1
        try:
            thunk()
        except exc:
            return
        except Exception as e:
            self._fail(name, 'raised %s instead' % type(e).__name__)
        self._fail(name, 'no exception raised')

    def outcome(self, thunk):
        try:
            return 'ok', thunk()
        except Discard:
            raise
        except Exception as e:
            return 'raise', e

    def cover(self, name):
        self.covers[name] = True


def run_trial(c, seed, root, inject=None, trial=0):
    g = ConG(c.name, seed, root, inject, trial)
    np.random.seed(_h(c.name, seed, 'global'))
    random.seed(_h(c.name, seed, 'global'))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                c.fn(g)
        return 'pass', g, None
    except Discard:
        return 'discard', g, None
    except MissingTarget as e:
        return 'error', g, {'obligation': 'target', 'info': 'missing target ' + str(e)}
    except Fail as e:
        return 'fail', g, {'obligation': e.args[0], 'info': e.args[1]}
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = [f for f in tb if f.filename.startswith(os.path.join(root, 'falco'))]
        if inrepo:
            return 'fail', g, {'obligation': 'no exception',
                               'info': '%s: %s (%s:%d)' % (type(e).__name__, e, inrepo[-1].filename, inrepo[-1].lineno)}
        if g.called:
            return 'fail', g, {'obligation': 'result has the stated form',
                               'info': '%s: %s (%s:%d)' % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno)}
        return 'error', g, {'obligation': 'harness', 'info': traceback.format_exc()[-1500:]}
    finally:
        g.unstub()


def run_concrete(c, root, seed=1, trials=60, budget_s=8.0, models=()):
    t0 = time.time()
    rec = {'contract': c.name, 'trials': 0, 'discarded': 0, 'checks': 0, 'fails': [], 'error': None,
           'covers': {}, 'samples': [], 'distinct': 0}
    seen = set()
    devnull = open(os.devnull, 'w')
    so = sys.stdout

    def one(s, inj, i):
        sys.stdout = devnull
        try:
            st, g, info = run_trial(c, s, root, inj, i)
        finally:
            sys.stdout = so
        if st == 'discard':
            rec['discarded'] += 1
            return
        rec['trials'] += 1
        rec['checks'] += g.nchecks
        rec['covers'].update(g.covers)
        key = _h(json.dumps(g.inputs, default=str, sort_keys=True))
        if key not in seen and g.nchecks > 0:
            seen.add(key)
        if len(rec['samples']) < 3:
            rec['samples'].append(json.dumps(g.inputs, default=str)[:300])
        if st == 'fail':
            f = dict(info)
            f['inputs'] = g.inputs
            f['inject'] = inj
            f['seed'] = s
            f['source'] = 'counter-model' if inj else 'sampled'
            rec['fails'].append(f)
        elif st == 'error':
            rec['error'] = info['info']
    for i, m in enumerate(models):
        one('m%d' % i, m, -1)
    if not c.no_concrete:
        n = c.trials or trials
        i = 0
        att = 0
        while i < n and att < 20 * n and time.time() - t0 < budget_s and len(rec['fails']) < 3:
            b = rec['trials']
            one('%s:%d' % (seed, att), None, att)
            att += 1
            i += rec['trials'] - b
    rec['distinct'] = len(seen)
    rec['wall_s'] = round(time.time() - t0, 2)
    return rec
