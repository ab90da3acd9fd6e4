"""Loads the repository's modules from their current source for symbolic
execution.  The statements executed are exactly those of the source file; the
only mechanical changes are
  * `import` of numpy / math / scipy / ... is redirected to contract shims,
  * builtins len, range, int, float, isinstance, type, max, min, sum, abs,
    round, enumerate, zip, list, tuple, sorted, any, all, bool, complex are
    replaced by versions that also accept symbolic values,
  * `for` loops get a second arm used when the iterable has symbolic length
    (the loop rule of loops.py),
  * list comprehensions over symbolic iterables go through the same rule,
  * '%'-formatting and f-strings of symbolic values yield placeholder text,
  * docstrings, comments and decorators-free annotations are dropped.
"""
import ast
import builtins
import importlib
import os
import types
import numpy as _rnp
from . import core as C
from . import terms as T
from . import arr as A
from . import symnp
from .core import Num, SBool, Cplx, Unsupported, is_scalar, tyof
from .arr import Arr, Compressed


# ------------------------------------------------------------------- builtins
def _is_text(e):
    """a string literal or a concatenation with one: % on it is text formatting"""
    if isinstance(e, ast.Constant):
        return isinstance(e.value, str)
    return isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and (_is_text(e.left) or _is_text(e.right))


class SRange(object):
    """range with symbolic bounds, step 1 or constant"""

    def __init__(self, start, stop, step=1):
        if isinstance(step, Num):
            raise Unsupported('symbolic range step')
        self.start, self.stop, self.step = start, stop, step
        d = stop - start if step > 0 else start - stop
        st = abs(step)
        n = d if st == 1 else (d + (st - 1)) // st
        n = C.nmax(n, 0) if not (isinstance(n, Num) and C.CTX.proves((n >= 0).z if isinstance(n >= 0, SBool) else T.z3.BoolVal(bool(n >= 0)))) else n
        self.n = n

    def slen(self):
        return self.n

    def elem(self, k):
        return self.start + k * self.step

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.elem(k) for k in range(self.n)])
        raise Unsupported('native iteration over symbolic range')

    def __len__(self):
        raise Unsupported('native len of symbolic range')

    def as_arr(self):
        return Arr((self.n,), lambda i: self.start + i * self.step, 'int')

    def __contains__(self, x):
        if self.step != 1:
            raise Unsupported('range membership')
        return bool(C.band(x >= self.start, x < self.stop))

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported('range slicing')
        if k < 0:
            k = k + self.n
        if not (k < self.n):
            raise IndexError('range object index out of range')
        return self.elem(k)


class SSeq(object):
    """symbolic-length immutable sequence with arbitrary element objects"""

    def __init__(self, n, elem):
        self.n, self._e = n, elem

    def slen(self):
        return self.n

    def elem(self, k):
        return self._e(k)

    def __getitem__(self, k):
        if isinstance(k, slice):
            s, c, st = A.norm_slice(k, self.n)
            return SSeq(c, lambda i: self._e(s + i * st))
        if k < 0:
            k = k + self.n
            if k < 0:
                raise IndexError('list index out of range')
        if not (k < self.n):
            raise IndexError('list index out of range')
        return self._e(k)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self._e(k) for k in range(self.n)])
        raise Unsupported('native iteration over symbolic sequence')

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('native len of symbolic sequence')

    def __bool__(self):
        return bool(self.n > 0)

    def as_arr(self):
        e = self._e
        C.CTX.nofork += 1
        try:
            v = e(Num(T.sym('ssq', True), 'int'))
        finally:
            C.CTX.nofork -= 1
        if is_scalar(v):
            return Arr((self.n,), lambda i: e(i), tyof(v))
        if isinstance(v, (Arr, list, tuple)):
            v = A.asarr(v)
            return Arr((self.n,) + v.shape_, lambda i, *r: A.asarr(e(i)).fn(*r), v.dt)
        raise Unsupported('array of sequence elements %r' % type(v))

    def __eq__(self, o):
        # symbolic scalars stand for NumPy scalars (elements of arrays): comparing a list with one compares elementwise
        if isinstance(o, Num):
            return self.as_arr() == o
        if isinstance(o, (int, float, str, type(None))):
            return False
        raise Unsupported('comparison of a symbolic sequence')

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else A.ew1(r, lambda v: C.bnot(v), dt='bool')

    __hash__ = object.__hash__

    def __array__(self, *a, **k):
        raise Unsupported('native conversion of symbolic sequence')


def is_symseq(x):
    if isinstance(x, (SRange, SSeq)):
        return not isinstance(x.slen(), int)
    if isinstance(x, Arr):
        return x.ndim > 0 and not isinstance(x.shape_[0], int)
    if isinstance(x, Compressed):
        return True
    return False


def seq_elem(x, k):
    if isinstance(x, (SRange, SSeq)):
        return x.elem(k)
    if isinstance(x, Arr):
        if x.ndim == 1:
            return x.fn(k)
        f = x.snap()
        return Arr(x.shape_[1:], lambda *r: f(k, *r), x.dt, frozen=True)
    raise Unsupported('element of %s' % type(x))


def b_len(x):
    if isinstance(x, Compressed) and x.short():
        return x.toarr().shape_[0]
    if hasattr(x, 'slen'):
        return x.slen()
    return len(x)


def b_range(*a):
    a = [x.item() if isinstance(x, Arr) else x for x in a]
    for x in a:
        if isinstance(x, float) or (isinstance(x, Num) and x.ty != 'int'):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if any(isinstance(x, Num) for x in a):
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)
    return range(*a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, int)

    def __call__(cls, *a, **k):
        return b_int(*a, **k)


def b_int(x=0, *a):
    if isinstance(x, Arr):
        if not bool(x.size == 1):
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        x = x.item()
    if isinstance(x, (Num, SBool)):
        return C.toint(x)
    if isinstance(x, Cplx):
        raise TypeError('int() argument must not be complex')
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, Arr):
        if not bool(x.size == 1):
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        x = x.item()
    if isinstance(x, Num):
        return Num(x.p, 'real')
    if isinstance(x, SBool):
        return Num(x.num().p, 'real')
    if isinstance(x, Cplx):
        raise TypeError('float() argument must not be complex')
    return float(x)


def b_complex(*a):
    if any(isinstance(x, (Num, SBool, Cplx)) for x in a):
        re = a[0]
        im = a[1] if len(a) > 1 else 0
        return C.ascplx(re) + C.Cplx(0, 1) * im
    return complex(*a)


_PYTY = {'int': int, 'real': float}


def sym_types(x):
    if isinstance(x, Num):
        return _PYTY[x.ty]
    if isinstance(x, SBool):
        return bool
    if isinstance(x, Cplx):
        return complex
    return None


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, q) for q in t)
    try:
        t = UNSHADOW.get(t, t)
    except TypeError:
        pass
    if isinstance(t, _TypeShim):
        t = type
    st = sym_types(x)
    if st is not None:
        if t is object:
            return True
        try:
            return issubclass(st, t)
        except TypeError:
            return isinstance(x, t)
    if isinstance(x, (SSeq,)):
        return t in (list, object)
    if isinstance(x, SRange):
        return t in (range, object)
    if isinstance(x, (SDict,)) if SDict else False:
        return t in (dict, object)
    return isinstance(x, t)


SDict = None


class _TypeShim(object):
    def __call__(self, *a):
        if len(a) == 1:
            st = sym_types(a[0])
            if st is not None:
                return SHADOW_BACK.get(st, st)
            if isinstance(a[0], SSeq):
                return SHADOW_BACK.get(list, list)
            t = type(a[0])
            return SHADOW_BACK.get(t, t)
        return type(*a)


def b_abs(x):
    return abs(x)


def _flatargs(a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Arr):
            if x.ndim == 1 and isinstance(x.shape_[0], int):
                return list(x)
            return None
        if is_symseq(x):
            return None
        return list(x)
    return list(a)


def b_max(*a, **k):
    if k:
        return max(*a, **k)
    xs = _flatargs(a)
    if xs is None:
        return symnp.np_max(a[0] if isinstance(a[0], Arr) else a[0].as_arr())
    if not xs:
        raise ValueError('max() arg is an empty sequence')
    r = xs[0]
    for v in xs[1:]:
        c = v > r
        if isinstance(c, SBool):
            r = C.vite(c, v, r)
        elif c:
            r = v
    return r


def b_min(*a, **k):
    if k:
        return min(*a, **k)
    xs = _flatargs(a)
    if xs is None:
        return symnp.np_min(a[0] if isinstance(a[0], Arr) else a[0].as_arr())
    if not xs:
        raise ValueError('min() arg is an empty sequence')
    r = xs[0]
    for v in xs[1:]:
        c = v < r
        if isinstance(c, SBool):
            r = C.vite(c, v, r)
        elif c:
            r = v
    return r


def b_sum(x, start=0):
    if is_symseq(x):
        if start != 0:
            raise Unsupported('sum start')
        a = x if isinstance(x, Arr) else x.as_arr()
        return symnp.np_sum(a, 0)
    r = start
    for v in x:
        r = r + v
    return r


def b_any(x):
    if is_symseq(x):
        a = x if isinstance(x, Arr) else x.as_arr()
        return symnp.np_any(a)
    for v in x:
        if v:
            return True
    return False


def b_all(x):
    if is_symseq(x):
        a = x if isinstance(x, Arr) else x.as_arr()
        return symnp.np_all(a)
    for v in x:
        if not v:
            return False
    return True


def b_enumerate(x, start=0):
    if is_symseq(x):
        return SSeq(b_len(x), lambda k: (k + start, seq_elem(x, k)))
    return enumerate(x, start)


def b_zip(*xs):
    if any(is_symseq(x) for x in xs):
        n = None
        for x in xs:
            if isinstance(x, (types.GeneratorType,)):
                raise Unsupported('zip of generator')
            l = b_len(x)
            n = l if n is None else C.nmin(n, l)
        return SSeq(n, lambda k: tuple(seq_elem(x, k) if is_symseq(x) else _nat(x, k) for x in xs))
    return zip(*xs)


def _nat(x, k):
    if isinstance(x, Arr):
        return x[k]
    if isinstance(x, (list, tuple, range)):
        return A.asarr(list(x)).fn(k)
    raise Unsupported('zip element')


def b_list(x=()):
    if is_symseq(x):
        if isinstance(x, Arr):
            return SSeq(x.shape_[0], lambda k: seq_elem(x, k))
        return SSeq(x.slen(), x.elem)
    return list(x)


def b_tuple(x=()):
    if is_symseq(x):
        return b_list(x)
    return tuple(x)


def b_sorted(x, **k):
    if is_symseq(x):
        raise Unsupported('sorted of symbolic sequence')
    xs = list(x)
    if any(isinstance(v, Num) for v in xs):
        if k:
            raise Unsupported('sorted key')
        out = []
        for v in xs:
            i = 0
            while i < len(out) and not (v < out[i]):
                i += 1
            out.insert(i, v)
        return out
    return sorted(xs, **k)


def b_round(x, n=None):
    if isinstance(x, Num):
        if n is not None:
            raise Unsupported('round digits')
        return C.toint(C.nround(x))
    return round(x) if n is None else round(x, n)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, Num):
        return x != 0
    return bool(x)


def b_set(x=()):
    if is_symseq(x):
        raise Unsupported('set of symbolic sequence')
    return set(x)


def b_print(*a, **k):
    return None


def b_str(x='', *a):
    if isinstance(x, (Num, SBool, Cplx, Arr)):
        return '<sym>'
    return str(x, *a)


def _mkshadow(name, base, fn):
    """callable stand-in for a builtin class"""
    class Meta(type):
        def __call__(cls, *a, **k):
            return fn(*a, **k)

        def __instancecheck__(cls, x):
            return b_isinstance(x, base)

        def __subclasscheck__(cls, x):
            return issubclass(UNSHADOW.get(x, x), base)

        def __eq__(cls, o):
            return o is cls or o is base

        def __hash__(cls):
            return hash(base)

        def __getattr__(cls, a):
            return getattr(base, a)

        def __repr__(cls):
            return repr(base)
    return Meta(name, (), {})


UNSHADOW = {}
SHADOW_BACK = {}
BUILTINS = dict(builtins.__dict__)
for _n, _b, _f in [('int', int, b_int), ('float', float, b_float),
                   ('complex', complex, b_complex), ('list', list, b_list),
                   ('tuple', tuple, b_tuple), ('bool', bool, b_bool),
                   ('range', range, b_range), ('set', set, b_set),
                   ('str', str, b_str)]:
    _c = _mkshadow(_n, _b, _f)
    UNSHADOW[_c] = _b
    SHADOW_BACK[_b] = _c
    BUILTINS[_n] = _c
BUILTINS.update(len=b_len, isinstance=b_isinstance, type=_TypeShim(), abs=b_abs,
                max=b_max, min=b_min, sum=b_sum, any=b_any, all=b_all,
                enumerate=b_enumerate, zip=b_zip, sorted=b_sorted,
                round=b_round, print=b_print)

# dtype_name must understand the shadow classes
_old_dtn = C.dtype_name


def _dtn(t):
    try:
        if t in UNSHADOW:
            t = UNSHADOW[t]
    except TypeError:
        pass
    return _old_dtn(t)


C.dtype_name = _dtn


# ---------------------------------------------------------- module shims
class Stub(object):
    def __init__(self, name):
        self.__dict__['_stubname'] = name

    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__'):
            raise AttributeError(k)
        s = Stub(self._stubname + '.' + k)
        self.__dict__[k] = s
        return s

    def __call__(self, *a, **k):
        raise Unsupported('external function %s has no contract' % self._stubname)

    def __mro_entries__(self, bases):
        return (object,)


class _Math(object):
    def __getattr__(self, k):
        import math

        def g(*a):
            if any(isinstance(x, (Num, Arr, Cplx)) for x in a):
                raise Unsupported('math.%s' % k)
            return getattr(math, k)(*a)
        v = getattr(math, k)
        return g if callable(v) else v

    @property
    def pi(self):
        return C.pi_num()

    def _w(n, f, real):
        def m(self, x):
            if isinstance(x, Arr):
                x = x.item()
            if isinstance(x, Num):
                return f(x)
            import math
            if n in ('cos', 'sin', 'sqrt') :
                return f(x)
            return getattr(math, n)(x)
        return m
    sqrt = _w('sqrt', C.nsqrt, 1)
    cos = _w('cos', C.ncos, 1)
    sin = _w('sin', C.nsin, 1)
    exp = _w('exp', C.nexp, 1)
    log10 = _w('log10', C.nlog10, 1)
    ceil = _w('ceil', lambda x: C.toint(C.nceil(x)), 0)
    floor = _w('floor', lambda x: C.toint(C.nfloor(x)), 0)
    radians = _w('radians', lambda x: x * (C.pi_num() / 180), 1)


REAL_OK = {'os', 'copy', 'time', 'warnings', 'sys', 'types', 'functools', 'itertools',
           'pickle', 'numbers', 'abc', 'collections', 'collections.abc', 're', 'logging', 'random',
           'multiprocessing', 'pathlib', 'typing', 'string', 'datetime', 'operator',
           '__future__', 'contextlib', 'enum', 'glob', 'json', 'inspect', 'platform', 'pdb'}


# ---------------------------------------------------------- AST transform
class Xform(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infn = 0
        self.nobody = 0

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.infn += 1
        node.body = self.block(node.body)
        self.infn -= 1
        return node

    def visit_ClassDef(self, node):
        save = self.infn
        self.infn = 0
        node.body = self.block(node.body)
        self.infn = save
        return node

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and _is_text(node.left):
            return ast.copy_location(ast.Call(
                func=ast.Attribute(ast.Name('__vc__', ast.Load()), 'fmt', ast.Load()),
                args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)      # (a nested format spec stays as written)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Attribute(ast.Name('__vc__', ast.Load()), 'ftext', ast.Load()), args=[node], keywords=[]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.copy_location(ast.Call(
                func=ast.Attribute(ast.Name('__vc__', ast.Load()), 'contains', ast.Load()),
                args=[node.left, node.comparators[0]], keywords=[]), node)
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
            return c
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and self.infn:
            g = node.generators[0]
            if isinstance(g.target, ast.Name):
                lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)],
                                                    kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 body=node.elt)
                return ast.copy_location(ast.Call(
                    func=ast.Attribute(ast.Name('__vc__', ast.Load()), 'listcomp', ast.Load()),
                    args=[lam, g.iter], keywords=[]), node)
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return ast.copy_location(ast.Assign([node.target], node.value), node)

    def visit_For(self, node):
        if not self.infn:
            self.generic_visit(node)
            return node
        import copy
        orig = copy.deepcopy(node)
        it = self.visit(node.iter)
        target = node.target
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse) if node.orelse else []
        self.n += 1
        i = self.n
        itn = '__it%d' % i
        assigned = sorted(assigned_names(orig.body) | assigned_names_target(orig.target))
        bad = has_escape(orig.body)
        hdr = ast.Assign([ast.Name(itn, ast.Store())], it)
        node.iter = ast.Name(itn, ast.Load())
        if bad:
            symarm = ast.parse('__vc__.unsupported("loop over symbolic iterable with %s")' % bad).body
        else:
            body = copy.deepcopy(orig.body)
            x = Xform()
            x.infn = 1
            x.n = self.n * 1000
            body = x.block(body)
            body = ContinueToReturn().fix(body)
            fn = ast.parse('def __body%d(__k%d):\n    nonlocal %s\n    pass\n    return None' % (
                i, i, ', '.join(assigned))).body[0]
            asg = ast.parse('__t = __vc__.elem(%s, __k%d)' % (itn, i)).body[0]
            asg.targets = [target]
            fn.body = [fn.body[0], asg] + body
            get = 'def __get%d():\n    __d = {}\n' % i
            for v in assigned:
                get += '    try:\n        __d[%r] = %s\n    except NameError:\n        pass\n' % (v, v)
            get += '    return __d\n'
            st = 'def __set%d(__d):\n    nonlocal %s\n' % (i, ', '.join(assigned))
            for v in assigned:
                st += '    if %r in __d: %s = __d[%r]\n' % (v, v, v)
            symarm = [fn] + ast.parse(get).body + ast.parse(st).body + ast.parse(
                '__vc__.loop(%s, __body%d, __get%d, __set%d, %d)' % (itn, i, i, i, i)).body
            # make sure names exist in the enclosing scope even if never reached
        iff = ast.If(test=ast.parse('__vc__.is_sym(%s)' % itn, mode='eval').body,
                     body=symarm, orelse=[node])
        for st in symarm:
            for q in ([st] + list(ast.walk(st)) if not isinstance(st, ast.FunctionDef) else [st]):
                if hasattr(q, 'lineno'):
                    q.lineno = q.end_lineno = orig.lineno
                    q.col_offset = q.end_col_offset = 0
        return [ast.copy_location(hdr, orig), ast.copy_location(iff, orig)]


def assigned_names_target(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned_names(body):
    s = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                s.add(n.id)

        def visit_FunctionDef(self, n):
            s.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                s.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                s.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
    for b in body:
        V().visit(b)
    return s


def has_escape(body):
    """return / break / yield / nested def belonging to this loop"""
    found = []

    class V(ast.NodeVisitor):
        def __init__(self):
            self.depth = 0

        def visit_For(self, n):
            self.depth += 1
            self.generic_visit(n)
            self.depth -= 1
        visit_While = visit_For

        def visit_Break(self, n):
            if self.depth == 0:
                found.append('break')

        def visit_Return(self, n):
            found.append('return')

        def visit_Yield(self, n):
            found.append('yield')

        def visit_Global(self, n):
            found.append('global')
        visit_Nonlocal = visit_Global

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    v = V()
    for b in body:
        v.visit(b)
    return found[0] if found else None


class ContinueToReturn(ast.NodeTransformer):
    def fix(self, body):
        return [self.visit(b) for b in body]

    def visit_For(self, n):
        return n
    visit_While = visit_For

    def visit_FunctionDef(self, n):
        return n

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_If(self, n):
        # the symbolic arm of a nested loop contains FunctionDefs, which are skipped
        self.generic_visit(n)
        return n


class VC(object):
    """runtime support referenced by transformed code"""

    @staticmethod
    def fmt(s, a):
        def sub(x):
            if isinstance(x, (Num, SBool, Cplx, Arr, SSeq)):
                return 0
            return x
        if isinstance(a, tuple):
            b = tuple(sub(x) for x in a)
        else:
            b = sub(a)
        made = a is not b and (not isinstance(a, tuple) or any(p is not q for p, q in zip(a, b)))
        try:
            r = s % b
        except TypeError:
            if made:
                return C.SText(s)
            raise
        return C.SText(r) if made else r

    @staticmethod
    def ftext(s):
        return C.SText(s) if '<sym>' in s else s

    @staticmethod
    def is_sym(x):
        return is_symseq(x)

    @staticmethod
    def elem(x, k):
        return seq_elem(x, k)

    @staticmethod
    def unsupported(msg):
        raise Unsupported(msg)

    @staticmethod
    def contains(x, s):
        if isinstance(s, (list, tuple)) and (isinstance(x, (Num, SBool)) or
                                             any(isinstance(v, (Num, SBool)) for v in s)):
            r = False
            for v in s:
                e = (x == v)
                if isinstance(e, Arr):
                    e = bool(e)
                r = C.bor(r, e)
            return r
        if isinstance(s, Arr):
            return symnp.np_any(s == x)
        if isinstance(s, SSeq):
            return symnp.np_any(s.as_arr() == x)
        return x in s

    @staticmethod
    def listcomp(f, it):
        if is_symseq(it):
            return SSeq(b_len(it), lambda k: f(seq_elem(it, k)))
        return [f(x) for x in it]

    @staticmethod
    def loop(it, body, get, set_, ident):
        from . import loops
        loops.run_loop(it, body, get, set_, ident)


# ---------------------------------------------------------- the loader
class Loader(object):
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.src = {}
        self.overrides = {}
        self.pkg_lazy = {}

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == 'falco':
            m = LazyPkg(self, 'falco')
            self.mods[name] = m
            m.__dict__['__file__'] = os.path.join(self.root, 'falco', '__init__.py')
            return m
        if name == 'falco.proper' or name.startswith('falco.proper.'):
            m = self.mods[name] = Stub(name)
            return m
        path, ispkg = self.path_of(name)
        if path is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        self.src[name] = src
        if name == 'falco.model':
            m2 = LazyPkg(self, name)
            self.mods[name] = m2
            m2.__dict__['__file__'] = path
            m = m2
        code = _CODE.get((path, src))
        if code is None:
            tree = self.xf(ast.parse(src))
            ast.fix_missing_locations(tree)
            code = _CODE[(path, src)] = compile(tree, path, 'exec')
        d = m.__dict__
        d['__name__'] = name
        d['__package__'] = name if ispkg else name.rsplit('.', 1)[0]
        b = dict(BUILTINS)
        b['__import__'] = self.imp
        d['__builtins__'] = b
        d['__vc__'] = VC
        exec(code, d)
        return m

    @staticmethod
    def xf(tree):
        x = Xform()
        tree.body = x.block(tree.body)
        return tree

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'falco':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if isinstance(m, LazyPkg):
                        getattr(m, f)
                    elif f != '*' and not hasattr(m, f) and self.path_of(name + '.' + f)[0]:
                        setattr(m, f, self.load(name + '.' + f))
                return m
            return self.load('falco')
        if top == 'numpy':
            if name == 'numpy' or fromlist:
                o = symnp.NP
                for p in name.split('.')[1:]:
                    o = getattr(o, p)
                return o
            return symnp.NP
        if top == 'math':
            return _Math()
        if name in self.overrides:
            return self.overrides[name]
        if name in REAL_OK or top in REAL_OK:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        s = self.mods.get('stub:' + top)
        if s is None:
            s = self.mods['stub:' + top] = Stub(top)
            if top == 'scipy':
                s.__dict__['fft'] = symnp.SCIPY_FFT
        if fromlist:
            for p in name.split('.')[1:]:
                s = getattr(s, p)
        return s


class LazyPkg(types.ModuleType):
    """package namespace whose submodules load on first attribute access"""

    def __init__(self, loader, name):
        types.ModuleType.__init__(self, name)
        self.__dict__['_ld'] = loader

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        nm = self.__name__
        ld = self.__dict__['_ld']
        if ld.path_of(nm + '.' + k)[0]:
            m = ld.load(nm + '.' + k)
            self.__dict__[k] = m
            return m
        if nm == 'falco' and not k.startswith('_'):
            # names star-imported into the package namespace
            for sub in STAR_MODS:
                if ld.path_of('falco.' + sub)[0] and k in top_names(ld.path_of('falco.' + sub)[0]):
                    return getattr(ld.load('falco.' + sub), k)
        if nm == 'falco.model' and not k.startswith('_'):
            for sub in ('models', 'jacobians'):
                pth = ld.path_of(nm + '.' + sub)[0]
                if pth and k in top_names(pth):
                    return getattr(ld.load(nm + '.' + sub), k)
        raise AttributeError('%s.%s' % (nm, k))


STAR_MODS = ('setup', 'util', 'imaging', 'dm', 'diff_dm', 'est', 'ctrl', 'hlc', 'wfsc', 'mask',
             'prop', 'zern', 'thinfilm', 'check', 'plot', 'fftutils')
_TOP = {}


def top_names(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _TOP:
        with open(path) as f:
            t = ast.parse(f.read())
        r = set()
        for n in t.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r.add(n.name)
            elif isinstance(n, ast.Assign):
                for q in n.targets:
                    if isinstance(q, ast.Name):
                        r.add(q.id)
        _TOP[key] = r
    return _TOP[key]


_CODE = {}
