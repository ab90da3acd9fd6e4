"""Contracts of the worker pools used by the code under proof.

Thread pools: every task is run once and its result is returned in the order of submission (documented behaviour of
concurrent.futures).  The tasks share the caller's objects, so at the points a contract names (World.point, called from
the stub of the expensive callee) every *other* task is run up to its own such point: what a task computes must not
depend on what the other tasks have stored in the shared objects by then.
Process pools: results in order; the tasks work on copies (pickling), so there is no interference."""
import copy


class Parked(Exception):
    pass


class World(object):
    def __init__(self):
        self.tasks, self.cur, self.nested = [], None, False

    def point(self):
        if self.nested:
            raise Parked()
        if self.cur is None:
            return
        for k, t in enumerate(self.tasks):
            if k != self.cur:
                self.nested = True
                try:
                    t()
                except Parked:
                    pass
                finally:
                    self.nested = False

    def run(self, tasks):
        """thread tasks"""
        old = self.tasks, self.cur
        self.tasks = tasks
        out = []
        try:
            for k, t in enumerate(tasks):
                self.cur = k
                out.append(t())
        finally:
            self.tasks, self.cur = old
        return out


class Done(object):
    def __init__(self, v):
        self.v = v

    def result(self, *a):
        return self.v
    get = result

    def done(self):
        return True


class Later(object):
    def __init__(self, ex, k):
        self.ex, self.k = ex, k

    def result(self, *a):
        if not hasattr(self.ex, 'out') or len(self.ex.out) < len(self.ex.pend):
            n = len(getattr(self.ex, 'out', []))
            self.ex.out = getattr(self.ex, 'out', []) + self.ex.w.run(self.ex.pend[n:])
        return self.ex.out[self.k]

    def done(self):
        return True


def install(g, module):
    w = World()

    class Executor(object):
        w = None
        def __init__(self, *a, **k):
            self.pend = []

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def map(self, f, *its, **k):
            return w.run([(lambda a=a: f(*a)) for a in zip(*[list(i) for i in its])])

        def submit(self, f, *a, **k):
            self.pend.append(lambda: f(*a, **k))
            return Later(self, len(self.pend) - 1)

        def shutdown(self, *a, **k):
            pass

    Executor.w = w

    def iso(a):
        if g.sym:
            return a
        try:
            return copy.deepcopy(a)
        except Exception:
            return a

    class Pool(object):
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def starmap(self, f, args, *a, **k):
            return [f(*iso(x)) for x in args]

        def map(self, f, args, *a, **k):
            return [f(iso(x)) for x in args]
        imap = map

        def apply_async(self, f, args=(), kwds={}):
            return Done(f(*args, **kwds))

        def close(self):
            pass
        join = terminate = close
    got = 0
    for nm, v in (('PoolExecutor', Executor), ('ThreadPoolExecutor', Executor), ('multiprocessing', g.obj(Pool=Pool))):
        if g.has('falco.%s.%s' % (module, nm)):
            g.stub('falco.%s.%s' % (module, nm), v)
            got += 1
    return w
