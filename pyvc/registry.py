"""Contract registry."""
import importlib
import os
import sys

REG = {}


class Contract(object):
    def __init__(self, fn, prop, name, target, bounded=False, trials=None, no_concrete=False,
                 timeout_ms=None, budget_s=None, note=None, tier='quick'):
        self.fn = fn
        self.prop = prop
        self.name = name
        self.target = target          # functions under contract
        self.bounded = bounded        # concrete only, stated bound in note
        self.trials = trials
        self.no_concrete = no_concrete
        self.timeout_ms = timeout_ms
        self.budget_s = budget_s
        self.note = note
        self.tier = tier


def contract(prop, target, **kw):
    if isinstance(target, str):
        target = [target]

    def deco(fn):
        name = '%s.%s' % (prop, fn.__name__)
        if name in REG:
            raise ValueError('duplicate contract ' + name)
        REG[name] = Contract(fn, prop, name, target, **kw)
        return fn
    return deco


def bounded(prop, target, note, **kw):
    return contract(prop, target, bounded=True, note=note, **kw)


def load_all():
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts')
    here = os.path.abspath(here)
    if here not in sys.path:
        sys.path.insert(0, here)
    for f in sorted(os.listdir(here)):
        if f.endswith('.py') and f[0] in 'cp' and not f.startswith('_'):
            importlib.import_module(f[:-3])
    return REG
