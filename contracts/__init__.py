"""Contracts on the functions of whenever/_pywhenever.py.

A contract is a Python function over a context `c`: it declares symbolic
inputs that satisfy the precondition (the class invariants), runs the real
function, and states postconditions with `c.check`.
"""
REGISTRY = {}


class Contract:
    def __init__(self, prop, fn, cases, name, sys, weight, thorough, symbolic, seconds):
        self.prop, self.fn, self.name = prop, fn, name
        self.cases = cases or [{}]
        self.sys, self.weight, self.thorough = sys, weight, thorough
        self.symbolic = symbolic
        self.seconds = seconds


def contract(prop, cases=None, name=None, sys=False, weight=1, thorough=False, symbolic=True,
             seconds=None):
    def deco(fn):
        n = name or fn.__name__
        for p in ([prop] if isinstance(prop, str) else prop):
            key = f"{p}.{n}"
            assert key not in REGISTRY, key
            REGISTRY[key] = Contract(p, fn, cases, key, sys, weight, thorough, symbolic, seconds)
        return fn
    return deco


def product(**kw):
    import itertools
    ks = list(kw)
    return [dict(zip(ks, vs)) for vs in itertools.product(*kw.values())]


def load_all():
    import importlib, pkgutil
    for m in pkgutil.iter_modules(__path__):
        importlib.import_module(f"{__name__}.{m.name}")
    return REGISTRY
