"""Registry of harnesses."""
import importlib
import itertools
import os
import sys

HARNESSES = []
MODULES = ('kepler_state', 'kepler_anomaly', 'kepler_misc', 'orbit_state',
           'orbit_more', 'units', 'missing', 'integers', 'rounding',
           'many')


class Harness:
    def __init__(self, prop, fn, picks, env, opts, quick, thorough):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self._picks = picks
        self.env = env
        self.opts = opts
        self.q = quick
        self.t = thorough

    def combos(self, tier):
        p = self._picks
        if callable(p):
            p = p(tier)
        if isinstance(p, list):
            return p
        p = dict(p or {})
        keys = list(p)
        return [dict(zip(keys, v)) for v in itertools.product(
            *[p[k] for k in keys])]

    def options(self, tier):
        o = dict(self.opts)
        o.update(self.q if tier == 'quick' else self.t)
        return o


def harness(prop, picks=None, env='pure', quick=None, thorough=None, **opts):
    def deco(fn):
        HARNESSES.append(Harness(prop, fn, picks, env, opts, quick or {},
                                 thorough or {}))
        return fn
    return deco


def load_all():
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if base not in sys.path:
        sys.path.insert(0, base)
    if not HARNESSES:
        for m in MODULES:
            if os.path.exists(os.path.join(base, 'checks', m + '.py')):
                importlib.import_module('checks.' + m)
    return HARNESSES


def get(name):
    for h in load_all():
        if h.name == name:
            return h
    raise KeyError(name)
