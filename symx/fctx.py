"""Concrete (float) evaluation of a harness on the real code: replays and
translator validation.  Needs only numpy; runs under any python."""
import contextlib
import hashlib
import math
from fractions import Fraction

import numpy as np

RTOL = 1e-6


class AssumeFailed(Exception):
    pass


class Picks(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def unit_hash(name, attempt):
    h = hashlib.sha256(f'{name}/{attempt}'.encode()).digest()
    return Fraction(int.from_bytes(h[:4], 'big'), 2**32)


def nominal_real(name, lo, hi, attempt=0):
    """Deterministic generic rational inside the bounds."""
    u = unit_hash(name, attempt)
    if lo is not None:
        lo = Fraction(lo)
    if hi is not None:
        hi = Fraction(hi)
    if lo is not None and hi is not None:
        x = lo + (hi - lo)*(Fraction(15, 100) + Fraction(7, 10)*u)
        w = hi - lo
        den = 64
        while Fraction(1, den) > w/8 and den < 10**9:
            den *= 4
        y = x.limit_denominator(den)
        return y if lo < y < hi else x
    if lo is not None:
        return (lo + Fraction(1, 2) + Fraction(3, 2)*u).limit_denominator(64)
    if hi is not None:
        return (hi - Fraction(1, 2) - Fraction(3, 2)*u).limit_denominator(64)
    x = (-2 + 4*u).limit_denominator(64)
    return x if x != 0 else Fraction(1, 3)


def generic_bounds(rng, div):
    if rng == 'half':
        return 0.25/div, 2.9/div
    if rng == 'full':
        return 0.25/div, 6.0/div
    return -2.8/div, 2.8/div


class FloatCtx:
    symbolic = False

    def __init__(self, pyorb, picks, inputs, attempt=0, rtol=RTOL):
        self.pyorb = pyorb
        self.kepler = pyorb.kepler
        self.np = np
        self.p = Picks(picks)
        self.inputs = dict(inputs)
        self.attempt = attempt
        self.rtol = rtol
        self.results = []      # (name, ok, detail)
        self.values = []       # (name, a, b) in order of obligations
        self.used = {}

    # ----- inputs
    def real(self, name, lo=None, hi=None, closed=False, nom=None, fav=None):
        x = self.inputs.get(name)
        if x is None:
            x = float(nom if nom is not None
                      else nominal_real(name, *(fav or (lo, hi)),
                                        self.attempt))
        self.used[name] = x
        return float(x)

    def angle(self, name, lo=None, hi=None, div=1, rng='full', nom=None):
        x = self.inputs.get(name)
        if x is None:
            if nom is not None:
                x = float(nom)
            else:
                a, b = generic_bounds(rng, 1)
                if lo is not None:
                    a = max(a, float(lo)*1.0 + 1e-3)
                if hi is not None:
                    b = min(b, float(hi)*1.0 - 1e-3)
                x = float(a + (b - a)*float(unit_hash(name, self.attempt)))
        self.used[name] = x
        return float(x)

    def hyp(self, name, lo=None, hi=None, div=1, nom=None):
        x = self.inputs.get(name)
        if x is None:
            x = float(nom if nom is not None
                      else nominal_real(name, lo if lo is not None else -2,
                                        hi if hi is not None else 2,
                                        self.attempt))
        self.used[name] = x
        return float(x)

    def _whole(self, name, x, lo, hi):
        x = float(round(x))
        if lo is not None and x < lo:
            x = float(math.floor(lo) + 1)
        if hi is not None and x > hi:
            x = float(math.ceil(hi) - 1)
        self.used[name] = x
        return x

    def int_real(self, name, lo=None, hi=None):
        return self._whole(name, self.real(name, lo, hi), lo, hi)

    def int_angle(self, name, lo=None, hi=None, div=1):
        return self._whole(name, self.angle(name, lo=lo, hi=hi, div=div),
                           lo, hi)

    def int_hyp(self, name, lo=None, hi=None, div=1):
        return self._whole(name, self.hyp(name, lo, hi, div), lo, hi)

    def iarr(self, x):
        return np.array(np.round(np.array(x, dtype=float)), dtype=np.int64)

    def integer(self, name, lo, hi):
        x = self.inputs.get(name)
        if x is None:
            x = lo + int(unit_hash(name, self.attempt)*(hi - lo + 1))
        self.used[name] = int(x)
        return int(x)

    def boolean(self, name):
        x = bool(self.inputs.get(name, False))
        self.used[name] = x
        return x

    def arr(self, x):
        return np.array(x, dtype=np.float64)

    def scalar(self, x):
        return np.float64(x)

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    # ----- arithmetic helpers
    pi = math.pi
    cos = staticmethod(np.cos)
    sin = staticmethod(np.sin)
    tan = staticmethod(np.tan)
    sqrt = staticmethod(np.sqrt)
    cosh = staticmethod(np.cosh)
    sinh = staticmethod(np.sinh)
    tanh = staticmethod(np.tanh)
    cbrt = staticmethod(np.cbrt)

    @staticmethod
    def rad(x):
        return x*math.pi/180.0

    def isbad(self, x):
        return not np.all(np.isfinite(x))

    nan = math.nan

    concrete = True

    def known(self, name, x):
        x = np.asarray(x, dtype=float)
        bad = np.isnan(x)
        self._rec(name, not bad.any(), f'NaN at {np.argwhere(bad)[:3].tolist()}'
                  if bad.any() else '')

    def unknown(self, name, x):
        """Every entry is NaN."""
        for k, v in enumerate(np.asarray(x, dtype=float).reshape(-1)):
            self._rec(name if np.ndim(x) == 0 else f'{name}[{k}]',
                      np.isnan(v), f'{v!r} is not NaN')

    # ----- obligations
    def _rec(self, name, ok, detail=''):
        self.results.append((name, bool(ok), detail))

    def eq(self, name, a, b, scale=None, tol=None):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                self._rec(name, False, f'shapes {a.shape} {b.shape}')
                return
        s = 1.0 if scale is None else np.abs(np.asarray(scale, dtype=float))
        for k, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
            sk = s if np.ndim(s) == 0 else np.broadcast_to(
                s, a.shape).reshape(-1)[k]
            if np.isnan(x) and np.isnan(y):
                ok = True
            elif not (np.isfinite(x) and np.isfinite(y)):
                ok = bool(x == y)
            else:
                t = self.rtol*max(abs(x), abs(y), sk)
                if tol is not None:
                    t = max(t, tol)
                ok = abs(x - y) <= t
            nm = name if a.ndim == 0 else f'{name}[{k}]'
            self.values.append((nm, float(x), float(y)))
            self._rec(nm, ok, f'{x!r} vs {y!r}')

    def angle_eq(self, name, a, b):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.eq(name + '.cos', np.cos(a), np.cos(b))
        self.eq(name + '.sin', np.sin(a), np.sin(b))

    def in_range(self, name, x, lo=None, hi=None, lo_open=False, hi_open=False):
        for k, v in enumerate(np.asarray(x, dtype=float).reshape(-1)):
            nm = name if np.ndim(x) == 0 else f'{name}[{k}]'
            ok = np.isfinite(v)
            if lo is not None:
                ok = ok and v >= lo - self.rtol*max(1, abs(lo))
            if hi is not None:
                ok = ok and v <= hi + self.rtol*max(1, abs(hi))
            self._rec(nm, ok, f'{v!r} in [{lo}, {hi}]')

    def check(self, name, cond, detail=''):
        self._rec(name, bool(np.all(cond)), detail)

    def finite(self, name, x):
        for k, v in enumerate(np.asarray(x, dtype=float).reshape(-1)):
            nm = name if np.ndim(x) == 0 else f'{name}[{k}]'
            self._rec(nm, bool(np.isfinite(v)), repr(v))

    def printed(self, text):
        return float(text)

    def coarse(self):
        """Printed numbers have few digits."""
        self.rtol = 2e-3

    def raises(self, exc, f):
        try:
            f()
        except exc as e:
            return e
        return None

    def root(self, E, e, M):
        pass

    arctan = staticmethod(np.arctan)
    arctanh = staticmethod(np.arctanh)
    log = staticmethod(np.log)

    def snapshot(self, a):
        return np.array(a, dtype=float, copy=True)


UNINIT = 725000.0


@contextlib.contextmanager
def dirty_memory():
    """Uninitialised arrays hold a fixed value: runs are reproducible."""
    old = np.empty, np.empty_like

    def filled(f):
        def g(*a, **k):
            r = f(*a, **k)
            if r.dtype.kind in 'fiu':
                r[...] = UNINIT if r.dtype.itemsize > 2 else 77
            return r
        return g
    np.empty, np.empty_like = filled(np.empty), filled(np.empty_like)
    try:
        yield
    finally:
        np.empty, np.empty_like = old


def run_float(fn, pyorb, picks, inputs, attempt=0, rtol=RTOL):
    """Returns (ctx, exception or None); exception AssumeFailed = not valid."""
    cx = FloatCtx(pyorb, picks, inputs, attempt, rtol)
    ex = None
    with np.errstate(all='ignore'), dirty_memory():
        try:
            fn(cx)
        except AssumeFailed as e:
            ex = e
        except Exception as e:
            ex = e
    return cx, ex
