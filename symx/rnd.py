"""Floating point arithmetic with rounding, as an abstraction.

Every operation on symbolic values gives a fresh real with the facts that hold
for each correctly rounded binary operation without overflow and underflow:
signs, monotonicity, exact special cases (adding zero, scaling by powers of
two, x/x, sqrt(x*x)) and the relative error of one rounding.  The facts are
linear.  Elementary functions give values with their ranges and the facts at
the ends of their domains.  Values are compared exactly.

So a branch is feasible here if it is feasible for some rounding errors; what
the solver refutes cannot happen in floating point.
"""
from fractions import Fraction
import math

import z3

from . import core as C
from . import poly as P
from .core import Sym, lift, ONE

U = Fraction(1, 2**50)


def _pow2(f):
    f = abs(Fraction(f))
    n, d = f.numerator, f.denominator
    return f != 0 and n & (n - 1) == 0 and d & (d - 1) == 0


def _key(x):
    return C.freeze(x.n)


def _z(x):
    return C.E().zpoly(x.n)


def _sign_norm(x):
    """(sign, x without its sign): f(-x) = -f(x) holds exactly."""
    for m in sorted(x.n):
        return (-1, Sym(P.pneg(x.n))) if x.n[m] < 0 else (1, x)
    return 1, x


def _q(f):
    return z3.Q(f.numerator, f.denominator)


def _scale(x, f):
    return Sym(P.pscale(x.n, Fraction(f)))


def _fresh(name, deps, fn, facts, lo=None, hi=None, lo_open=False):
    e = C.E()
    v = e.fresh(name, lo=lo, hi=hi, lo_open=lo_open, fn=fn, kind='fresh')
    ids = set()
    for x in deps:
        ids |= P.pvars(x.n)
    for f in facts(v.z):
        e.con(v, f, ids)
    return Sym(P.pvar(v.id))


def add(x, y):
    if not x.n:
        return y
    if not y.n:
        return x
    if x.is_const() and y.is_const():
        return Sym(P.pconst(x.const() + y.const()))
    s = P.padd(x.n, y.n)
    if not s:
        return Sym({})
    e = C.E()
    if len(s) == 1 and P.pvars(x.n) == P.pvars(y.n):
        (m, c), = s.items()
        if _pow2(c):                    # x + x is exact
            return Sym(s)
    a, b = sorted((x, y), key=lambda t: repr(_key(t)))
    sg, _ = _sign_norm(a)
    if sg < 0:
        return _neg(add(_neg(a), _neg(b)))
    k = ('r+', _key(a), _key(b))
    if k in e.cache:
        return e.cache[k]
    X, Y = _z(a), _z(b)
    S = X + Y

    def facts(r):
        yield z3.And((S > 0) == (r > 0), (S < 0) == (r < 0))
        yield z3.And(z3.Implies(Y >= 0, r >= X), z3.Implies(Y <= 0, r <= X),
                     z3.Implies(X >= 0, r >= Y), z3.Implies(X <= 0, r <= Y))
        yield z3.If(S >= 0, z3.And(r >= S*_q(1 - U), r <= S*_q(1 + U)),
                    z3.And(r <= S*_q(1 - U), r >= S*_q(1 + U)))
    r = _fresh('fl', (a, b), lambda ev: ev.rat(a) + ev.rat(b), facts)
    e.cache[k] = r
    return r


def _neg(x):
    return Sym(P.pneg(x.n))


def _signs(r, X, Y):
    return z3.And(
        z3.Implies(z3.Or(z3.And(X > 0, Y > 0), z3.And(X < 0, Y < 0)), r > 0),
        z3.Implies(z3.Or(z3.And(X > 0, Y < 0), z3.And(X < 0, Y > 0)), r < 0))


def _within(r, S):
    """|r - S| <= U |S|"""
    return z3.If(S >= 0, z3.And(r >= S*_q(1 - U), r <= S*_q(1 + U)),
                 z3.And(r <= S*_q(1 - U), r >= S*_q(1 + U)))


def _ge(R, X):
    """|R| >= |X|"""
    aR = z3.If(R >= 0, R, -R)
    aX = z3.If(X >= 0, X, -X)
    return aR >= aX


def mul(x, y):
    if not x.n or not y.n:
        return Sym({})
    for a, b in ((x, y), (y, x)):
        if a.is_const():
            if b.is_const():
                return Sym(P.pconst(a.const()*b.const()))
            if _pow2(a.const()):
                return _scale(b, a.const())
    sx, x = _sign_norm(x)
    sy, y = _sign_norm(y)
    r = _mul(*sorted((x, y), key=lambda t: repr(_key(t))))
    return r if sx*sy > 0 else _neg(r)


def _mul(x, y):
    e = C.E()
    k = ('r*', _key(x), _key(y))
    if k in e.cache:
        return e.cache[k]
    X, Y = _z(x), _z(y)
    square = x.n == y.n
    one = z3.RealVal(1)

    def facts(r):
        yield _signs(r, X, Y)
        yield (r == 0) == z3.Or(X == 0, Y == 0)
        if x.is_const() or y.is_const():
            yield _within(r, X*Y)
            return
        yield z3.Implies(_ge(one, Y), _ge(X, r))
        yield z3.Implies(_ge(Y, one), _ge(r, X))
        if not square:
            yield z3.Implies(_ge(one, X), _ge(Y, r))
            yield z3.Implies(_ge(X, one), _ge(r, Y))
    r = _fresh('fl', (x, y), lambda ev: ev.rat(x)*ev.rat(y), facts,
               lo=Fraction(0) if square else None)
    e.cache[k] = r
    if square:
        e.cache.setdefault('squares', []).append((x, r))
    return r


def div(x, y):
    if x.is_const() and y.is_const():
        if not y.n:
            return C.bad('inf' if x.n else 'nan')
        return Sym(P.pconst(x.const()/y.const()))
    e = C.E()
    if not y.n or e.decide(C.cmp0(y, 'eq')):
        if not x.n or e.decide(C.cmp0(x, 'eq')):
            return C.bad('nan')
        return C.bad('inf')
    if not x.n:
        return Sym({})
    if y.is_const() and _pow2(y.const()):
        return _scale(x, 1/y.const())
    if x.n == y.n:
        return Sym(ONE)
    sx, x = _sign_norm(x)
    sy, y = _sign_norm(y)
    if x.n == y.n:
        return Sym(P.pconst(sx*sy))
    k = ('r/', _key(x), _key(y))
    r = e.cache.get(k)
    if r is None:
        X, Y = _z(x), _z(y)
        one = z3.RealVal(1)
        recips = list(e.cache.setdefault('recips', []))

        def facts(r):
            yield _signs(r, X, Y)
            yield (r == 0) == (X == 0)
            if y.is_const():
                yield _within(r, X/Y)
                return
            if x.is_const():
                # c/y against b/z: compared like c z and b y
                c = x.const()
                for b, z, q in recips:
                    Z, Q = _z(z), _z(q)
                    pos = z3.And(Y > 0, Z > 0)
                    yield z3.Implies(
                        z3.And(pos, _q(c)*Z >= _q(b)*Y), r >= Q)
                    yield z3.Implies(
                        z3.And(pos, _q(c)*Z <= _q(b)*Y), r <= Q)
            yield z3.Implies(_ge(Y, X), _ge(one, r))
            yield z3.Implies(_ge(X, Y), _ge(r, one))
            if not x.is_const():
                yield z3.Implies(_ge(one, Y), _ge(r, X))
                yield z3.Implies(_ge(Y, one), _ge(X, r))
        deps = [x, y]
        if x.is_const():
            deps += [t for b, z, q in recips for t in (z, q)]
        r = _fresh('fl', deps, lambda ev: ev.rat(x)/ev.rat(y), facts)
        e.cache[k] = r
        if x.is_const():
            e.cache['recips'].append((x.const(), y, r))
    return r if sx*sy > 0 else _neg(r)


def sqrt(x):
    e = C.E()
    if not x.n:
        return Sym({})
    k = ('rq', _key(x))
    if k in e.cache:
        return e.cache[k]
    if e.decide(C.cmp0(x, 'lt')):
        return C.bad('nan')
    X = _z(x)
    one = z3.RealVal(1)
    roots = e.cache.setdefault('roots', [])
    # each comparison with an earlier square or root
    squares = [(a, q) for a, q in e.cache.get('squares', [])]

    def facts(r):
        yield z3.And((r == 0) == (X == 0), z3.Implies(X > 0, r > 0),
                     (r >= 1) == (X >= 1), z3.Implies(X <= 1, r <= 1),
                     z3.Implies(X >= 1, r <= X),
                     z3.Implies(X <= 1, r >= X))
        for a, q in squares:
            A, Q = _z(a), _z(q)
            yield z3.And(z3.Implies(X >= Q, _ge(r, A)),
                         z3.Implies(X <= Q, _ge(A, r)))
        for b, s in roots:
            B, S = _z(b), _z(s)
            yield z3.And(z3.Implies(X >= B, r >= S),
                         z3.Implies(X <= B, r <= S))
    deps = [x] + [t for p in squares + roots for t in p]
    r = _fresh('fl', deps, lambda ev: math.sqrt(max(0.0, ev.rat(x))), facts,
               lo=Fraction(0))
    roots.append((x, r))
    e.cache[k] = r
    return r


def hypot(x, y):
    """At least as long as either component, zero only for zeros."""
    e = C.E()
    if not x.n and not y.n:
        return Sym({})
    k = ('rh', _key(x), _key(y))
    if k in e.cache:
        return e.cache[k]
    X, Y = _z(x), _z(y)

    def facts(r):
        yield z3.And(_ge(r, X), _ge(r, Y),
                     (r == 0) == z3.And(X == 0, Y == 0),
                     z3.Implies(Y == 0, _ge(X, r)),
                     z3.Implies(X == 0, _ge(Y, r)))
    r = _fresh('fl', (x, y), lambda ev: math.hypot(ev.rat(x), ev.rat(y)),
               facts, lo=Fraction(0))
    e.cache[k] = r
    return r


# domain (None: everywhere), range, float function
ARC = Fraction(1001, 1000)       # 2 sin(1.001/2) = 0.9597...
CHORD = Fraction(96, 100)
NEAR = Fraction(1, 10**8)          # arccos(1 - 2**-53) = 1.49e-8


def elem(name, x, fn, lo=None, hi=None, facts=lambda r, X: (), lo_open=False):
    e = C.E()
    k = ('re', name, _key(x))
    if k in e.cache:
        return e.cache[k]
    X = _z(x)
    r = _fresh(name, (x,), lambda ev: fn(ev.rat(x)), lambda r: facts(r, X),
               lo, hi, lo_open)
    e.cache[k] = r
    return r


def _num(x, f):
    return Sym(P.pconst(C.snap(f(float(x.const())))))


def arccos(x):
    e = C.E()
    if e.decide(C.cmp0(x - 1, 'gt')) or e.decide(C.cmp0(x + 1, 'lt')):
        return C.bad('nan')
    pi = _q(C.PI)

    def facts(r, X):
        yield z3.And((r == 0) == (X == 1), (X == -1) == (r == pi),
                     z3.Implies(X < 1, r >= _q(NEAR)),
                     z3.Implies(X > -1, r <= pi - _q(NEAR)))
    return elem('acos', x, lambda v: math.acos(max(-1.0, min(1.0, v))),
                Fraction(0), C.PI, facts)


def arcsin(x):
    e = C.E()
    if e.decide(C.cmp0(x - 1, 'gt')) or e.decide(C.cmp0(x + 1, 'lt')):
        return C.bad('nan')
    return elem('asin', x, lambda v: math.asin(max(-1.0, min(1.0, v))),
                -C.HALF, C.HALF,
                lambda r, X: [z3.And((r > 0) == (X > 0), (r < 0) == (X < 0))])


def arctan(x):
    return elem('atan', x, math.atan, -C.HALF, C.HALF,
                lambda r, X: [z3.And((r > 0) == (X > 0), (r < 0) == (X < 0))])


def arctan2(y, x):
    e = C.E()
    k = ('ra2', _key(y), _key(x))
    if k not in e.cache:
        Y = _z(y)
        e.cache[k] = _fresh(
            'atan2', (y, x), lambda ev: math.atan2(ev.rat(y), ev.rat(x)),
            lambda r: [z3.And(z3.Implies(Y > 0, r > 0),
                              z3.Implies(Y < 0, r < 0))], -C.PI, C.PI)
    return e.cache[k]


def sin(x):
    """Also: a chord of an arc of length 1 is shorter than 0.96."""
    e = C.E()
    k = ('re', 'sin', _key(x))
    if k in e.cache:
        return e.cache[k]
    sines = e.cache.setdefault('sines', [])
    X = _z(x)

    def facts(r):
        yield z3.Implies(X == 0, r == 0)
        for y, s in sines:
            D, d = X - _z(y), r - _z(s)
            yield z3.Implies(z3.And(D <= _q(ARC), -D <= _q(ARC)),
                             z3.And(d <= _q(CHORD), -d <= _q(CHORD)))
    r = _fresh('sin', [x] + [t for p in sines for t in p],
               lambda ev: math.sin(ev.rat(x)), facts, Fraction(-1),
               Fraction(1))
    sines.append((x, r))
    e.cache[k] = r
    return r


def cos(x):
    return elem('cos', x, math.cos, Fraction(-1), Fraction(1),
                lambda r, X: [z3.Implies(X == 0, r == 1)])


def tan(x):
    return elem('tan', x, math.tan)


def sinh(x):
    return elem('sinh', x, math.sinh, facts=lambda r, X: [
        z3.And((r > 0) == (X > 0), (r < 0) == (X < 0))])


def cosh(x):
    return elem('cosh', x, math.cosh, Fraction(1))


def tanh(x):
    return elem('tanh', x, math.tanh, Fraction(-1), Fraction(1),
                facts=lambda r, X: [
        z3.And((r > 0) == (X > 0), (r < 0) == (X < 0))])


def arctanh(x):
    e = C.E()
    if e.decide(C.cmp0(x - 1, 'ge')) or e.decide(C.cmp0(x + 1, 'le')):
        return C.bad('nan')
    return elem('atanh', x, lambda v: math.atanh(
        max(-1 + 1e-16, min(1 - 1e-16, v))))


def cbrt(x):
    return elem('cbrt', x, lambda v: math.copysign(abs(v)**(1/3), v),
                facts=lambda r, X: [
        z3.And((r > 0) == (X > 0), (r < 0) == (X < 0))])


def log(x):
    e = C.E()
    if e.decide(C.cmp0(x, 'lt')):
        return C.bad('nan')
    return elem('log', x, lambda v: math.log(v) if v > 0 else -math.inf)


def exp(x):
    return elem('exp', x, math.exp, Fraction(0), lo_open=True)


def mod(x, m):
    mm = m.const()
    return elem(f'mod{mm}', x, lambda v: v % float(mm), Fraction(0), mm,
                lambda r, X: [z3.Implies(z3.And(X >= 0, X < _q(mm)), r == X)])


def radians(x):
    return mul(x, Sym(P.pconst(C.PI/180)))


def degrees(x):
    return mul(x, Sym(P.pconst(180/C.PI)))
