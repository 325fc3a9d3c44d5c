"""Conversion functions of pyorb.kepler as uninterpreted functions.

Used by the checks of the orbit object: what the conversions compute is
decided by the K checks; here the object has to call them with the right
arguments at the right time.  Facts assumed of them (all decided by K checks):
the anomaly conversions are inverse to each other and composed through the
eccentric anomaly, closed orbits are periodic in their anomalies, a Cartesian
state is recovered from the elements it has, elements are recovered from
equinoctial elements; sizes are positive, eccentricities not negative.
"""
from fractions import Fraction

import numpy as np

from . import core as C
from . import poly as P
from . import shim as S
from .core import Sym, lift

REAL = [None]


def _red(x):
    R = C.E().ring
    x = lift(x)
    if x.bad:
        return x
    return Sym(R.reduce(x.n), R.reduce(x.d))


def turns(x):
    """x without whole turns."""
    if x.bad:
        return x
    L = C.linear_rat(x)
    if L is None:
        return x
    ang, ints, c0, rest = L
    e = C.E()
    for v, k in ints.items():
        if (k/(2*C.PI)).denominator == 1:
            x = x - Sym(P.pscale(P.pvar(v), k))
    k = c0/(2*C.PI)
    n = k.numerator//k.denominator
    if n:
        x = x - Sym(P.pconst(n*2*C.PI))
    return _red(x)


def closed(e):
    if e.is_const():
        return e.const() < 1
    if len(e.n) == 1 and P.is_const(e.d):
        (m, k), = e.n.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            v = C.E().vars[m[0][0]]
            if v.hi is not None and (v.hi < 1 or (v.hi == 1 and v.hi_open)):
                return True
    return C.E().static(C.cmp0(e - Sym(C.ONE), 'lt')) is True


def angle_var(name, fn):
    eng = C.E()
    v = eng.new(name, 'angle')
    c, s = eng.trig_pair(name, v.id)
    v.info = C.Angle(c, s, 'free')
    v.fn = fn
    return Sym(P.pvar(v.id))


def real_var(name, fn, lo=None, lo_open=False, hi=None):
    v = C.E().fresh(name, lo=lo, lo_open=lo_open, hi=hi, fn=fn, kind='uf')
    return Sym(P.pvar(v.id))


def nice(opts):
    """Options that solve Kepler's equation to (nearly) full precision."""
    if not opts:
        return None
    o = dict(tol=1e-12, max_iter=5000, degree=5)
    o.update(opts)
    if o['tol'] <= 1e-8 and o['max_iter'] >= 50 and 2 <= o['degree'] <= 8:
        return None
    return tuple(sorted(opts.items()))


def _zero(d):
    return not d.bad and not C.E().ring.reduce(d.n)


def find(fam, args, period):
    """An application to arguments that are equal (up to whole turns)."""
    eng = C.E()
    for old, out in eng.uf.setdefault(fam, []):
        for k, (a, b) in enumerate(zip(args, old)):
            if a.n == b.n and a.d == b.d:
                continue
            d = a - b
            if _zero(d):
                continue
            if k in period and _zero(turns(_red(d))):
                continue
            break
        else:
            return out
    return None


def put(fam, args, out):
    C.E().uf.setdefault(fam, []).append((list(args), out))


# ------------------------------------------------------------------ anomalies
def anomaly(which, x, e, opts=None):
    """which: 'ET', 'TE', 'MT', 'TM' (eccentric/mean from and to true)."""
    eng = C.E()
    x, e = _red(x), _red(e)
    if x.bad or e.bad:
        return C.bad()
    if opts is not None:
        which = which + repr(opts)
    per = (0,) if closed(e) else ()
    r = find(which, (x, e), per)
    if r is not None:
        return r
    kind = which[:2]

    def fn(ev):
        K = REAL[0]
        a, b = ev.rat(x), ev.rat(e)
        if kind == 'ET':
            return float(K.eccentric_to_true(a, b))
        if kind == 'TE':
            return float(K.true_to_eccentric(a, b))
        if kind == 'TM':
            return float(K.true_to_mean(a, b))
        return float(K.mean_to_true(
            a, b, solver_options=None if opts is None else dict(opts)))
    r = angle_var(which[:2], fn)
    put(which, (x, e), r)
    if opts is None:
        put(kind[::-1], (r, e), x)
    return r


def _anom_fn(parts, options=False):
    def f(x, e, degrees=False, solver_options=None):
        opts = nice(solver_options)
        if isinstance(x, np.ndarray) and x.ndim == 0 and degrees:
            # a number after the conversion to radians
            x = x[()]
        xa, ea = S._obj0(x), S._obj0(e)
        if isinstance(x, np.ndarray) and isinstance(e, np.ndarray) \
                and xa.shape != ea.shape:
            raise TypeError(f'Input dimensions does not agree '
                            f'{xa.shape} != {ea.shape}')
        xb, eb = np.broadcast_arrays(xa, ea)
        r = np.empty(xb.shape, dtype=object)
        rf = r.reshape(-1)
        for k, (a, b) in enumerate(zip(xb.reshape(-1), eb.reshape(-1))):
            a = lift(a)
            if degrees:
                a = C.radians(a)
            for p in parts:
                a = anomaly(p, a, b, opts if p == 'MT' else None)
            if degrees:
                a = C.degrees(a)
            rf[k] = a
        if r.ndim == 0:
            return r[()]
        return r.view(S.SArr)
    if options:
        return f

    def g(x, e, degrees=False):
        return f(x, e, degrees)
    return g


# ----------------------------------------------------------------- conversions
def _memo(fn):
    """Evaluates the real conversion of a column once per witness."""
    def at(k):
        def g(ev):
            m = ev.__dict__.setdefault('cols', {})
            if id(fn) not in m:
                m[id(fn)] = fn(ev)
            return float(m[id(fn)][k])
        return g
    return at


def _per(e):
    return (3, 4, 5) if closed(e) else (3, 4)


def unknown(kep):
    """Heights above the reference plane do not depend on the node; all else
    is unknown if an argument is (decided by K22)."""
    if any(x.bad for k, x in enumerate(kep) if k != 4):
        return [C.bad()]*6
    z, vz = (real_var(n, lambda ev: float('nan')) for n in ('z', 'vz'))
    return [C.bad(), C.bad(), z, C.bad(), C.bad(), vz]


def KC(kep, mu):
    eng = C.E()
    kep = [_red(x) for x in kep]
    mu = _red(mu)
    if any(x.bad for x in kep) or mu.bad:
        return unknown(kep) if not mu.bad else [C.bad()]*6
    out = find('KC', kep + [mu], _per(kep[1]))
    if out is not None:
        return list(out)
    at = _memo(lambda ev: REAL[0].kep_to_cart(
        np.array([ev.rat(x) for x in kep]), mu=ev.rat(mu)))
    out = [real_var(n, at(k)) for k, n in enumerate(
        ('x', 'y', 'z', 'vx', 'vy', 'vz'))]
    put('KC', kep + [mu], out)
    return list(out)


def CK(cart, mu):
    eng = C.E()
    cart = [_red(x) for x in cart]
    mu = _red(mu)
    if any(x.bad for x in cart) or mu.bad:
        return [C.bad()]*6
    out = find('CK', cart + [mu], ())
    if out is not None:
        return list(out)
    at = _memo(lambda ev: REAL[0].cart_to_kep(
        np.array([ev.rat(x) for x in cart]), mu=ev.rat(mu)))
    out = [real_var('a', at(0), Fraction(0), True),
           real_var('e', at(1), Fraction(0)),
           real_var('i', at(2), Fraction(0), False, C.PI),
           angle_var('om', at(3)), angle_var('OM', at(4)),
           angle_var('nu', at(5))]
    put('CK', cart + [mu], out)
    put('KC', out + [mu], cart)
    return list(out)


def KE(kep):
    eng = C.E()
    kep = [_red(x) for x in kep]
    if any(x.bad for x in kep):
        return [C.bad()]*6
    out = find('KE', kep, _per(kep[1]))
    if out is not None:
        return list(out)
    at = _memo(lambda ev: REAL[0].kep_to_equi(
        np.array([ev.rat(x) for x in kep])))
    out = [kep[0]] + [real_var(n, at(k + 1)) for k, n in enumerate('hkpq')] \
        + [angle_var('lam', at(5))]
    put('KE', kep, out)
    put('EK', out, kep)
    return list(out)


def EK(q):
    eng = C.E()
    q = [_red(x) for x in q]
    if any(x.bad for x in q):
        return [C.bad()]*6
    out = find('EK', q, (5,))
    if out is not None:
        return list(out)
    at = _memo(lambda ev: REAL[0].equi_to_kep(
        np.array([ev.rat(x) for x in q])))
    out = [q[0], real_var('e', at(1), Fraction(0)),
           real_var('i', at(2), Fraction(0), False, C.PI),
           angle_var('om', at(3)), angle_var('OM', at(4)),
           angle_var('M', at(5))]
    put('EK', q, out)
    put('KE', out, q)
    return list(out)


def _columns(f, ain, aout, with_mu):
    def g(arr, mu=None, degrees=False):
        if not isinstance(arr, np.ndarray):
            raise TypeError(f'Input data is not a numpy array: {type(arr)}')
        if arr.shape[0] != 6:
            raise ValueError(f'Input data does not have at least 6 variables '
                             f'along axis 0: input shape is {arr.shape}')
        vec = arr.ndim < 2
        a = np.asarray(arr, dtype=object).reshape(6, -1)
        N = a.shape[1]
        if with_mu:
            mus = S._obj0(mu)
            if mus.ndim and mus.shape[0] not in (1, N):
                raise ValueError(f'shapes {arr.shape} {mus.shape}')
            mus = np.broadcast_to(mus, (N,))
        r = np.empty((6, N), dtype=object)
        for k in range(N):
            col = [lift(x) for x in a[:, k]]
            if degrees:
                for j in ain:
                    col[j] = C.radians(col[j])
            out = f(col, mus[k]) if with_mu else f(col)
            if degrees:
                for j in aout:
                    out[j] = C.degrees(out[j])
            r[:, k] = out
        r = r.view(S.SArr)
        return r.reshape(6) if vec else r
    return g


def hooks():
    kc = _columns(KC, (2, 3, 4, 5), (), True)
    ck = _columns(CK, (), (2, 3, 4, 5), True)
    ke = _columns(KE, (2, 3, 4, 5), (5,), False)
    ek = _columns(EK, (5,), (2, 3, 4, 5), False)

    def hook(mod):
        d = mod.GM_sol
        mod.kep_to_cart = lambda kep, mu=d, degrees=False: kc(kep, mu, degrees)
        mod.cart_to_kep = lambda cart, mu=d, degrees=False: ck(
            cart, mu, degrees)
        mod.kep_to_equi = lambda kep, degrees=False: ke(kep, None, degrees)
        mod.equi_to_kep = lambda equi, degrees=False: ek(equi, None, degrees)
        mod.eccentric_to_true = _anom_fn(['ET'])
        mod.true_to_eccentric = _anom_fn(['TE'])
        mod.true_to_mean = _anom_fn(['TM'])
        mod.eccentric_to_mean = _anom_fn(['ET', 'TM'])
        m2t = _anom_fn(['MT'], True)
        m2e = _anom_fn(['MT', 'TE'], True)

        def mean_to_true(M, e, solver_options=None, degrees=False):
            return m2t(M, e, degrees, solver_options)

        def mean_to_eccentric(M, e, solver_options=None, degrees=False):
            return m2e(M, e, degrees, solver_options)
        mod.mean_to_true = mean_to_true
        mod.mean_to_eccentric = mean_to_eccentric
    return {'pyorb.kepler': hook}
