"""Stand-ins for functions of the package that are decided by other checks.

solver(): the iterative solver of Kepler's equation is replaced by its
contract (decided by K10): it returns the root of the equation it is given.
The root exists and is unique for every mean anomaly when e < 1 and e > 1.
"""
import math

from . import core as C
from . import poly as P
from .core import Sym, lift


def num_root(M, e):
    """Root of Kepler's equation (floats)."""
    if e > 1:
        x = math.asinh(M/e)
        for _ in range(200):
            d = (e*math.sinh(x) - x - M)/(e*math.cosh(x) - 1)
            x -= d
            if abs(d) < 1e-15*max(1, abs(x)):
                break
        return x
    k = round(M/(2*math.pi))
    m = M - 2*math.pi*k
    lo, hi = -math.pi, math.pi
    for _ in range(200):
        x = (lo + hi)/2
        if x - e*math.sin(x) < m:
            lo = x
        else:
            hi = x
    return (lo + hi)/2 + 2*math.pi*k


def _same(a, b):
    return not (a - b).n


def _turns(d):
    """k when d == 2 pi k."""
    if not d.is_const():
        return None
    k = d.const()/(2*C.PI)
    return k if k.denominator == 1 else None


def kepler_root(M, e):
    eng = C.E()
    M, e = lift(M), lift(e)
    if M.bad or e.bad:
        return C.bad()
    R = eng.ring
    M = Sym(R.reduce(M.n), R.reduce(M.d))
    hyp = bool(e > 1)
    if not hyp and not e.n:
        return M
    for E0, e0, M0 in getattr(eng, 'roots', []):
        if not _same(e, e0):
            continue
        for sg in (1, -1):
            d = M - sg*M0
            d = Sym(R.reduce(d.n), R.reduce(d.d))
            k = _turns(d)
            if k is None or (hyp and k != 0):
                continue
            return sg*E0 + Sym(P.pconst(2*C.PI*k))
    key = ('kroot', C.freeze(M.n), C.freeze(M.d), C.freeze(e.n),
           C.freeze(e.d))
    if key in eng.cache:
        return eng.cache[key]
    fn = lambda ev: num_root(ev.rat(M), ev.rat(e))
    if hyp:
        v = eng.new('H', 'hyp')
        sh, ch = eng.new('sh_H', 'sinh'), eng.new('ch_H', 'cosh')
        ch.lo = C.Fraction(1)
        eng._bounds(ch)
        eng.ring.rules[ch.id] = (2, {P.ONE_M: 1, ((sh.id, 2),): 1})
        rel = ch.z*ch.z == 1 + sh.z*sh.z
        eng.con(ch, rel, [sh.id])
        eng.con(sh, rel, [ch.id])
        sh.fn = lambda ev: math.sinh(ev.var(v.id))
        ch.fn = lambda ev: math.cosh(ev.var(v.id))
        v.info = C.Hyp(Sym(P.pvar(ch.id)), Sym(P.pvar(sh.id)))
        eng.con(v, C.z3.And((v.z > 0) == (sh.z > 0), (v.z < 0) == (sh.z < 0)),
                [sh.id])
        E = Sym(P.pvar(v.id))
        res = e*v.info.sh - E - M
    else:
        v = eng.new('E', 'angle')
        c, s = eng.trig_pair('E', v.id)
        v.info = C.Angle(c, s, 'free')
        E = Sym(P.pvar(v.id))
        res = E - e*s - M
    v.fn = fn
    z = eng.zpoly(res.n) == 0
    eng.con(v, z, P.pvars(res.n))
    eng.cache[key] = E
    return E


def laguerre_contract(E0, M, e, tol=1e-12, max_iter=5000, degree=5):
    import numpy as np
    if isinstance(M, np.ndarray):
        M = M.reshape(-1)[0] if M.size == 1 else M
    if isinstance(e, np.ndarray):
        e = e.reshape(-1)[0] if e.size == 1 else e
    return kepler_root(M, e), 1


def solver():
    def hook(mod):
        if hasattr(mod, 'laguerre_solve_kepler'):
            mod.laguerre_solve_kepler = laguerre_contract
    return {'pyorb.kepler': hook}
