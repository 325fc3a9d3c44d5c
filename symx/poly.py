"""Sparse multivariate polynomials over Q, reduced modulo rewriting rules, and
fractions of them.

A polynomial is a dict {monomial: coefficient}; a monomial is a tuple of
(variable id, exponent) pairs sorted by id.  A rule maps a variable v to
(k, R): v**k -> R, where R only mentions variables created before v, e.g.
    s**2 -> 1 - c**2      for the sine/cosine pair of an angle
    q**2 -> B             for q = sqrt(B)
so that reduction terminates and equal elements of the quotient ring built by
the rules have equal normal forms (the rules are a Groebner basis: their
leading monomials are powers of distinct variables).
"""
from fractions import Fraction
from functools import lru_cache

ONE_M = ()


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = norm_c(n)
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: norm_c(c*k) for m, c in a.items()}


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    return padd(a, pneg(b))


def pconst(k):
    return {} if k == 0 else {ONE_M: norm_c(k)}


def pvar(v):
    return {((v, 1),): 1}


def is_const(a):
    return not a or (len(a) == 1 and ONE_M in a)


def const_of(a):
    return a.get(ONE_M, 0) if a else 0


def pvars(a):
    s = set()
    for m in a:
        for v, _ in m:
            s.add(v)
    return s


class TooBig(BaseException):
    """A term outgrew the executor's size limit."""


MAX_TERMS = 6000


class Ring:
    """Holds the rewriting rules; all products go through mul()."""

    def __init__(self):
        self.rules = {}       # var -> (k, poly)
        self.opp = {}         # sine var -> cosine var (pairs for flips)

    # --- multiplication and reduction
    def raw_mul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a)*len(b) > 400000:
            raise TooBig(f'{len(a)} x {len(b)} terms')
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = mmul(ma, mb)
                n = r.get(m, 0) + ca*cb
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = n
        return {m: norm_c(c) for m, c in r.items()}

    def mul(self, a, b):
        if not a or not b:
            return {}
        if is_const(a):
            return pscale(b, const_of(a))
        if is_const(b):
            return pscale(a, const_of(b))
        return self.reduce(self.raw_mul(a, b))

    def reduce(self, p):
        rules = self.rules
        while True:
            todo = None
            for m in p:
                for v, e in m:
                    r = rules.get(v)
                    if r is not None and e >= r[0]:
                        if todo is None or v > todo:
                            todo = v
            if todo is None:
                return p
            v = todo
            k, rhs = rules[v]
            keep = {}
            by_pow = {}
            for m, c in p.items():
                ev = 0
                for w, e in m:
                    if w == v:
                        ev = e
                        break
                if ev >= k:
                    n, rem = divmod(ev, k)
                    base = tuple((w, e) if w != v else (w, rem)
                                 for w, e in m if w != v or rem)
                    d = by_pow.setdefault(n, {})
                    d[base] = d.get(base, 0) + c
                else:
                    keep[m] = c
            for n, d in by_pow.items():
                pw = rhs
                for _ in range(n - 1):
                    pw = self.raw_mul(pw, rhs)
                keep = padd(keep, self.raw_mul(d, pw))
            p = keep
            if len(p) > MAX_TERMS:
                raise TooBig(f'{len(p)} terms')

    def pow(self, a, n):
        r = pconst(1)
        b = a
        while n:
            if n & 1:
                r = self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r

    def flip(self, p, pairs):
        """Rewrites c**2 -> 1 - s**2 for the given sine variables."""
        for s in pairs:
            c = self.opp[s]
            rhs = {ONE_M: 1, ((s, 2),): -1}
            while True:
                hit = [m for m in p if any(v == c and e >= 2 for v, e in m)]
                if not hit:
                    break
                keep = {m: k for m, k in p.items()}
                add = {}
                for m in hit:
                    k = keep.pop(m)
                    ev = dict(m)[c]
                    n, rem = divmod(ev, 2)
                    base = tuple((w, e) if w != c else (w, rem)
                                 for w, e in m if w != c or rem)
                    t = {base: k}
                    for _ in range(n):
                        t = self.raw_mul(t, rhs)
                    add = padd(add, t)
                p = padd(keep, add)
        return p


# ---------------------------------------------------------------- sympy glue
_rings = {}


def _sring(nvars):
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ
    if nvars not in _rings:
        _rings[nvars] = ring([f'x{i}' for i in range(nvars)], QQ)[0]
    return _rings[nvars]


def to_sympy(ps):
    """Converts several polynomials into one sympy ring; returns also the map."""
    from sympy.polys.domains import QQ
    vs = sorted(set().union(*[pvars(p) for p in ps]))
    idx = {v: i for i, v in enumerate(vs)}
    n = max(1, len(vs))
    R = _sring(n)
    out = []
    for p in ps:
        d = {}
        for m, c in p.items():
            t = [0]*n
            for v, e in m:
                t[idx[v]] = e
            if isinstance(c, Fraction):
                d[tuple(t)] = QQ(c.numerator, c.denominator)
            else:
                d[tuple(t)] = QQ(c)
        out.append(R.from_dict(d))
    return R, vs, out


def from_sympy(sp, vs):
    r = {}
    for t, c in sp.terms():
        m = tuple((vs[i], e) for i, e in enumerate(t) if e)
        r[m] = norm_c(Fraction(int(c.numerator), int(c.denominator)))
    return r


_gcd_cache = {}


def freeze(p):
    return frozenset(p.items())


def poly_gcd_cancel(n, d):
    key = (freeze(n), freeze(d))
    hit = _gcd_cache.get(key)
    if hit is not None:
        return hit
    R, vs, (a, b) = to_sympy([n, d])
    try:
        g, ca, cb = a.cofactors(b)
        res = (from_sympy(ca, vs), from_sympy(cb, vs))
    except Exception:
        res = (n, d)
    _gcd_cache[key] = res
    return res


_fac_cache = {}


def factor_list(p):
    key = freeze(p)
    hit = _fac_cache.get(key)
    if hit is not None:
        return hit
    R, vs, (a,) = to_sympy([p])
    c, fl = a.factor_list()
    res = (Fraction(int(c.numerator), int(c.denominator)),
           [(from_sympy(f, vs), k) for f, k in fl])
    _fac_cache[key] = res
    return res


def mono_content(p):
    """Greatest monomial dividing every term."""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        dm = dict(m)
        for v in list(g):
            e = min(g[v], dm.get(v, 0))
            if e:
                g[v] = e
            else:
                del g[v]
        if not g:
            break
    return tuple(sorted(g.items()))


def mono_div(p, m):
    if not m:
        return p
    dm = dict(m)
    r = {}
    for t, c in p.items():
        n = tuple((v, e - dm.get(v, 0)) for v, e in t if e - dm.get(v, 0))
        r[n] = c
    return r


def lead(p):
    m = max(p)
    return p[m]
