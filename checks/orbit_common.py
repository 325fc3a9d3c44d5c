"""Reference model of an orbit object: every write is converted at once.

The conversions themselves are those of the package (see symx/uf.py): the
model only says which of them has to be applied to what.
"""
import math

CART = ['x', 'y', 'z', 'vx', 'vy', 'vz']
KEP = ['a', 'e', 'i', 'omega', 'Omega', 'anom']
TYPES = ['true', 'eccentric', 'mean']
NAN = float('nan')

MODES = {'direct': dict(direct_update=True, auto_update=True),
         'direct2': dict(direct_update=True, auto_update=False),
         'lazy': dict(direct_update=False, auto_update=True),
         'manual': dict(direct_update=False, auto_update=False)}

FAV_C = dict(x=(0.9, 1.1), y=(0.2, 0.4), z=(0.1, 0.3),
             vx=(-0.3, -0.1), vy=(0.7, 0.9), vz=(0.2, 0.3))
FAV_K = dict(a=(0.8, 1.6), e=(0.15, 0.5))


class Col:
    def __init__(self, m, cart, kep):
        self.m = m
        self.cart = list(cart)
        self.kep = list(kep)
        self.exact = set()     # elements written, not derived
        self.src = None

    def copy(self):
        c = Col(self.m, self.cart, self.kep)
        c.exact = set(self.exact)
        c.src = self.src
        return c


class Ref:
    def __init__(self, cx, type, deg, mode, G, M0, opts=None):
        self.cx = cx
        self.K = cx.kepler
        self.type = type
        self.deg = deg
        self.mode = mode
        self.G = G
        self.M0 = M0
        self.opts = opts
        self.cols = []

    @property
    def n(self):
        return len(self.cols)

    def fork(self):
        r = Ref(self.cx, self.type, self.deg, self.mode, self.G, self.M0,
                self.opts)
        r.cols = [c.copy() for c in self.cols]
        return r

    def pick(self, inds):
        r = self.fork()
        r.cols = [r.cols[k] for k in inds]
        return r

    def blank(self, m=0.0):
        s = self.cx.scalar
        return Col(s(m), [s(NAN) for _ in range(6)],
                   [s(NAN) for _ in range(6)])

    def mu(self, c):
        return self.G*(self.M0 + c.m)

    # ------------------------------------------------ anomaly conversions
    def to_true(self, a, e, type=None):
        t = type or self.type
        if t == 'eccentric':
            return self.K.eccentric_to_true(a, e, degrees=self.deg)
        if t == 'mean':
            return self.K.mean_to_true(a, e, solver_options=self.opts,
                                       degrees=self.deg)
        return a

    def of_true(self, a, e, type=None):
        t = type or self.type
        if t == 'eccentric':
            return self.K.true_to_eccentric(a, e, degrees=self.deg)
        if t == 'mean':
            return self.K.true_to_mean(a, e, degrees=self.deg)
        return a

    def conv(self, a, e, t0, t1):
        if t0 == t1:
            return a
        if t0 == 'eccentric' and t1 == 'mean':
            return self.K.eccentric_to_mean(a, e, degrees=self.deg)
        if t0 == 'mean' and t1 == 'eccentric':
            return self.K.mean_to_eccentric(a, e, solver_options=self.opts,
                                            degrees=self.deg)
        if t0 == 'true':
            return self.of_true(a, e, t1)
        return self.to_true(a, e, t0)

    def anom(self, c, t):
        return self.conv(c.kep[5], c.kep[1], self.type, t)

    # -------------------------------------------------------------- states
    def bad(self, xs):
        return any(self.cx.isbad(x) for x in xs)

    def kc(self, c):
        k = c.kep[:5] + [self.to_true(c.kep[5], c.kep[1])]
        r = self.K.kep_to_cart(self.cx.arr(k), mu=self.mu(c),
                               degrees=self.deg)
        return [r[j] for j in range(6)]

    def ck(self, c):
        r = self.K.cart_to_kep(self.cx.arr(c.cart), mu=self.mu(c),
                               degrees=self.deg)
        k = [r[j] for j in range(6)]
        k[5] = self.of_true(k[5], k[1])
        return k

    def calc_cart(self, c):
        if not self.bad(c.kep):
            c.cart = self.kc(c)
            c.src = 'kep'

    def calc_kep(self, c):
        if not self.bad(c.cart):
            c.kep = self.ck(c)
            c.exact = set()
            c.src = 'cart'

    def switch(self, orb, mode):
        """Another update mode: the description written last is current."""
        orb.direct_update = MODES[mode]['direct_update']
        orb.auto_update = MODES[mode]['auto_update']
        if mode == 'lazy':
            self.resolve()
        self.mode = mode

    def resolve(self):
        for c in self.cols:
            if c.src == 'cart':
                self.calc_kep(c)
            elif c.src == 'kep':
                self.calc_cart(c)

    def set_cart(self, c, vals):
        """vals: {row: value}"""
        for k, v in vals.items():
            c.cart[k] = v
        c.src = 'cart'
        if self.mode != 'manual':
            self.calc_kep(c)

    def set_kep(self, c, vals, exact=True):
        for k, v in vals.items():
            c.kep[k] = v
            if exact:
                c.exact.add(k)
            else:
                c.exact.discard(k)
        c.src = 'kep'
        if self.mode != 'manual':
            self.calc_cart(c)

    def set_type(self, t):
        for c in self.cols:
            if t != self.type:
                c.kep[5] = self.anom(c, t)
                c.exact.discard(5)
        self.type = t

    # --------------------------------------------------------- comparisons
    def check_cart(self, tag, got):
        cx = self.cx
        cx.check(f'{tag}: shape', got.shape == (6, self.n))
        for j, c in enumerate(self.cols):
            cx.eq(f'{tag}: cart {j}', got[:, j], cx.arr(c.cart))

    def check_kep(self, tag, got, rows=range(6)):
        cx = self.cx
        cx.check(f'{tag}: shape', got.shape == (6, self.n))
        for j, c in enumerate(self.cols):
            for k in rows:
                nm = f'{tag}: {KEP[k]} {j}'
                g, w = got[k, j], c.kep[k]
                if k < 3 or k in c.exact or cx.isbad(w) or cx.isbad(g):
                    cx.eq(nm, g, w)
                else:
                    self.angle(nm, g, w)

    def angle(self, nm, g, w):
        cx = self.cx
        if self.deg:
            g, w = cx.rad(g), cx.rad(w)
        cx.angle_eq(nm, g, w)

    def check_anoms(self, tag, orb):
        for t in TYPES:
            got = getattr(orb, t + '_anomaly')
            for j, c in enumerate(self.cols):
                if self.bad(c.kep):
                    continue
                self.angle(f'{tag}: {t} anomaly {j}', got[j], self.anom(c, t))

    def check_all(self, tag, orb, order='ck'):
        cx = self.cx
        cx.check(f'{tag}: number', orb.num == self.n and len(orb) == self.n)
        cx.check(f'{tag}: type', orb.type == self.type)
        for o in order:
            if o == 'c':
                self.check_cart(tag, orb.cartesian)
            else:
                self.check_kep(tag, orb.kepler)
        cx.check(f'{tag}: masses', orb.m.shape == (self.n,))
        for j, c in enumerate(self.cols):
            cx.eq(f'{tag}: mass {j}', orb.m[j], c.m)


# ----------------------------------------------------------------- inputs
def cval(cx, k, tag):
    return cx.real(f'{CART[k]}{tag}', fav=FAV_C[CART[k]])


def kval(cx, ref, k, tag, ehi=1):
    if k == 0:
        return cx.real('a' + tag, 0, fav=FAV_K['a'])
    if k == 1 and cx.p.get('flat'):
        # circular: reading back a converted state loses an angle
        return cx.scalar(0.0)
    if k == 1:
        return cx.real('e' + tag, 0, ehi, fav=FAV_K['e'])
    if k == 2:
        x = cx.angle('i' + tag, lo=1e-3, hi=math.pi - 1e-3, rng='half')
    else:
        x = cx.angle(KEP[k] + tag)
    return todeg(cx, ref, x)


def todeg(cx, ref, x):
    return x*(180/cx.pi) if ref.deg else x


def cvec(cx, tag):
    return [cval(cx, k, tag) for k in range(6)]


def kvec(cx, ref, tag):
    return [kval(cx, ref, k, tag) for k in range(6)]


def setup(cx, n=2, init='kep', type='true', deg=False, mode='direct',
          opts=None, mass='sym', **more):
    """(orbit object, reference)"""
    G = cx.real('G', 0, fav=(0.9, 1.1))
    M0 = cx.real('M0', 0, fav=(0.8, 1.2))
    ref = Ref(cx, type, deg, mode, G, M0, opts)
    kw = dict(G=G, num=n, type=type, degrees=deg, **MODES[mode])
    kw.update(more)
    if opts is not None:
        kw['solver_options'] = opts
    ms = []
    for j in range(n):
        c = ref.blank()
        if mass == 'sym':
            c.m = cx.real(f'm{j}', 0, fav=(0.01, 0.3))
        ms.append(c.m)
        ref.cols.append(c)
    if mass == 'sym' and n:
        kw['m'] = cx.arr(ms)
    if init == 'kep':
        vs = [kvec(cx, ref, f'_{j}') for j in range(n)]
        kw['kepler'] = cx.arr(vs).T
        for c, v in zip(ref.cols, vs):
            ref.set_kep(c, dict(enumerate(v)))
    elif init == 'cart':
        vs = [cvec(cx, f'_{j}') for j in range(n)]
        kw['cartesian'] = cx.arr(vs).T
        for c, v in zip(ref.cols, vs):
            ref.set_cart(c, dict(enumerate(v)))
    orb = cx.pyorb.Orbit(M0, **kw)
    return orb, ref


# -------------------------------------------------------------- operations
def _per(cx, ref, f):
    return [f(f'_{j}') for j in range(ref.n)]


def set_element(name):
    def op(cx, orb, ref, tag):
        if name in CART:
            k = CART.index(name)
            vals = [cval(cx, k, f'{tag}_{j}') for j in range(ref.n)]
            setattr(orb, name, cx.arr(vals))
            for c, v in zip(ref.cols, vals):
                ref.set_cart(c, {k: v})
        else:
            k = KEP.index(name)
            vals = [kval(cx, ref, k, f'{tag}_{j}') for j in range(ref.n)]
            setattr(orb, name, cx.arr(vals))
            for c, v in zip(ref.cols, vals):
                ref.set_kep(c, {k: v})
    return op


def set_scalar(name):
    """One value for all orbits."""
    def op(cx, orb, ref, tag):
        if name in CART:
            k = CART.index(name)
            v = cval(cx, k, tag)
            setattr(orb, name, v)
            for c in ref.cols:
                ref.set_cart(c, {k: v})
        else:
            k = KEP.index(name)
            v = kval(cx, ref, k, tag)
            setattr(orb, name, v)
            for c in ref.cols:
                ref.set_kep(c, {k: v})
    return op


def set_block(lo, hi, name):
    def op(cx, orb, ref, tag):
        vs = [[cval(cx, k, f'{tag}_{j}') for k in range(lo, hi)]
              for j in range(ref.n)]
        setattr(orb, name, cx.arr(vs).T)
        for c, v in zip(ref.cols, vs):
            ref.set_cart(c, dict(zip(range(lo, hi), v)))
    return op


def set_kepler(cx, orb, ref, tag):
    vs = [kvec(cx, ref, f'{tag}_{j}') for j in range(ref.n)]
    orb.kepler = cx.arr(vs).T
    for c, v in zip(ref.cols, vs):
        ref.set_kep(c, dict(enumerate(v)))


def set_kepler_vec(cx, orb, ref, tag):
    v = kvec(cx, ref, tag)
    orb.kepler = cx.arr(v)
    for c in ref.cols:
        ref.set_kep(c, dict(enumerate(v)))


def set_cart_vec(cx, orb, ref, tag):
    v = cvec(cx, tag)
    orb.cartesian = cx.arr(v)
    for c in ref.cols:
        ref.set_cart(c, dict(enumerate(v)))


def selector(np, kind, n):
    """(index object, list of selected orbits)"""
    if kind == 'int':
        return n - 1, [n - 1]
    if kind == 'neg':
        return -1, [n - 1]
    if kind == 'slice':
        return slice(1, None), list(range(1, n))
    if kind == 'head':
        return slice(0, 1), [0]
    if kind == 'list':
        return ([n - 1, 0], [n - 1, 0]) if n > 1 else ([0], [0])
    if kind == 'array':
        return np.array([n - 1]), [n - 1]
    if kind == 'mask':
        return np.array([k % 2 == 0 for k in range(n)]), list(range(0, n, 2))
    if kind == 'all':
        return slice(None), list(range(n))
    if kind == 'step':
        return slice(1, None, 3), list(range(1, n, 3))
    if kind == 'back':
        return slice(None, None, -1), list(range(n))[::-1]
    if kind == 'perm':
        p = [(5*j + 2) % n for j in range(n)] if n % 5 else \
            list(range(1, n)) + [0]
        return np.array(p), p
    if kind == 'negs':
        p = list(range(n - 1, 0, -2))
        return [j - n for j in p], p
    if kind == 'half':
        return np.array([k >= n//2 for k in range(n)]), list(range(n//2, n))
    raise ValueError(kind)


def skip(kind, n):
    """Nothing is selected."""
    return n == 0 or (kind in ('slice', 'step', 'negs') and n < 2)


def update_block(which, kind, vec=False):
    def op(cx, orb, ref, tag):
        if skip(kind, ref.n):
            return
        sel, idx = selector(cx.np, kind, ref.n)
        mk = (lambda t: cvec(cx, t)) if which == 'cartesian' else \
            (lambda t: kvec(cx, ref, t))
        if vec:
            vs = [mk(tag)]*len(idx)
        else:
            vs = [mk(f'{tag}_{j}') for j in idx]
        if vec or kind in ('int', 'neg'):
            val = cx.arr(vs[0])
        else:
            val = cx.arr(vs).T
        orb.update(inds=sel, **{which: val})
        for j, v in zip(idx, vs):
            (ref.set_cart if which == 'cartesian' else ref.set_kep)(
                ref.cols[j], dict(enumerate(v)))
    return op


def update_elems(names, kind, mass=False):
    def op(cx, orb, ref, tag):
        if skip(kind, ref.n):
            return
        sel, idx = selector(cx.np, kind, ref.n)
        kw = {}
        vals = {j: {} for j in idx}
        cart = names[0] in CART
        for nm in names:
            k = (CART if cart else KEP).index(nm)
            vs = [cval(cx, k, f'{tag}_{j}') if cart else
                  kval(cx, ref, k, f'{tag}_{j}') for j in idx]
            for j, v in zip(idx, vs):
                vals[j][k] = v
            kw[nm] = vs[0] if kind in ('int', 'neg') else cx.arr(vs)
        if mass:
            vs = [cx.real(f'm{tag}_{j}', 0, fav=(0.3, 0.9)) for j in idx]
            kw['m'] = vs[0] if kind in ('int', 'neg') else cx.arr(vs)
            for j, v in zip(idx, vs):
                ref.cols[j].m = v
        orb.update(inds=sel, **kw)
        for j in idx:
            (ref.set_cart if cart else ref.set_kep)(ref.cols[j], vals[j])
    return op


def set_type(t):
    def op(cx, orb, ref, tag):
        orb.type = t
        ref.set_type(t)
    return op


def set_anomaly(t):
    def op(cx, orb, ref, tag):
        vs = [todeg(cx, ref, cx.angle(f'{t}{tag}_{j}'))
              for j in range(ref.n)]
        es = [c.kep[1] for c in ref.cols]
        for e in es:
            if not cx.isbad(e):
                cx.assume(e < 1)
        setattr(orb, t + '_anomaly', cx.arr(vs))
        for c, v, e in zip(ref.cols, vs, es):
            ref.set_kep(c, {5: ref.conv(v, e, t, ref.type)}, exact=False)
    return op


def closed(cx, ref):
    for c in ref.cols:
        if cx.isbad(c.kep[1]):
            return False
        cx.assume(c.kep[1] < 1)
        cx.assume(c.kep[0] > 0)
    return True


def ref_motion(cx, ref, c):
    turn = 360.0 if ref.deg else 2*cx.pi
    return turn/(2*cx.pi*cx.sqrt(c.kep[0]**3/ref.mu(c)))


def propagate(cx, orb, ref, tag):
    if not closed(cx, ref):
        return
    dt = cx.real('dt' + tag, fav=(0.3, 1.5))
    orb.propagate(dt)
    for c in ref.cols:
        M = ref.anom(c, 'mean') + ref_motion(cx, ref, c)*dt
        ref.set_kep(c, {5: ref.conv(M, c.kep[1], 'mean', ref.type)},
                    exact=False)


def add(which, num=1, scalar=False):
    """Values by orbit, or one value per element for all added orbits."""
    def op(cx, orb, ref, tag):
        kw = {}

        def vec(t):
            return cvec(cx, t) if which == 'cart' else kvec(cx, ref, t)

        one = vec(tag) if scalar else None
        vs = [one if scalar else vec(f'{tag}_{j}') for j in range(num)]
        ms = [cx.real(f'm{tag}_{j}', 0, fav=(0.3, 0.9)) for j in range(num)]
        names = CART if which == 'cart' else KEP
        for k, nm in enumerate(names):
            kw[nm] = one[k] if scalar else cx.arr([v[k] for v in vs])
        orb.add(num=num, m=cx.arr(ms), **kw)
        for v, m in zip(vs, ms):
            c = ref.blank()
            c.m = m
            ref.cols.append(c)
            (ref.set_cart if which == 'cart' else ref.set_kep)(
                c, dict(enumerate(v)))
    return op


def delete(kind):
    def op(cx, orb, ref, tag):
        if skip(kind, ref.n):
            return
        sel, idx = selector(cx.np, kind, ref.n)
        orb.delete(sel)
        ref.cols = [c for j, c in enumerate(ref.cols) if j not in idx]
    return op


def set_velocity(cx, orb, ref, tag):
    vs = [cx.real(f'vel{tag}_{j}', 0, fav=(0.7, 0.9)) for j in range(ref.n)]
    for c in ref.cols:
        if not ref.bad(c.cart):
            cx.assume(c.cart[3]*c.cart[3] + c.cart[4]*c.cart[4]
                      + c.cart[5]*c.cart[5] > 0)
    orb.velocity = cx.arr(vs)
    for c, w in zip(ref.cols, vs):
        v = c.cart[3:]
        n = cx.sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2])
        ref.set_cart(c, {3 + k: v[k]*(w/n) for k in range(3)})


def set_period(what):
    def op(cx, orb, ref, tag):
        if not closed(cx, ref):
            return
        vs = [cx.real(f'{what}{tag}_{j}', 0,
                      fav=(4, 8) if what == 'period' else
                      (40, 90) if ref.deg else (0.7, 1.4))
              for j in range(ref.n)]
        setattr(orb, what, cx.arr(vs))
        turn = 360.0 if ref.deg else 2*cx.pi
        for c, v in zip(ref.cols, vs):
            P = v if what == 'period' else turn/v
            y = P/(2*cx.pi)
            ref.set_kep(c, {0: cx.cbrt(y*y*ref.mu(c))}, exact=False)
    return op


def set_equinoctial(cx, orb, ref, tag):
    rows = []
    for j in range(ref.n):
        t = f'{tag}_{j}'
        rows.append([cx.real('a' + t, 0, fav=FAV_K['a'])] + [
            cx.real(n + t, fav=(0.1, 0.3)) for n in 'hkpq'] + [
            todeg(cx, ref, cx.angle('lam' + t))])
    # (6,) for a single orbit
    vals = cx.arr(rows[0]) if ref.n == 1 else cx.arr(rows).T
    orb.equinoctial = vals
    for c, q in zip(ref.cols, rows):
        k = ref.K.equi_to_kep(cx.arr(q), degrees=ref.deg)
        el = [k[r] for r in range(6)]
        el[5] = ref.conv(el[5], el[1], 'mean', ref.type)
        ref.set_kep(c, dict(enumerate(el)), exact=False)


def read_cart(cx, orb, ref, tag):
    ref.check_cart(f'read {tag}', orb.cartesian)


def read_kep(cx, orb, ref, tag):
    ref.check_kep(f'read {tag}', orb.kepler)


def read_parts(cx, orb, ref, tag):
    for k, nm in enumerate(KEP[:3]):
        cx.eq(f'read {tag}: {nm}', getattr(orb, nm),
              cx.arr([c.kep[k] for c in ref.cols]))
    cx.eq(f'read {tag}: v', orb.v, cx.arr([c.cart[3:] for c in ref.cols]).T)


def read_anom(cx, orb, ref, tag):
    ref.check_anoms(f'read {tag}', orb)


def calc_cart(cx, orb, ref, tag):
    orb.calculate_cartesian()
    for c in ref.cols:
        ref.calc_cart(c)


def calc_kep(cx, orb, ref, tag):
    orb.calculate_kepler()
    for c in ref.cols:
        ref.calc_kep(c)


def update_all(which, kind):
    """All six values of selected orbits, as keywords."""
    names = CART if which == 'cart' else KEP
    return update_elems(names, kind)


OPS = {}
for _n in CART + KEP:
    OPS['set ' + _n] = set_element(_n)
OPS['all x'] = set_scalar('x')
OPS['all e'] = set_scalar('e')
OPS['set cartesian'] = set_block(0, 6, 'cartesian')
OPS['set r'] = set_block(0, 3, 'r')
OPS['set v'] = set_block(3, 6, 'v')
OPS['set kepler'] = set_kepler
OPS['vector kepler'] = set_kepler_vec
OPS['vector cartesian'] = set_cart_vec
for _k in ('int', 'slice', 'list', 'mask'):
    OPS[f'update cartesian {_k}'] = update_block('cartesian', _k)
    OPS[f'update kepler {_k}'] = update_block('kepler', _k)
    OPS[f'update vx,z {_k}'] = update_elems(['z', 'vx'], _k)
    OPS[f'update a,anom {_k}'] = update_elems(['a', 'anom'], _k)
OPS['update cartesian vector'] = update_block('cartesian', 'all', True)
OPS['update kepler vector'] = update_block('kepler', 'all', True)
for _t in TYPES:
    OPS['type ' + _t] = set_type(_t)
    OPS['anomaly ' + _t] = set_anomaly(_t)
OPS['propagate'] = propagate
OPS['add cart'] = add('cart')
OPS['add kep'] = add('kep')
OPS['delete'] = delete('head')
OPS['velocity'] = set_velocity
OPS['period'] = set_period('period')
OPS['mean_motion'] = set_period('mean_motion')
OPS['equinoctial'] = set_equinoctial
OPS['read cart'] = read_cart
OPS['read kep'] = read_kep
OPS['read parts'] = read_parts
OPS['read anomalies'] = read_anom
MASS_OPS = {'update m,x int': update_elems(['x'], 'int', True),
            'update m,a slice': update_elems(['a'], 'slice', True)}
CALC_OPS = {'calc cart': calc_cart, 'calc kep': calc_kep}
# writes that do not depend on what the orbits held before
WHOLE_OPS = {}
for _k in ('int', 'slice', 'list', 'mask'):
    for _w in ('cart', 'kep'):
        WHOLE_OPS[f'update all {_w} {_k}'] = update_all(_w, _k)
for _n in ('update cartesian int', 'update cartesian mask',
           'update kepler slice', 'update kepler list', 'set cartesian',
           'set kepler', 'vector cartesian', 'vector kepler', 'add cart',
           'add kep', 'delete'):
    WHOLE_OPS[_n] = OPS[_n]
