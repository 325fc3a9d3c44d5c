"""Equinoctial elements, degrees flag, vectorisation, purity, helpers."""
from symx.reg import harness
from .common import E_MIN, I_MIN, state, cstate, dot, cross, rotation
from .kepler_anomaly import (ecc, anomaly, kepler_eq, true_of, closed, KINDS)


# ------------------------------------------------------- equinoctial elements
EQ = [dict(shape=s, plane=p) for s in ('gen', 'circ') for p in ('gen', 'pro')]


def equi_inputs(cx, shape, plane):
    """Elements by longitude of periapsis and node; (a, e, i, lon, OM)."""
    a = cx.real('a', 0)
    e = cx.scalar(0.0) if shape == 'circ' else cx.real('e', E_MIN, None)
    if plane == 'gen':
        inc = cx.angle('inc', lo=I_MIN, hi=cx.pi - I_MIN, rng='half', div=2)
        OM = cx.angle('OM', rng='pm')
    else:
        inc = cx.scalar(0.0)
        OM = cx.scalar(0.0)
    lon = cx.scalar(0.0) if shape == 'circ' else cx.angle('lon', rng='pm')
    return a, e, inc, lon, OM


def equi_of(cx, a, e, inc, lon, OM, lam):
    t = cx.tan(inc/2)
    return cx.arr([a, e*cx.sin(lon), e*cx.cos(lon), t*cx.sin(OM),
                   t*cx.cos(OM), lam])


TURNS = [[0, 0, 0], [-1, -1, -1], [1, 0, -2], [0, 2, 1], [-3, 1, 3]]


@harness('K11', picks=[dict(p, turns=t) for p in EQ for t in TURNS])
def kep_to_equi(cx):
    a = cx.real('a', 0)
    e = cx.scalar(0.0) if cx.p.shape == 'circ' else cx.real('e', 0, None)
    if cx.p.plane == 'gen':
        inc = cx.angle('inc', lo=I_MIN, hi=cx.pi - I_MIN, rng='half', div=2)
    else:
        inc = cx.scalar(0.0)
    om, OM, nu = cx.angle('om'), cx.angle('OM'), cx.angle('nu')
    q = cx.kepler.kep_to_equi(cx.arr([a, e, inc] + [
        x + 2*cx.pi*k if k else x for x, k in zip((om, OM, nu), cx.p.turns)]))
    t = cx.tan(inc/2)
    cx.eq('a', q[0], a)
    cx.eq('h', q[1], e*cx.sin(om + OM))
    cx.eq('k', q[2], e*cx.cos(om + OM))
    cx.eq('p', q[3], t*cx.sin(OM))
    cx.eq('q', q[4], t*cx.cos(OM))
    cx.angle_eq('longitude', q[5], om + OM + nu)
    cx.in_range('range', q[5], 0, 2*cx.pi)


@harness('K11', picks=[dict(p, turn=t) for p in EQ for t in (0, 1, -1, -3)])
def equi_to_kep(cx):
    a, e, inc, lon, OM = equi_inputs(cx, cx.p.shape, cx.p.plane)
    lam = cx.angle('lam')
    k = cx.kepler.equi_to_kep(equi_of(
        cx, a, e, inc, lon, OM,
        lam + 2*cx.pi*cx.p.turn if cx.p.turn else lam))
    cx.eq('a', k[0], a)
    cx.eq('e', k[1], e)
    cx.eq('i', k[2], inc)
    if cx.p.plane == 'gen':
        cx.angle_eq('node', k[4], OM)
    if cx.p.shape == 'gen':
        cx.angle_eq('longitude of periapsis', k[3] + k[4], lon)
        cx.angle_eq('anomaly', k[5], lam - lon)
    cx.angle_eq('longitude', k[3] + k[4] + k[5], lam)
    cx.in_range('range', k[3:], 0, 2*cx.pi)


@harness('K11', picks=EQ)
def kep_equi_kep(cx):
    a = cx.real('a', 0)
    e = cx.scalar(0.0) if cx.p.shape == 'circ' else cx.real('e', E_MIN, None)
    if cx.p.plane == 'gen':
        inc = cx.angle('inc', lo=I_MIN, hi=cx.pi - I_MIN, rng='half', div=2)
    else:
        inc = cx.scalar(0.0)
    om, OM, nu = cx.angle('om'), cx.angle('OM'), cx.angle('nu')
    q = cx.kepler.kep_to_equi(cx.arr([a, e, inc, om, OM, nu]))
    k = cx.kepler.equi_to_kep(q)
    cx.eq('a', k[0], a)
    cx.eq('e', k[1], e)
    cx.eq('i', k[2], inc)
    if cx.p.plane == 'gen':
        cx.angle_eq('node', k[4], OM)
    if cx.p.shape == 'gen':
        cx.angle_eq('longitude of periapsis', k[3] + k[4], om + OM)
        cx.angle_eq('anomaly', k[5], nu)
    cx.angle_eq('longitude', k[3] + k[4] + k[5], om + OM + nu)


class Pos:
    pass


def elliptic(cx, shape, plane, tag='', lo=None, hi=None):
    """Elliptic orbit given by the eccentric anomaly, with its state."""
    s = Pos()
    s.e = cx.scalar(0.0) if shape == 'circ' else cx.real('e' + tag, E_MIN, 1)
    p = cx.real('p' + tag, 0)
    s.a = p/(1 - s.e*s.e)
    s.w = cx.real('w' + tag, 0)
    s.mu = s.w*s.w*p
    if plane == 'gen':
        s.inc = cx.angle('inc' + tag, lo=I_MIN, hi=cx.pi - I_MIN, rng='half',
                         div=2)
        s.OM = cx.angle('OM' + tag, rng='pm', lo=lo, hi=hi)
    else:
        s.inc = cx.scalar(0.0)
        s.OM = cx.scalar(0.0)
    s.lon = s.OM if shape == 'circ' else cx.angle('lon' + tag, rng='pm',
                                                  lo=lo, hi=hi)
    s.om = s.lon - s.OM
    s.E = cx.angle('E' + tag, div=2, lo=lo, hi=hi)
    s.c, s.s = true_of(cx, 'ell', s.E, s.e)
    s.M = kepler_eq(cx, 'ell', s.E, s.e)
    s.lam = s.lon + s.M
    rn = s.a*(1 - s.e*cx.cos(s.E))
    R = rotation(cx, s.inc, s.om, s.OM)
    s.rn = rn
    s.r = [rn*(R[k][0]*s.c + R[k][1]*s.s) for k in range(3)]
    s.v = [s.w*(-R[k][0]*s.s + R[k][1]*(s.e + s.c)) for k in range(3)]
    return s


@harness('K12', env='kep', picks=EQ)
def equi_to_cart(cx):
    s = elliptic(cx, cx.p.shape, cx.p.plane)
    cx.assume(cx.cos(s.E/2) != 0)
    cx.root(s.E, s.e, s.M)
    q = equi_of(cx, s.a, s.e, s.inc, s.lon, s.OM, s.lam)
    c = cx.kepler.equi_to_cart(q, mu=s.mu)
    cx.eq('position', c[:3], cx.arr(s.r), scale=s.rn)
    cx.eq('velocity', c[3:], cx.arr(s.v), scale=s.w)


@harness('K12', env='kep', picks=EQ)
def cart_to_equi(cx):
    gen = cx.p.plane == 'gen'
    nu = cx.angle('nu', div=2)
    if cx.p.shape == 'gen':
        cx.assume(cx.cos(nu/2) != 0)
    s = cstate(cx, 'ell' if cx.p.shape == 'gen' else 'circ', cx.p.plane,
               nu=nu, div=2)
    q = cx.kepler.cart_to_equi(cx.arr(s.cart), mu=s.mu)
    if cx.p.shape == 'gen':
        E = 2*cx.arctan(cx.sqrt((1 - s.e)/(1 + s.e))*cx.tan(nu/2))
        M = E - s.e*cx.sin(E)
    else:
        M = nu
    cx.eq('a', q[0], s.a)
    cx.eq('h', q[1], s.e*cx.sin(s.om + s.OM), scale=1)
    cx.eq('k', q[2], s.e*cx.cos(s.om + s.OM), scale=1)
    t = cx.tan(s.inc/2) if gen else cx.scalar(0.0)
    cx.eq('p', q[3], t*cx.sin(s.OM))
    cx.eq('q', q[4], t*cx.cos(s.OM))
    cx.angle_eq('mean longitude', q[5], s.om + s.OM + M)
    cx.in_range('range', q[5], 0, 2*cx.pi)


# ----------------------------------------------------------------- degrees
def deg(cx, x):
    return x*180/cx.pi


ANGLES_KEP = (2, 3, 4, 5)


def deg_rows(cx, x, rows):
    y = x.copy()
    for k in rows:
        y[k] = deg(cx, x[k])
    return y


@harness('K13', picks=dict(kind=['ell', 'circ', 'par', 'hyp'],
                           plane=['gen', 'pro'], shape=['vec', 'col']))
def degrees_states(cx):
    k, p = cx.p.kind, cx.p.plane
    s = (cstate if (k, p) == ('circ', 'pro') else state)(cx, k, p)
    kep, cart = cx.arr(s.kep), cx.arr(s.cart)
    if cx.p.shape == 'col':
        kep, cart = kep.reshape((6, 1)), cart.reshape((6, 1))
    f = cx.kepler
    cx.eq('kep_to_cart', f.kep_to_cart(deg_rows(cx, kep, ANGLES_KEP),
                                       mu=s.mu, degrees=True),
          f.kep_to_cart(kep, mu=s.mu))
    cx.eq('cart_to_kep', f.cart_to_kep(cart, mu=s.mu, degrees=True),
          deg_rows(cx, f.cart_to_kep(cart, mu=s.mu), ANGLES_KEP))


@harness('K13', picks=EQ)
def degrees_equinoctial(cx):
    a, e, inc, lon, OM = equi_inputs(cx, cx.p.shape, cx.p.plane)
    lam = cx.angle('lam')
    f = cx.kepler
    q = equi_of(cx, a, e, inc, lon, OM, lam)
    cx.eq('equi_to_kep', f.equi_to_kep(deg_rows(cx, q, (5,)), degrees=True),
          deg_rows(cx, f.equi_to_kep(q), ANGLES_KEP))
    om, OM, nu = cx.angle('om2'), cx.angle('OM2'), cx.angle('nu2')
    kep = cx.arr([a, e, inc, om, OM, nu])
    cx.eq('kep_to_equi', f.kep_to_equi(deg_rows(cx, kep, ANGLES_KEP),
                                       degrees=True),
          deg_rows(cx, f.kep_to_equi(kep), (5,)))


def equi_nu(cx, shape, plane):
    """State by true anomaly, for the conversions to equinoctial elements."""
    nu = cx.angle('nu', div=2)
    if shape == 'gen':
        cx.assume(cx.cos(nu/2) != 0)
    return cstate(cx, 'ell' if shape == 'gen' else 'circ', plane, nu=nu,
                  div=2)


def equi_E(cx, shape, plane, **k):
    """Equinoctial elements and the state, by eccentric anomaly."""
    s = elliptic(cx, shape, plane, **k)
    cx.assume(cx.cos(s.E/2) != 0)
    cx.root(s.E, s.e, s.M)
    s.equi = equi_of(cx, s.a, s.e, s.inc, s.lon, s.OM, s.lam)
    return s


@harness('K13', env='kep', picks=EQ)
def degrees_equi_to_cart(cx):
    s = equi_E(cx, cx.p.shape, cx.p.plane)
    f = cx.kepler
    q = s.equi
    cx.eq('equi_to_cart', f.equi_to_cart(deg_rows(cx, q, (5,)), mu=s.mu,
                                         degrees=True),
          f.equi_to_cart(q, mu=s.mu), scale=1)


@harness('K13', env='kep', picks=EQ)
def degrees_cart_to_equi(cx):
    s = equi_nu(cx, cx.p.shape, cx.p.plane)
    f = cx.kepler
    cart = cx.arr(s.cart)
    cx.eq('cart_to_equi', f.cart_to_equi(cart, mu=s.mu, degrees=True),
          deg_rows(cx, f.cart_to_equi(cart, mu=s.mu), (5,)))


@harness('K13', env='kep', picks=dict(kind=KINDS, form=['scalar', 'array']))
def degrees_anomalies(cx):
    k = cx.p.kind
    e = ecc(cx, k)

    def g(x):
        return cx.arr([x]) if cx.p.form == 'array' else x
    nu = cx.angle('nu', div=2)
    if closed(k):
        cx.assume(cx.cos(nu/2) != 0)
    else:
        cx.assume(1 + e*cx.cos(nu) > 0)
    f = cx.kepler
    cx.eq('true_to_eccentric',
          f.true_to_eccentric(g(deg(cx, nu)), g(e), degrees=True),
          deg(cx, f.true_to_eccentric(g(nu), g(e))))
    cx.eq('true_to_mean', f.true_to_mean(g(deg(cx, nu)), g(e), degrees=True),
          deg(cx, f.true_to_mean(g(nu), g(e))))
    E = anomaly(cx, k)
    if closed(k):
        cx.assume(cx.cos(E/2) != 0)
    M = kepler_eq(cx, k, E, e)
    cx.root(E, e, M)
    for n, x in (('eccentric_to_true', E), ('eccentric_to_mean', E),
                 ('mean_to_eccentric', M), ('mean_to_true', M)):
        fn = getattr(f, n)
        cx.eq(n, fn(g(deg(cx, x)), g(e), degrees=True),
              deg(cx, fn(g(x), g(e))), scale=1)


@harness('K13')
def degrees_helpers(cx):
    f = cx.kepler
    a, e, x = cx.real('a', 0), cx.real('e', 0, 1), cx.angle('x')
    h, mu, q = cx.real('h', 0), cx.real('mu', 0), cx.real('q', 0)
    d = deg(cx, x)
    cx.eq('elliptic_radius', f.elliptic_radius(d, a, e, degrees=True),
          f.elliptic_radius(x, a, e))
    cx.eq('orbital_distance', f.orbital_distance(h, mu, e, d, degrees=True),
          f.orbital_distance(h, mu, e, x))
    cx.assume(cx.cos(x) > -0.9)
    cx.eq('parabolic_radius', f.parabolic_radius(d, q, degrees=True),
          f.parabolic_radius(x, q))
    e2 = cx.real('e2', 1, 1.1)
    cx.eq('hyperbolic_radius', f.hyperbolic_radius(d, a, e2, degrees=True),
          f.hyperbolic_radius(x, a, e2))
    cx.eq('asymptote', f.true_of_the_asymptote(e2, degrees=True),
          deg(cx, f.true_of_the_asymptote(e2)))
    y, z = cx.angle('y'), cx.angle('z')
    cx.eq('euler', f.euler_rotation_matrix(deg(cx, y), deg(cx, z), d,
                                           degrees=True),
          f.euler_rotation_matrix(y, z, x), scale=1)


# ------------------------------------------------------------ vectorisation
# column kinds: conic, plane, half of the circle the angles lie in
def columns_picks(tier):
    kinds = [(k, 'gen') for k in KINDS] + [
        (k, p) for k in KINDS for p in ('pro', 'ret')]
    out = []
    for i, a in enumerate(kinds):
        for j, b in enumerate(kinds):
            if tier == 'quick' and (i + 2*j) % 3:
                continue
            out.append(dict(a=list(a), b=list(b), mu='array'))
    for i, a in enumerate(kinds):
        out.append(dict(a=list(a), b=list(kinds[(i + 5) % 12]), mu='scalar'))
    return out


def column(cx, kp, tag, half, mu=None, root=None):
    """A state with its angles in one half of the circle (few branches).

    root: square root of mu; the semi-latus rectum is a square, too."""
    kind, plane = kp
    lo, hi = (0.2, 2.9) if half == 0 else (3.4, 6.0)
    if kind in ('par', 'hyp'):
        nu = cx.angle('nu' + tag, lo=0.2 if half == 0 else 4.9,
                      hi=1.4 if half == 0 else 6.0)
    else:
        nu = cx.angle('nu' + tag, lo=lo, hi=hi)
    s = Pos()
    if kind != 'par':
        p = cx.real('p' + tag, 0)
        if root is not None:
            w = root/p
            p = p*p
    if kind == 'ell':
        e = cx.real('e' + tag, E_MIN, 1)
        a = p/(1 - e*e)
    elif kind == 'circ':
        e, a = cx.scalar(0.0), p
    elif kind == 'par':
        a = cx.real('q' + tag, 0)
        p, e = 2*a, cx.scalar(1.0)
    else:
        e = cx.real('e' + tag, 1, None)
        a = p/(e*e - 1)
    if mu is None:
        w = cx.real('w' + tag, 0)
        s.mu = w*w*p
    else:
        s.mu = mu
        if root is None:
            w = cx.sqrt(mu/p)
    s.inc = (cx.angle('inc' + tag, lo=I_MIN, hi=cx.pi - I_MIN, rng='half')
             if plane == 'gen' else
             cx.scalar(0.0 if plane == 'pro' else cx.pi))
    z = cx.scalar(0.0)
    s.om = z if kind == 'circ' else cx.angle('om' + tag, lo=lo, hi=hi)
    s.OM = cx.angle('OM' + tag, lo=lo, hi=hi) if plane == 'gen' else z
    s.nu = nu
    s.kep = [a, e, s.inc, s.om, s.OM, nu]
    R = rotation(cx, s.inc, s.om, s.OM)
    c, sn = cx.cos(nu), cx.sin(nu)
    rn = p/(1 + e*c)
    s.cart = [rn*(R[k][0]*c + R[k][1]*sn) for k in range(3)] + \
        [w*(-R[k][0]*sn + R[k][1]*(e + c)) for k in range(3)]
    s.rn, s.w = rn, w
    return s


@harness('K14', picks=columns_picks)
def state_columns(cx):
    if cx.p.mu == 'array':
        s = [column(cx, cx.p.a, '1', 0), column(cx, cx.p.b, '2', 1)]
        mus = [x.mu for x in s]
        mu = cx.arr(mus)
    else:
        mu = cx.real('m', 0)
        m2 = mu*mu
        s = [column(cx, cx.p.a, '1', 0, m2), column(cx, cx.p.b, '2', 1, m2)]
        mus = [m2, m2]
        mu = m2
    f = cx.kepler
    kep = cx.arr([[x.kep[k] for x in s] for k in range(6)])
    cart = cx.arr([[x.cart[k] for x in s] for k in range(6)])
    C, K = f.kep_to_cart(kep, mu=mu), f.cart_to_kep(cart, mu=mu)
    for j in (0, 1):
        cv = f.kep_to_cart(cx.arr(s[j].kep), mu=mus[j])
        cx.eq(f'kep_to_cart {j}', C[:, j], cv)
        kv = f.cart_to_kep(cx.arr(s[j].cart), mu=mus[j])
        cx.eq(f'cart_to_kep {j}', K[:, j], kv)
        cx.check('shape', tuple(cv.shape) == (6,) and tuple(kv.shape) == (6,))


@harness('K14', picks=dict(kind=KINDS, plane=['gen', 'pro', 'ret']))
def single_column(cx):
    """Vectors and one-column arrays are the same orbit."""
    s = column(cx, (cx.p.kind, cx.p.plane), '1', 0)
    f = cx.kepler
    kep, cart = cx.arr(s.kep), cx.arr(s.cart)
    for mu in (s.mu, cx.arr([s.mu])):
        c1 = f.kep_to_cart(kep.reshape((6, 1)), mu=mu)
        cx.check('shape', tuple(c1.shape) == (6, 1))
        cx.eq('kep_to_cart', c1[:, 0], f.kep_to_cart(kep, mu=s.mu))
        k1 = f.cart_to_kep(cart.reshape((6, 1)), mu=mu)
        cx.check('shape', tuple(k1.shape) == (6, 1))
        cx.eq('cart_to_kep', k1[:, 0], f.cart_to_kep(cart, mu=s.mu))


@harness('K14', picks=lambda tier: [
    dict(a=x, b=y) for i, x in enumerate(('gen', 'circ', 'pro', 'both'))
    for j, y in enumerate(('gen', 'circ', 'pro', 'both'))
    if tier == 'thorough' or (i + j) % 2 or i == j])
def equinoctial_columns(cx):
    f = cx.kepler
    cols, eqs = [], []
    for t, k in (('1', cx.p.a), ('2', cx.p.b)):
        lo, hi = (0.2, 2.9) if t == '1' else (-2.9, -0.2)
        z = cx.scalar(0.0)
        circ, flat = k in ('circ', 'both'), k in ('pro', 'both')
        a = cx.real('a' + t, 0)
        e = z if circ else cx.real('e' + t, E_MIN, None)
        inc = z if flat else cx.angle('inc' + t, lo=I_MIN, hi=cx.pi - I_MIN,
                                      rng='half', div=2)
        lon = z if circ else cx.angle('lon' + t, rng='pm', lo=lo, hi=hi)
        OM = z if flat else cx.angle('OM' + t, rng='pm', lo=lo, hi=hi)
        nu = cx.angle('nu' + t, lo=0.2, hi=2.9)
        cols.append([a, e, inc, lon - OM, OM, nu])
        eqs.append(equi_of(cx, a, e, inc, lon, OM, lon + nu))
    Q = f.kep_to_equi(cx.arr([[c[k] for c in cols] for k in range(6)]))
    K = f.equi_to_kep(cx.arr([[c[k] for c in eqs] for k in range(6)]))
    for j in (0, 1):
        cx.eq(f'kep_to_equi {j}', Q[:, j], f.kep_to_equi(cx.arr(cols[j])))
        cx.eq(f'equi_to_kep {j}', K[:, j], f.equi_to_kep(eqs[j]))


ANOM = ['true_to_eccentric', 'true_to_mean', 'eccentric_to_true',
        'eccentric_to_mean', 'mean_to_eccentric', 'mean_to_true']


@harness('K14', env='kep', picks=[
    dict(fn=f, kinds=k) for f in ANOM for k in (
        ['ell', 'hyp', 'par'], ['hyp', 'ell', 'circ'], ['par', 'par', 'ell'],
        ['circ', 'hyp', 'ell'], ['ell', 'ell', 'hyp'])])
def anomaly_columns(cx):
    fn = getattr(cx.kepler, cx.p.fn)
    xs, es = [], []
    for t, k in enumerate(cx.p.kinds):
        e = ecc(cx, k, str(t))
        if cx.p.fn.startswith('true'):
            x = cx.angle(f'x{t}', div=2, lo=0.1, hi=1.5 if not closed(k)
                         else 3.0)
        else:
            lo, hi = ((0.2, 3.0), (3.3, 6.0))[t % 2]
            x = cx.angle(f'x{t}', div=2, lo=lo, hi=hi) if closed(k) \
                else anomaly(cx, k, f'x{t}')
            if cx.p.fn.startswith('mean'):
                M = kepler_eq(cx, k, x, e)
                cx.root(x, e, M)
                x = M
        xs.append(x)
        es.append(e)
    y = fn(cx.arr(xs), cx.arr(es))
    for j in range(3):
        cx.eq(f'entry {j}', y[j], fn(xs[j], es[j]), scale=1)
    y2 = fn(cx.arr([[xs[0]], [xs[1]], [xs[2]]]),
            cx.arr([[es[0]], [es[1]], [es[2]]]))
    cx.check('shape kept', tuple(y2.shape) == (3, 1))
    cx.eq('two dimensions', y2[:, 0], y, scale=1)


@harness('K14', env='kep', picks=[
    dict(fn=f, kind=k, rising=r) for f in ANOM if f != 'mean_to_true'
    for k in ('ell', 'hyp') for r in (True, False)])
def anomaly_equal(cx):
    """Entries with the same anomaly and different eccentricities."""
    fn = getattr(cx.kepler, cx.p.fn)
    k = cx.p.kind
    e = [ecc(cx, k, '0'), ecc(cx, k, '1')]
    if cx.p.fn.startswith('true'):
        x = cx.angle('x', div=2, lo=0.1, hi=3.0 if closed(k) else 1.5)
    elif closed(k):
        x = cx.angle('x', div=2, lo=0.2, hi=3.0)
    else:
        x = anomaly(cx, k, 'x')
        cx.assume(x != 0)
    if cx.p.fn.startswith('mean'):
        # the eccentricity of the second entry, for the same mean anomaly
        E2 = cx.angle('y', div=2, lo=0.2, hi=3.0) if closed(k) \
            else cx.hyp('y', 0.2, 2.0, div=2)
        if not closed(k):
            cx.assume(x > 0)
        M = kepler_eq(cx, k, x, e[0])
        e[1] = (E2 - M)/cx.sin(E2) if closed(k) else (M + E2)/cx.sinh(E2)
        cx.assume(e[1] > 0 if closed(k) else e[1] > 1)
        if closed(k):
            cx.assume(e[1] < 1)
        cx.root(x, e[0], M)
        cx.root(E2, e[1], M)
        x = M
    cx.assume(e[0] < e[1] if cx.p.rising else e[1] < e[0])
    y = fn(cx.arr([x, x]), cx.arr(e))
    for j in range(2):
        cx.eq(f'entry {j}', y[j], fn(x, e[j]), scale=1)


@harness('K14', env='kep', picks=dict(fn=ANOM, kind=['ell', 'par', 'hyp']))
def anomaly_broadcast(cx):
    """Arrays of anomalies with one eccentricity."""
    fn = getattr(cx.kepler, cx.p.fn)
    k = cx.p.kind
    e = ecc(cx, k)
    xs = []
    for t in range(2):
        if cx.p.fn.startswith('true'):
            x = cx.angle(f'x{t}', div=2, lo=0.1, hi=1.5 if not closed(k)
                         else 3.0)
        else:
            x = cx.angle(f'x{t}', div=2, lo=0.2, hi=3.0) if closed(k) \
                else anomaly(cx, k, f'x{t}')
            if cx.p.fn.startswith('mean'):
                M = kepler_eq(cx, k, x, e)
                cx.root(x, e, M)
                x = M
        xs.append(x)
    y = fn(cx.arr(xs), e)
    for j in range(2):
        cx.eq(f'entry {j}', y[j], fn(xs[j], e), scale=1)
    # one anomaly with an array of eccentricities
    e2 = ecc(cx, k, 'b')
    if cx.p.fn.startswith('mean') and k != 'par':
        return
    z = fn(xs[0], cx.arr([e, e2]))
    cx.eq('e array', z[0], fn(xs[0], e), scale=1)
    cx.eq('e array 2', z[1], fn(xs[0], e2), scale=1)


VIEWS = ['reversed', 'strided', 'column', 'transposed', 'fortran']


def as_view(cx, x, how):
    """A view with the values of the array (1-d, or 2-d for the last two)."""
    np = cx.np
    x = cx.arr(x)
    if how == 'reversed':
        return cx.arr(list(x[::-1]))[::-1]
    if how == 'strided':
        return cx.arr([v for y in x for v in (y, y + 1)])[::2]
    if how == 'column':
        return cx.arr([[v - 1, v] for v in x])[:, 1]
    if how == 'transposed':
        return cx.arr([[x[j, i] for j in range(x.shape[0])]
                       for i in range(x.shape[1])]).T
    if how == 'fortran':
        return np.array(x, order='F')
    raise ValueError(how)


@harness('K14', env='kep', picks=lambda tier: [
    dict(fn=f, view=v, which=w) for f in ANOM + ['kepler_guess']
    for v in VIEWS for w in ('x', 'e', 'both', 'x, one e')
    if tier != 'quick' or w == 'x'
    or (w == 'both' and v in ('reversed', 'transposed'))])
def anomaly_layout(cx):
    """The memory layout of the arguments does not matter."""
    p = cx.p
    fn = getattr(cx.kepler, p.fn)
    two = p.view in ('transposed', 'fortran')
    xs, es = [], []
    for t in range(4 if two else 3):
        # different ellipses and one hyperbola, all anomalies in a range
        hyp = t == 1 and p.which != 'x, one e'
        e = cx.scalar(3.0 if hyp else 0.3 if p.which == 'x, one e'
                      else 0.125*(t + 1))
        if p.fn == 'kepler_guess':
            x = cx.real(f'M{t}', 0.5, 1.5)
        elif p.fn.startswith('true') or not hyp:
            x = cx.angle(f'x{t}', div=2, lo=0.1 + 0.3*t, hi=0.3 + 0.3*t)
        else:
            x = cx.hyp(f'x{t}', 0.2, 1.0, div=2)
        if p.fn.startswith('mean'):
            M = kepler_eq(cx, 'hyp' if hyp else 'ell', x, e)
            cx.root(x, e, M)
            x = M
        xs.append(x)
        es.append(e)
    want = [fn(x, e) for x, e in zip(xs, es)]
    if two:
        xs, es, want = ([v[:2], v[2:]] for v in (xs, es, want))
    a = as_view(cx, xs, p.view) if p.which != 'e' else cx.arr(xs)
    if p.which == 'x, one e':
        b = es[0][0] if two else es[0]
    else:
        b = as_view(cx, es, p.view) if p.which != 'x' else cx.arr(es)
    y = fn(a, b)
    w = cx.arr(want)
    cx.check('shape', tuple(y.shape) == tuple(w.shape))
    cx.eq('entries', y, w, scale=1)


@harness('K14', env='kep', picks=[
    dict(view=v, mu=m) for v in ('reversed', 'transposed', 'fortran',
                                 'strided') for m in ('plain', 'view')])
def state_layout(cx):
    p = cx.p
    f = cx.kepler
    s = [column(cx, ('ell', 'gen'), '1', 0), column(cx, ('circ', 'gen'),
                                                    '2', 1)]
    kep = [[x.kep[k] for x in s] for k in range(6)]
    cart = [[x.cart[k] for x in s] for k in range(6)]

    def view(rows):
        if p.view == 'reversed':
            return cx.arr([r[::-1] for r in rows[::-1]])[::-1, ::-1]
        if p.view == 'strided':
            return cx.arr([[v for y in r for v in (y, y)]
                           for q in rows for r in (q, q)])[::2, ::2]
        return as_view(cx, rows, p.view)
    mu = cx.arr([x.mu for x in s])
    if p.mu == 'view':
        mu = as_view(cx, [x.mu for x in s], 'reversed' if p.view == 'reversed'
                     else 'strided')
    C, K = f.kep_to_cart(view(kep), mu=mu), f.cart_to_kep(view(cart), mu=mu)
    for j in (0, 1):
        cx.eq(f'kep_to_cart {j}', C[:, j], f.kep_to_cart(
            cx.arr(s[j].kep), mu=s[j].mu))
        cx.eq(f'cart_to_kep {j}', K[:, j], f.cart_to_kep(
            cx.arr(s[j].cart), mu=s[j].mu))


# ------------------------------------------------------------------- purity
def pure(cx, name, f, *arrays):
    snaps = [(cx.snapshot(a), tuple(a.shape)) for a in arrays]
    r1 = f()
    for k, (a, (s, sh)) in enumerate(zip(arrays, snaps)):
        cx.check(f'{name}: shape of argument {k}', tuple(a.shape) == sh)
        cx.eq(f'{name}: argument {k}', a, s)
    r2 = f()
    cx.eq(f'{name}: repeated', r2, r1, scale=1)


PURE = [dict(kind=k, plane=p, shape=s, degrees=d) for k in KINDS
        for p in ('gen', 'pro') for s in ('vec', 'cols')
        for d in (False, True)]


@harness('K15', env='kep', picks=PURE)
def pure_states(cx):
    f = cx.kepler
    s = column(cx, (cx.p.kind, cx.p.plane), '1', 0)
    d = cx.p.degrees
    kep, cart = cx.arr(s.kep), cx.arr(s.cart)
    if d:
        kep = deg_rows(cx, kep, ANGLES_KEP)
    mu = s.mu
    arrays = []
    if cx.p.shape == 'cols':
        kep, cart = kep.reshape((6, 1)), cart.reshape((6, 1))
        mu = cx.arr([s.mu])
        arrays = [mu]
    pure(cx, 'kep_to_cart', lambda: f.kep_to_cart(kep, mu=mu, degrees=d),
         kep, *arrays)
    pure(cx, 'cart_to_kep', lambda: f.cart_to_kep(cart, mu=mu, degrees=d),
         cart, *arrays)
    pure(cx, 'kep_to_equi', lambda: f.kep_to_equi(kep, degrees=d), kep) \
        if cx.p.plane != 'gen' or not d else None


def EQP(tier):
    return [dict(shape=q['shape'], plane=q['plane'], dim=s, degrees=d)
            for q in EQ for s in ('vec', 'cols') for d in (False, True)
            if tier == 'thorough' or (s == 'cols') == d
            or q['plane'] != 'gen']


def equi_shape(cx, q, cart, mu):
    if cx.p.dim == 'cols':
        return (q.reshape((6, 1)), cart.reshape((6, 1)), cx.arr([mu]), 1)
    return q, cart, mu, 0


@harness('K15', env='kep', picks=EQP)
def pure_equinoctial(cx):
    f = cx.kepler
    s = equi_E(cx, cx.p.shape, cx.p.plane, lo=0.2, hi=2.9)
    d = cx.p.degrees
    q = s.equi
    if d:
        q = deg_rows(cx, q, (5,))
    q, _, mu, n = equi_shape(cx, q, q, s.mu)
    pure(cx, 'equi_to_kep', lambda: f.equi_to_kep(q, degrees=d), q)
    kep = f.equi_to_kep(q, degrees=d)
    pure(cx, 'kep_to_equi', lambda: f.kep_to_equi(kep, degrees=d), kep)
    pure(cx, 'equi_to_cart', lambda: f.equi_to_cart(q, mu=mu, degrees=d), q,
         *[mu]*n)


@harness('K15', env='kep', picks=EQP)
def pure_cart_to_equi(cx):
    f = cx.kepler
    s = equi_nu(cx, cx.p.shape, cx.p.plane)
    d = cx.p.degrees
    cart = cx.arr(s.cart)
    cart, _, mu, n = equi_shape(cx, cart, cart, s.mu)
    pure(cx, 'cart_to_equi', lambda: f.cart_to_equi(cart, mu=mu, degrees=d),
         cart, *[mu]*n)


@harness('K15', env='kep', picks=dict(fn=ANOM, kind=['ell', 'par', 'hyp'],
                                      degrees=[False, True]))
def pure_anomalies(cx):
    fn = getattr(cx.kepler, cx.p.fn)
    k = cx.p.kind
    e = ecc(cx, k)
    if cx.p.fn.startswith('true'):
        x = cx.angle('x', div=2, lo=0.1, hi=1.5)
    else:
        x = anomaly(cx, k, 'x')
        if closed(k):
            cx.assume(cx.cos(x/2) != 0)
        if cx.p.fn.startswith('mean'):
            M = kepler_eq(cx, k, x, e)
            cx.root(x, e, M)
            x = M
    if cx.p.degrees:
        x = deg(cx, x)
    X, Ea = cx.arr([x, x]), cx.arr([e, e])
    pure(cx, cx.p.fn, lambda: fn(X, Ea, degrees=cx.p.degrees), X, Ea)
    if cx.p.fn == 'mean_to_eccentric' and not cx.p.degrees:
        pure(cx, 'kepler_guess', lambda: cx.kepler.kepler_guess(X, Ea), X, Ea)


@harness('K15', picks=dict(fn=['kep_to_cart', 'cart_to_kep', 'equi_to_cart',
                               'cart_to_equi'], deg=[False, True]))
def pure_when_rejected(cx):
    """A call that cannot be carried out leaves its arguments alone."""
    fn = getattr(cx.kepler, cx.p.fn)
    # (circular orbits: the Kepler equation is of no interest here)
    x = cx.arr([cx.scalar(0.0) if cx.p.fn == 'equi_to_cart' and k in (1, 2)
                else cx.real('xyzuvw'[k], 0.2, 0.9) for k in range(6)])
    mu = cx.arr([cx.real('m0', 0, 9), cx.real('m1', 0, 9)])
    keep, kmu = cx.snapshot(x), cx.snapshot(mu)
    cx.raises(Exception, lambda: fn(x, mu=mu, degrees=cx.p.deg))
    cx.check('shape', tuple(x.shape) == (6,) and tuple(mu.shape) == (2,))
    cx.eq('argument', x, keep)
    cx.eq('mu', mu, kmu)


@harness('K15', picks=dict(kind=['ell', 'hyp']), feas_ms=150, lazy_abs=True)
def pure_solver(cx):
    """Entries of arrays, as 0-d arrays, given to the solver."""
    f = cx.kepler
    if cx.p.kind == 'hyp':
        e, E = cx.real('e', 1, None), cx.hyp('E0')
    else:
        e, E = cx.real('e', 0, 1), cx.angle('E0', rng='pm')
    E0, M, ea = (cx.arr([x]).reshape(()) for x in (E, cx.real('M'), e))
    keep = [cx.snapshot(x) for x in (E0, M, ea)]
    f.laguerre_solve_kepler(E0, M, ea, tol=1e-3, max_iter=1)
    for nm, x, y in zip(('start', 'anomaly', 'eccentricity'), (E0, M, ea),
                        keep):
        cx.eq(nm, x, y)


@harness('K15')
def pure_helpers(cx):
    f = cx.kepler
    x = cx.angle('x', lo=0.2, hi=2.8)
    y = cx.angle('y', lo=0.2, hi=2.8)
    z = cx.angle('z', lo=0.2, hi=2.8)
    X, Y, Z = cx.arr([x, y]), cx.arr([y, z]), cx.arr([z, x])
    a = cx.arr([cx.real('a1', 0), cx.real('a2', 0)])
    e = cx.arr([cx.real('e1', 0, 1), cx.real('e2', 0, 1)])
    mu = cx.arr([cx.real('m1', 0), cx.real('m2', 0)])
    h = cx.arr([cx.real('h1', 0), cx.real('h2', 0)])
    for d in (False, True):
        pure(cx, 'euler', lambda: f.euler_rotation_matrix(X, Y, Z, degrees=d),
             X, Y, Z)
        pure(cx, 'elliptic_radius',
             lambda: f.elliptic_radius(X, a, e, degrees=d), X, a, e)
        pure(cx, 'orbital_distance',
             lambda: f.orbital_distance(h, mu, e, X, degrees=d), h, mu, e, X)
        pure(cx, 'parabolic_radius',
             lambda: f.parabolic_radius(X, a, degrees=d), X, a)
        pure(cx, 'hyperbolic_radius',
             lambda: f.hyperbolic_radius(X, a, e, degrees=d), X, a, e)
    t = cx.arr([cx.real('t1', 0, 1), -cx.real('t2', 0, 1)])
    for n in ('stumpff0', 'stumpff1', 'stumpff2', 'stumpff3'):
        pure(cx, n, lambda: getattr(f, n)(t), t)
    P = cx.arr([cx.real('P1', 0), cx.real('P2', 0)])
    pure(cx, 'orbital_period', lambda: f.orbital_period(a*a, mu), a, mu)
    pure(cx, 'semi_major_axis', lambda: f.semi_major_axis(P, mu), P, mu)
    k1 = cx.arr([1.5, 0.25, 0.5, 1.0, 2.0, 3.0])
    k2 = cx.arr([1.5, 0.25, 0.0, 1.0, 2.0, 3.0])
    pure(cx, 'kep_equivalent', lambda: int(f.kep_equivalent(k1, k2)), k1, k2)


# ------------------------------------------------------------------ helpers
@harness('K16', picks=dict(kind=['ell', 'par', 'hyp']))
def radius_and_speed(cx):
    s = state(cx, cx.p.kind, 'pro', om=False, OM=False)
    f = cx.kepler
    h = s.w*s.p          # angular momentum
    v2 = dot(s.v, s.v)
    cx.eq('orbital_distance', f.orbital_distance(h, s.mu, s.e, s.nu), s.rn)
    if s.kind == 'par':
        cx.eq('parabolic_radius', f.parabolic_radius(s.nu, s.a), s.rn)
        cx.eq('angular momentum',
              f.parabolic_total_angular_momentum(s.a, s.mu), h)
        return
    a = s.a if s.kind == 'ell' else -s.a
    cx.eq('angular momentum', f.orbit_total_angular_momentum(a, s.e, s.mu), h)
    sp = f.orbital_speed(s.rn, a, s.mu)
    cx.eq('speed', sp*sp, v2)
    cx.check('speed is positive', sp >= 0)
    if s.kind == 'hyp':
        cx.eq('hyperbolic_radius', f.hyperbolic_radius(s.nu, s.a, s.e), s.rn)
        th = f.true_of_the_asymptote(s.e)
        cx.eq('asymptote', cx.cos(th)*s.e, -1)
        cx.in_range('asymptote', th, cx.pi/2, cx.pi)


@harness('K16')
def radius_of_ellipse(cx):
    s = elliptic(cx, 'gen', 'pro')
    cx.eq('elliptic_radius', cx.kepler.elliptic_radius(s.E, s.a, s.e), s.rn)
    cx.eq('same as the state', dot(s.r, s.r), s.rn*s.rn)


@harness('K16')
def period_and_axis(cx):
    a, n = cx.real('a', 0), cx.real('n', 0)
    f = cx.kepler
    mu = n*n*a*a*a                   # mean motion n
    P = f.orbital_period(a, mu)
    cx.eq('period', P*n, 2*cx.pi)
    cx.eq('axis', f.semi_major_axis(P, mu), a)
    P2, m2 = cx.real('P', 0), cx.real('mu', 0)
    a2 = f.semi_major_axis(P2, m2)
    cx.eq('axis of period', a2*a2*a2*(2*cx.pi)*(2*cx.pi), P2*P2*m2)
    cx.check('positive', a2 > 0)


@harness('K17', picks=dict(form=['scalar', 'array', 'mixed'],
                           degrees=[False, True]))
def euler_matrix(cx):
    f = cx.kepler
    n = 1 if cx.p.form == 'scalar' else 2
    inc = [cx.angle(f'i{k}') for k in range(n)]
    om = [cx.angle(f'om{k}') for k in range(n)]
    OM = [cx.angle(f'OM{k}') for k in range(n)]
    g = (lambda x: deg(cx, x)) if cx.p.degrees else (lambda x: x)
    if cx.p.form == 'scalar':
        R = f.euler_rotation_matrix(g(inc[0]), g(om[0]), g(OM[0]),
                                    degrees=cx.p.degrees)
        cx.check('shape', tuple(R.shape) == (3, 3))
        R = [R]
    else:
        if cx.p.form == 'mixed':
            om = [om[0], om[0]]
            args = [cx.arr([g(x) for x in inc]), g(om[0]),
                    cx.arr([g(x) for x in OM])]
        else:
            args = [cx.arr([g(x) for x in v]) for v in (inc, om, OM)]
        Rv = f.euler_rotation_matrix(*args, degrees=cx.p.degrees)
        cx.check('shape', tuple(Rv.shape) == (3, 3, 2))
        R = [Rv[:, :, k] for k in range(2)]
    for k in range(n):
        Z = rotation(cx, inc[k], om[k], OM[k])
        for i in range(3):
            for j in range(2):
                cx.eq(f'R{k}[{i},{j}]', R[k][i, j], Z[i][j], scale=1)
        M = R[k]
        for i in range(3):
            for j in range(3):
                cx.eq(f'orthogonal{k}', sum(M[m, i]*M[m, j]
                                            for m in range(3)),
                      1 if i == j else 0, scale=1)
        det = dot([M[i, 0] for i in range(3)], cross(
            [M[i, 1] for i in range(3)], [M[i, 2] for i in range(3)]))
        cx.eq(f'determinant{k}', det, 1)


@harness('K17', picks=dict(which=[
    ['inc'], ['om'], ['OM'], ['inc', 'om'], ['inc', 'OM'], ['om', 'OM'],
    ['inc', 'om', 'OM']], degrees=[False, True], turn=[0, 1, -2]))
def euler_vectors(cx):
    """Any of the arguments may be vectors."""
    f, p = cx.kepler, cx.p

    def g(x):
        x = x + 2*cx.pi*p.turn if p.turn else x
        return deg(cx, x) if p.degrees else x

    v = {k: cx.angle(k) for k in ('inc', 'om', 'OM')}
    w = {k: cx.angle('second ' + k) for k in p.which}
    args = {k: cx.arr([g(v[k]), g(w[k])]) if k in w else g(v[k]) for k in v}
    R = f.euler_rotation_matrix(args['inc'], args['om'], args['OM'],
                                degrees=p.degrees)
    for k in range(2):
        u = dict(v)
        if k:
            u.update(w)
        S = f.euler_rotation_matrix(u['inc'], u['om'], u['OM'])
        cx.eq(f'entry {k}', R[:, :, k], S, scale=1)


@harness('K17')
def elementary_rotations(cx):
    f = cx.kepler
    t = cx.angle('t')
    c, s = cx.cos(t), cx.sin(t)
    cx.eq('x', f.rot_mat_x(t), cx.arr([[1, 0, 0], [0, c, -s], [0, s, c]]),
          scale=1)
    cx.eq('y', f.rot_mat_y(t), cx.arr([[c, 0, s], [0, 1, 0], [-s, 0, c]]),
          scale=1)
    cx.eq('z', f.rot_mat_z(t), cx.arr([[c, -s, 0], [s, c, 0], [0, 0, 1]]),
          scale=1)
    a, b, g = cx.angle('a'), cx.angle('b'), cx.angle('g')
    X, Z1, Z2 = f.rot_mat_x(a), f.rot_mat_z(b), f.rot_mat_z(g)
    R = f.euler_rotation_matrix(a, b, g)
    for i in range(3):
        for j in range(3):
            cx.eq(f'Z-X-Z[{i},{j}]', R[i, j],
                  sum(Z2[i, k]*X[k, m]*Z1[m, j] for k in range(3)
                      for m in range(3)), scale=1)


@harness('K18', picks=dict(sign=['pos', 'zero', 'neg'],
                           form=['scalar', 'array']))
def stumpff_relations(cx):
    f = cx.kepler
    if cx.p.sign == 'pos':
        t = cx.angle('t', lo=1e-4)
        x = t*t
    elif cx.p.sign == 'neg':
        t = cx.hyp('t', lo=1e-4)
        x = -t*t
    else:
        x = cx.scalar(0.0)
    if cx.p.form == 'array':
        g = lambda n, y: getattr(f, n)(cx.arr([y]))[0]
        c = [v[0] for v in f.stumpff(cx.arr([x]))]
    else:
        g = lambda n, y: getattr(f, n)(y)
        c = list(f.stumpff(x))
    for k in range(4):
        cx.eq(f'stumpff[{k}]', c[k], g(f'stumpff{k}', x), scale=1)
    cx.eq('c0', c[0], 1 - x*c[2], scale=1)
    cx.eq('c1', c[1], 1 - x*c[3], scale=1)
    cx.eq('pythagoras', c[0]*c[0] + x*c[1]*c[1], 1, scale=1)
    if cx.p.sign == 'zero':
        cx.eq('c2', c[2], 0.5)
        cx.eq('c3', c[3]*6, 1)
        return
    if cx.p.sign == 'pos':
        cx.eq('cosine', c[0], cx.cos(t), scale=1)
        cx.eq('sine', c[1]*t, cx.sin(t), scale=1)
    else:
        cx.eq('cosh', c[0], cx.cosh(t))
        cx.eq('sinh', c[1]*t, cx.sinh(t))
    cx.eq('double c0', g('stumpff0', 4*x), 2*c[0]*c[0] - 1, scale=1)
    cx.eq('double c1', g('stumpff1', 4*x), c[0]*c[1], scale=1)
    cx.eq('double c2', g('stumpff2', 4*x), c[1]*c[1]/2, scale=1)
    cx.eq('double c3', g('stumpff3', 4*x), (c[2] + c[0]*c[3])/4, scale=1)


@harness('K18')
def stumpff_arrays(cx):
    f = cx.kepler
    x = [cx.real('x0', 0, None), cx.scalar(0.0), -cx.real('x1', 0, None)]
    for n in ('stumpff0', 'stumpff1', 'stumpff2', 'stumpff3'):
        fn = getattr(f, n)
        y = fn(cx.arr(x))
        cx.check('shape', tuple(y.shape) == (3,))
        for k in range(3):
            cx.eq(f'{n}[{k}]', y[k], fn(x[k]), scale=1)


# ------------------------------------------------------------ equivalence
def near(cx, name, x, y, size):
    """|x - y| within a few times the comparison tolerance."""
    d = x - y
    t = 4e-8 + 4e-5*size
    cx.check(name, (d <= t) & (-d <= t))


@harness('K19', picks=dict(e=['circ', 'gen', 'any'],
                           i=['planar', 'gen', 'any']))
def equivalence_is_sound(cx):
    f = cx.kepler

    def el(t):
        e = {'circ': lambda: cx.scalar(0.0),
             'gen': lambda: cx.real('e' + t, E_MIN, 3, nom=0.25),
             'any': lambda: cx.real('e' + t, 0, 3, True, nom=0.25)
             }[cx.p.e]()
        i = {'planar': lambda: cx.scalar(0.0),
             'gen': lambda: cx.real('i' + t, I_MIN, 3.1, nom=0.5),
             'any': lambda: cx.real('i' + t, 0, 3.1, True, nom=0.5)
             }[cx.p.i]()
        return [cx.real('a' + t, 0, 100, nom=2), e, i,
                cx.real('om' + t, 0, 6.28, True, nom=1),
                cx.real('OM' + t, 0, 6.28, True, nom=2),
                cx.real('nu' + t, 0, 6.28, True, nom=3)]
    A, B = el('1'), el('2')
    if not f.kep_equivalent(cx.arr(A), cx.arr(B)):
        return cx.check('not equivalent', True)
    near(cx, 'size', A[0], B[0], A[0] + B[0])
    near(cx, 'eccentricity', A[1], B[1], A[1] + B[1])
    near(cx, 'inclination', A[2], B[2], A[2] + B[2])
    S = sum(A[3:]) + sum(B[3:])
    near(cx, 'longitude', sum(A[3:]), sum(B[3:]), S)
    if cx.p.i == 'gen':
        near(cx, 'node', A[4], B[4], S)
    if cx.p.e == 'gen':
        near(cx, 'anomaly', A[5], B[5], S)
        near(cx, 'periapsis', A[3] + A[4], B[3] + B[4], S)


@harness('K19', picks=dict(kind=['circ', 'planar', 'both', 'same']))
def equivalence_of_degenerate(cx):
    f = cx.kepler
    k = cx.p.kind
    a = cx.real('a', 0, 100)
    e = cx.scalar(0.0) if k in ('circ', 'both') else cx.real('e', E_MIN, 3)
    i = cx.scalar(0.0) if k in ('planar', 'both') else \
        cx.real('i', I_MIN, 3.1)
    om, OM, nu = cx.real('om', 0, 6), cx.real('OM', 0, 6), cx.real('nu', 0, 6)
    d1, d2 = cx.real('d1', -1, 1), cx.real('d2', -1, 1)
    A = [a, e, i, om, OM, nu]
    B = {'circ': [a, e, i, om + d1, OM, nu - d1],
         'planar': [a, e, i, om + d1, OM - d1, nu],
         'both': [a, e, i, om + d1, OM + d2, nu - d1 - d2],
         'same': list(A)}[k]
    cx.check('equivalent', bool(f.kep_equivalent(cx.arr(A), cx.arr(B))))
