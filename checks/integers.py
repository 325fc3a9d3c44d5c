"""Integer arrays are converted like arrays of the same real numbers."""
from symx.reg import harness
from .kepler_anomaly import ecc
from .kepler_misc import ANOM

EXPO = {'ell': (0, 1), 'hyp': (1, None)}


def whole_or_float(cx, name, whole, lo, hi, angle=False):
    if not whole:
        return cx.angle(name, lo=lo, hi=hi, div=2) if angle \
            else cx.real(name, lo, hi)
    return cx.int_angle(name, lo, hi, div=2) if angle \
        else cx.int_real(name, lo, hi)


@harness('K23', env='kep', picks=[
    dict(fn=f, kind=k, which=w)
    for f in ANOM + ['kepler_guess'] for k in ('ell', 'hyp', 'par')
    for w in ('x', 'e', 'both', 'x, one e', 'one x, e')
    if not (k != 'hyp' and w in ('e', 'both', 'one x, e'))
    and not (k == 'par' and f == 'kepler_guess')])
def integer_anomalies(cx):
    p = cx.p
    fn = getattr(cx.kepler, p.fn)
    xi = p.which in ('x', 'both', 'x, one e')
    ei = p.which in ('e', 'both', 'one x, e')
    xs, es = [], []
    for t in range(2):
        if p.kind == 'par':
            e = cx.scalar(1.0)
        else:
            e = whole_or_float(cx, f'e{t}', ei, *(
                (0, 1) if p.kind == 'ell' else (1, 9)))
        if p.kind == 'ell' or p.fn.startswith('true'):
            x = whole_or_float(cx, f'x{t}', xi, *(
                (0.5, 1.2) if p.kind != 'ell' and p.fn.startswith('true')
                else (0.2, 3.0)), angle=not p.fn.startswith(
                    ('mean', 'kepler')))
        elif p.kind == 'hyp' and not p.fn.startswith(('mean', 'kepler')):
            x = cx.hyp(f'x{t}', 0.2, 3.0, div=2) if not xi \
                else cx.int_hyp(f'x{t}', 0.2, 3.0, div=2)
        else:
            x = whole_or_float(cx, f'x{t}', xi, 0.2, 9)
        xs.append(x)
        es.append(e)
    if p.which in ('x, one e', 'one x, e'):
        one = 'e' if p.which == 'x, one e' else 'x'
        a = xs[0] if one == 'x' else cx.iarr(xs)
        b = es[0] if one == 'e' else cx.iarr(es)
        w = fn(xs[0] if one == 'x' else cx.arr(xs),
               es[0] if one == 'e' else cx.arr(es))
    else:
        a = cx.iarr(xs) if xi else cx.arr(xs)
        b = cx.iarr(es) if ei else cx.arr(es)
        w = fn(cx.arr(xs), cx.arr(es))
    y = fn(a, b)
    cx.eq('entries', y, w, scale=1)


@harness('K23', picks=dict(fn=['stumpff0', 'stumpff1', 'stumpff2',
                               'stumpff3', 'stumpff'], sign=['pos', 'neg']))
def integer_stumpff(cx):
    fn = getattr(cx.kepler, cx.p.fn)
    many = (lambda v: list(v)) if cx.p.fn == 'stumpff' else (lambda v: [v])
    x = cx.int_real('x0', 0, 9)
    if cx.p.sign == 'neg':
        x = -x
    ys = many(fn(cx.iarr([x, cx.scalar(0.0)])))
    ws = many(fn(cx.arr([x, cx.scalar(0.0)])))
    for k, (y, w) in enumerate(zip(ys, ws)):
        cx.eq(f'function {k}', y, w, scale=1)


def whole_kepler(cx, kind, t):
    """Elements that are all integers."""
    a = cx.int_real('a' + t, 0, 20)
    e = cx.scalar(dict(circ=0.0, par=1.0).get(kind)) if kind != 'hyp' \
        else cx.int_real('e' + t, 1, 9)
    inc = cx.int_angle('i' + t, 0.5, 2.5)
    om, OM = (cx.int_angle(n + t, 0.5, 2.5) for n in ('om', 'OM'))
    nu = cx.int_angle('nu' + t, 0.5, 1.4)
    return [a, e, inc, om, OM, nu]


@harness('K23', picks=dict(fn=['kep_to_cart', 'kep_to_equi'],
                           kinds=[['circ', 'hyp'], ['par', 'circ'],
                                  ['hyp', 'par']],
                           shape=['vector', 'two'], mu=['float', 'whole'],
                           deg=[False, True]))
def integer_elements(cx):
    p = cx.p
    if p.fn == 'kep_to_equi' and p.mu == 'whole':
        return
    ks = [whole_kepler(cx, k, str(t)) for t, k in enumerate(p.kinds)]
    k = {}
    if p.fn == 'kep_to_cart':
        m = cx.int_real('mu', 0, 9)
        k['mu'] = m
    if p.deg:
        k['degrees'] = True
    fn = getattr(cx.kepler, p.fn)
    x = ks[0] if p.shape == 'vector' else [[c[j] for c in ks]
                                           for j in range(6)]
    w = fn(cx.arr(x), **k)
    if p.mu == 'whole':
        k['mu'] = cx.iarr([m] if p.shape == 'vector' else [m, m])
    y = fn(cx.iarr(x), **k)
    cx.eq('result', y, w, scale=1)


def free_state(cx, plane, t):
    v = [cx.int_real(n + t, 0.5, 9) for n in 'xyzuvw']
    if plane == 'pro':
        v[2] = v[5] = cx.scalar(0.0)
    return v


@harness('K23', picks=dict(plane=['gen', 'pro'], shape=['vector', 'two'],
                           mu=['float', 'whole']), job_s=100)
def integer_states(cx):
    p = cx.p
    f = cx.kepler
    # circular orbits: every component is a product of integers
    ss = []
    for t in ('0', '1'):
        r, v = cx.int_real('r' + t, 0, 9), cx.int_real('v' + t, 0, 9)
        z = cx.scalar(0.0)
        ss.append([r, z, z, z, v, z] if p.plane == 'pro'
                  else [r, z, z, z, v, 2*v])
    mu = cx.int_real('mu', 0, 9)
    x = ss[0] if p.shape == 'vector' else [[c[j] for c in ss]
                                           for j in range(6)]
    w = f.cart_to_kep(cx.arr(x), mu=mu)
    if p.mu == 'whole':
        mu = cx.iarr([mu] if p.shape == 'vector' else [mu, mu])
    y = f.cart_to_kep(cx.iarr(x), mu=mu)
    cx.eq('elements', y, w, scale=1)


@harness('K23', picks=dict(shape=['vector', 'two'], deg=[False, True],
                           zero=['none', 'ecc', 'inc']))
def integer_equinoctial(cx):
    p = cx.p
    f = cx.kepler
    ss = []
    for t in ('0', '1'):
        v = [cx.int_real(n + t, 0.5, 9) for n in 'ahkpq'] \
            + [cx.int_real('lam' + t, 0.5, 6)]
        if p.zero == 'ecc':
            v[1] = v[2] = cx.scalar(0.0)
        if p.zero == 'inc':
            v[3] = v[4] = cx.scalar(0.0)
        ss.append(v)
    x = ss[0] if p.shape == 'vector' else [[c[j] for c in ss]
                                           for j in range(6)]
    k = dict(degrees=True) if p.deg else {}
    w = f.equi_to_kep(cx.arr(x), **k)
    y = f.equi_to_kep(cx.iarr(x), **k)
    cx.eq('elements', y, w, scale=1)


@harness('K23', picks=dict(deg=[False, True], which=['inc', 'om', 'OM']))
def integer_rotation(cx):
    p = cx.p
    f = cx.kepler
    x = [cx.int_angle(f'x{t}', 0.5, 2.5) for t in range(2)]
    y, z = cx.angle('y'), cx.angle('z')
    k = dict(degrees=True) if p.deg else {}
    i = dict(inc=0, om=1, OM=2)[p.which]

    def args(v):
        a = [y, z]
        a.insert(i, v)
        return a
    cx.eq('matrix', f.euler_rotation_matrix(*args(cx.iarr(x)), **k),
          f.euler_rotation_matrix(*args(cx.arr(x)), **k), scale=1)
