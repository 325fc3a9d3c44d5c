"""Unknown (NaN) inputs give unknown results, and only those."""
from symx.reg import harness
from .kepler_anomaly import ecc, anomaly, kepler_eq, closed
from .kepler_misc import ANOM, column, equi_of, E_MIN, I_MIN, as_view


def anom_arg(cx, fn, kind, e, tag=''):
    if fn.startswith('true'):
        return cx.angle('x' + tag, div=2, lo=0.1,
                        hi=1.5 if not closed(kind) else 3.0)
    x = cx.angle('x' + tag, div=2, lo=0.2, hi=3.0) if closed(kind) \
        else anomaly(cx, kind, 'x' + tag)
    if fn.startswith('mean'):
        M = kepler_eq(cx, kind, x, e)
        cx.root(x, e, M)
        return M
    return x


@harness('K22', env='kep', picks=dict(
    fn=ANOM + ['kepler_guess'], kind=['ell', 'circ', 'par', 'hyp'],
    miss=['x', 'e', 'both']))
def unknown_anomalies(cx):
    """Unknown entries stay unknown, the others are those without them."""
    p = cx.p
    fn = getattr(cx.kepler, p.fn)
    if p.fn == 'kepler_guess' and p.kind == 'par':
        return
    e = ecc(cx, p.kind)
    x = cx.real('M', 0.5, 1.5) if p.fn == 'kepler_guess' \
        else anom_arg(cx, p.fn, p.kind, e)
    xs = x if p.miss == 'e' else cx.nan
    es = e if p.miss == 'x' else cx.nan
    if not (p.miss == 'x' and p.kind == 'circ' and p.fn.startswith('mean')):
        cx.unknown('number', fn(xs, es))
    cx.unknown('array', fn(cx.arr([xs]), cx.arr([es])))
    if p.miss == 'x':
        cx.unknown('one eccentricity', fn(cx.arr([xs, xs]), es))
    y = fn(cx.arr([x, xs, x]), cx.arr([e, es, e]))
    w = fn(cx.arr([x, x]), cx.arr([e, e]))
    cx.unknown('entry', y[1])
    for i, j in ((0, 0), (2, 1)):
        cx.eq(f'other entry {i}', y[i], w[j], scale=1)


@harness('K22', picks=dict(fn=['mean_to_eccentric', 'mean_to_true'],
                           miss=['x', 'e', 'both']))
def unknown_is_not_solved(cx):
    """Kepler's equation of an unknown anomaly: the real iteration ends."""
    fn = getattr(cx.kepler, cx.p.fn)
    e = cx.real('e', E_MIN, None)
    M = cx.real('M')
    xs = M if cx.p.miss == 'e' else cx.nan
    es = e if cx.p.miss == 'x' else cx.nan
    cx.unknown('number', fn(xs, es))
    cx.unknown('array', fn(cx.arr([xs]), cx.arr([es])))


@harness('K22', picks=dict(fn=['stumpff0', 'stumpff1', 'stumpff2',
                               'stumpff3', 'stumpff']))
def unknown_stumpff(cx):
    fn = getattr(cx.kepler, cx.p.fn)
    x = [cx.real('x0', 0, 5), cx.scalar(0.0), -cx.real('x1', 0, 5)]
    many = (lambda v: list(v)) if cx.p.fn == 'stumpff' else (lambda v: [v])
    for v in many(fn(cx.nan)):
        cx.unknown('number', v)
    ys = many(fn(cx.arr([x[0], cx.nan, x[1], x[2]])))
    ws = many(fn(cx.arr(x)))
    for y, w in zip(ys, ws):
        cx.unknown('entry', y[1])
        for i, j in ((0, 0), (2, 1), (3, 2)):
            cx.eq(f'other entry {i}', y[i], w[j], scale=1)


ROWS = list(range(6))


@harness('K22', picks=lambda tier: [
    dict(row=r, plane=pl, kind=k, other=o, shape=s)
    for r in ROWS + ['mu', 'all'] for k, pl, o, s in (
        [('ell', 'gen', 0, 'two'), ('hyp', 'pro', 1, 'two'),
         ('circ', 'ret', 0, 'two'), ('ell', 'gen', 0, 'one'),
         ('par', 'gen', 0, 'vector')]
        if tier == 'quick' else
        [(k, pl, o, s) for k in ('ell', 'circ', 'par', 'hyp')
         for pl in ('gen', 'pro', 'ret') for o, s in (
             (0, 'two'), (1, 'two'), (0, 'one'), (0, 'vector'))])])
def unknown_states(cx):
    """Elements of a state with unknown components are unknown."""
    p = cx.p
    f = cx.kepler
    s = column(cx, (p.kind, p.plane), '1', 0) if p.shape == 'two' else None
    c = [cx.real('xyzuvw'[k], -10, 10) for k in ROWS]
    mu = cx.real('mu', 0, 10)
    for r in ROWS if p.row == 'all' else [p.row]:
        if r == 'mu':
            mu = cx.nan
        else:
            c[r] = cx.nan
    if p.shape == 'vector':
        K = f.cart_to_kep(cx.arr(c), mu=mu)
        cx.check('shape', tuple(K.shape) == (6,))
        cx.unknown('vector', K)
    elif p.shape == 'one':
        K = f.cart_to_kep(cx.arr([[v] for v in c]), mu=cx.arr([mu]))
        cx.unknown('column', K)
    else:
        cols, mus = [c, s.cart], [mu, s.mu]
        if p.other:
            cols, mus = cols[::-1], mus[::-1]
        K = f.cart_to_kep(cx.arr([[v[k] for v in cols] for k in ROWS]),
                          mu=cx.arr(mus))
        cx.unknown('column', K[:, p.other])
        cx.eq('other column', K[:, 1 - p.other],
              f.cart_to_kep(cx.arr(s.cart), mu=s.mu))


# which results need an element
KEP_OUT = {0: ROWS, 1: ROWS, 2: ROWS, 3: ROWS, 4: [0, 1, 3, 4], 5: ROWS,
           'mu': [3, 4, 5]}
EQU_OF = {0: [0], 1: [1, 2], 2: [3, 4], 3: [1, 2, 5], 4: [1, 2, 3, 4, 5],
          5: [5]}
KEP_OF = {0: [0], 1: [1, 3, 5], 2: [1, 3, 5], 3: [2, 3, 4], 4: [2, 3, 4],
          5: [5]}


@harness('K22', picks=lambda tier: [
    dict(row=r, kind=k, plane=pl, shape=s)
    for r in ROWS + ['mu'] for k, pl in (
        [('ell', 'gen'), ('circ', 'pro'), ('hyp', 'gen'), ('par', 'ret')]
        if tier == 'quick' else
        [(k, pl) for k in ('ell', 'circ', 'par', 'hyp')
         for pl in ('gen', 'pro', 'ret')])
    for s in ('vector', 'two')])
def unknown_elements(cx):
    """Everything that needs an unknown element is unknown."""
    p = cx.p
    f = cx.kepler
    s = column(cx, (p.kind, p.plane), '1', 0)
    k, mu = list(s.kep), s.mu
    if p.row == 'mu':
        mu = cx.nan
    else:
        k[p.row] = cx.nan
    if p.shape == 'vector':
        C = f.kep_to_cart(cx.arr(k), mu=mu)
        Q = f.kep_to_equi(cx.arr(k))
    else:
        C2 = f.kep_to_cart(cx.arr([[s.kep[j], k[j]] for j in ROWS]),
                           mu=cx.arr([s.mu, mu]))
        Q2 = f.kep_to_equi(cx.arr([[s.kep[j], k[j]] for j in ROWS]))
        C, Q = C2[:, 1], Q2[:, 1]
        cx.eq('other column', C2[:, 0],
              f.kep_to_cart(cx.arr(s.kep), mu=s.mu))
        if p.plane != 'ret':
            cx.eq('other column', Q2[:, 0], f.kep_to_equi(cx.arr(s.kep)))
    for j in KEP_OUT[p.row]:
        cx.unknown(f'state {j}', C[j])
    if p.plane != 'ret':
        for j in EQU_OF.get(p.row, []):
            cx.unknown(f'equinoctial {j}', Q[j])
        good = f.kep_to_equi(cx.arr(s.kep))
        for j in ROWS:
            if j not in EQU_OF.get(p.row, []):
                cx.eq(f'equinoctial {j}', Q[j], good[j], scale=1)


@harness('K22', picks=lambda tier: [
    dict(row=r, kind=k, shape=s) for r in ROWS
    for k in ('gen', 'circ', 'pro', 'both') for s in ('vector', 'two')])
def unknown_equinoctial(cx):
    p = cx.p
    f = cx.kepler
    z = cx.scalar(0.0)
    circ, flat = p.kind in ('circ', 'both'), p.kind in ('pro', 'both')
    lo, hi = 0.2, 2.9
    a = cx.real('a', 0)
    e = z if circ else cx.real('e', E_MIN, None)
    inc = z if flat else cx.angle('inc', lo=I_MIN, hi=cx.pi - I_MIN,
                                  rng='half', div=2)
    lon = z if circ else cx.angle('lon', rng='pm', lo=lo, hi=hi)
    OM = z if flat else cx.angle('OM', rng='pm', lo=lo, hi=hi)
    nu = cx.angle('nu', lo=0.2, hi=2.9)
    q = list(equi_of(cx, a, e, inc, lon, OM, lon + nu))
    b = list(q)
    b[p.row] = cx.nan
    if p.shape == 'vector':
        K = f.equi_to_kep(cx.arr(b))
    else:
        K2 = f.equi_to_kep(cx.arr([[q[j], b[j]] for j in ROWS]))
        K = K2[:, 1]
        cx.eq('other column', K2[:, 0], f.equi_to_kep(cx.arr(q)))
    good = f.equi_to_kep(cx.arr(q))
    need = KEP_OF[p.row]
    if circ and p.row in (3, 4):
        # no argument of periapsis, the anomaly counts from the node
        need = [2, 4, 5]
    for j in ROWS:
        if j in need:
            cx.unknown(f'element {j}', K[j])
        elif p.row == 0 or j in (0, 1, 2):
            cx.eq(f'element {j}', K[j], good[j], scale=1)
