"""Many orbits in one call, and awkward numbers of them (six, say)."""
from symx.reg import harness
from . import orbit_common as O
from .orbit_common import setup, OPS, TYPES, selector
from .orbit_state import ALL, NAMES, LAZY, MANUAL
from .orbit_more import (pend, conic_setup, assume_conic, advance,
                         check_advanced, sel_ops, take, motion, KINDS)
from .kepler_misc import column, ANOM, kepler_eq, closed, ecc, equi_of
from .common import I_MIN

STATES = [('ell', 'gen'), ('hyp', 'gen'), ('circ', 'gen'), ('ell', 'pro'),
          ('circ', 'ret')]


def pattern(n, k):
    """Which of k orbits each column is (no regular period)."""
    return [j if j < k else (j + j//k + j*j//7) % k for j in range(n)]


def by_size(quick, more, **d):
    def f(tier):
        import itertools
        keys = list(d)
        return [dict(zip(keys, v), n=n)
                for n in (quick if tier == 'quick' else quick + more)
                for v in itertools.product(*d.values())]
    return f


def run_by(tier, f):
    return f(tier)


# ------------------------------------------------------------------ functions
@harness('K14', picks=lambda tier: [
    dict(n=n, mu=m) for n, m in (
        (6, 'array'), (6, 'scalar'), (133, 'scalar'), (1030, 'array'))] + (
    [] if tier == 'quick' else
    [dict(n=n, mu=m) for n in (3, 4, 5, 7, 8, 12, 36, 300, 2050)
     for m in ('array', 'scalar')]), witnesses=1)
def many_states(cx):
    """Every column of a large array is converted like a single orbit.

    Five different symbolic orbits, in an irregular order."""
    p = cx.p
    f = cx.kepler
    m = m2 = None
    if p.mu == 'scalar':
        m = cx.real('m', 0)
        m2 = m*m
    k = min(p.n, len(STATES))
    s = [column(cx, STATES[j], str(j), j % 2, m2, m) for j in range(k)]
    mus = [x.mu for x in s]
    idx = pattern(p.n, k)
    mu = cx.arr([mus[j] for j in idx]) if m2 is None else m2
    kep = cx.arr([[s[j].kep[r] for j in idx] for r in range(6)])
    cart = cx.arr([[s[j].cart[r] for j in idx] for r in range(6)])
    C, K = f.kep_to_cart(kep, mu=mu), f.cart_to_kep(cart, mu=mu)
    cx.check('shape', tuple(C.shape) == tuple(K.shape) == (6, p.n))
    cv = [f.kep_to_cart(cx.arr(x.kep), mu=m) for x, m in zip(s, mus)]
    kv = [f.cart_to_kep(cx.arr(x.cart), mu=m) for x, m in zip(s, mus)]
    for c, j in enumerate(idx):
        cx.eq(f'kep_to_cart {c}', C[:, c], cv[j])
        cx.eq(f'cart_to_kep {c}', K[:, c], kv[j])


@harness('K14', picks=by_size([6, 133], [4, 12, 36, 300, 1030]), witnesses=1)
def many_equinoctial(cx):
    f = cx.kepler
    cols, eqs = [], []
    k = 2
    for j in range(k):
        t = str(j)
        z = cx.scalar(0.0)
        lo, hi = (0.2, 2.9) if j % 2 else (-2.9, -0.2)
        a, e = cx.real('a' + t, 0), cx.real('e' + t, 1e-8, None)
        inc = z if j == 1 else cx.angle('inc' + t, lo=I_MIN,
                                        hi=cx.pi - I_MIN, rng='half', div=2)
        lon = cx.angle('lon' + t, rng='pm', lo=lo, hi=hi)
        OM = z if j == 1 else cx.angle('OM' + t, rng='pm', lo=lo, hi=hi)
        nu = cx.angle('nu' + t, lo=0.2, hi=2.9)
        cols.append([a, e, inc, lon - OM, OM, nu])
        eqs.append(equi_of(cx, a, e, inc, lon, OM, lon + nu))
    idx = pattern(cx.p.n, k)
    Q = f.kep_to_equi(cx.arr([[cols[j][r] for j in idx] for r in range(6)]))
    K = f.equi_to_kep(cx.arr([[eqs[j][r] for j in idx] for r in range(6)]))
    q = [f.kep_to_equi(cx.arr(c)) for c in cols]
    e = [f.equi_to_kep(c) for c in eqs]
    for c, j in enumerate(idx):
        cx.eq(f'kep_to_equi {c}', Q[:, c], q[j])
        cx.eq(f'equi_to_kep {c}', K[:, c], e[j])


@harness('K14', env='kep', picks=lambda tier: [
    dict(fn=f, one=True, n=1030) for f in ANOM] + run_by(tier, by_size(
    [6, 133], [4, 12, 36, 300], fn=ANOM + ['kepler_guess'],
    one=[False, True])), witnesses=1)
def many_anomalies(cx):
    p = cx.p
    fn = getattr(cx.kepler, p.fn)
    xs, es = [], []
    kinds = ['ell']*3 if p.one else ['ell', 'hyp', 'circ']
    e1 = ecc(cx, 'ell')
    for t, kd in enumerate(kinds):
        e = e1 if p.one else ecc(cx, kd, str(t))
        if p.fn == 'kepler_guess':
            x = cx.real(f'M{t}', 0.5 + t, 1.5 + t)
            if kd == 'hyp':
                e = cx.scalar(3.0)
        elif p.fn.startswith('true'):
            x = cx.angle(f'x{t}', div=2, lo=0.1, hi=1.5 if not closed(kd)
                         else 3.0)
        else:
            x = cx.angle(f'x{t}', div=2, lo=0.2, hi=3.0) if closed(kd) \
                else cx.hyp(f'x{t}', 0.2, 1.0, div=2)
            if p.fn.startswith('mean'):
                M = kepler_eq(cx, kd, x, e)
                cx.root(x, e, M)
                x = M
        xs.append(x)
        es.append(e)
    k = len(kinds)
    idx = pattern(p.n, k)
    y = fn(cx.arr([xs[j] for j in idx]),
           e1 if p.one else cx.arr([es[j] for j in idx]))
    w = [fn(x, e) for x, e in zip(xs, es)]
    cx.check('shape', tuple(y.shape) == (p.n,))
    for c, j in enumerate(idx):
        cx.eq(f'entry {c}', y[c], w[j], scale=1)


# -------------------------------------------------------------- orbit objects
def many(quick=(6, 40), more=(3, 4, 5, 7, 8, 12, 133)):
    def f(tier):
        ns = list(quick) + (list(more) if tier != 'quick' else [])
        modes = ['direct', 'lazy', 'manual']
        return [dict(mode=m, type=t, deg=d, init=i, n=n)
                for k, n in enumerate(ns) for m in modes
                for i, t, d in ((('kep', 'mean', True), ('cart', 'true', False))
                                if tier == 'quick' or n > 20 else
                                [(i, t, d) for i in ('kep', 'cart')
                                 for t in TYPES for d in (True, False)])]
    return f


BIG = [dict(mode=m, type='true', deg=True, init=i, n=130)
       for m in ('direct', 'lazy') for i in ('kep', 'cart')]


@harness('O01', picks=lambda tier: [
    q for q in many()(tier) if q['mode'] == 'direct'], env='uf', witnesses=1)
def direct_many(cx):
    one_operation(cx, NAMES)


@harness('O02', picks=lambda tier: [
    q for q in many()(tier) if q['mode'] == 'lazy'], env='uf', witnesses=1)
def lazy_many(cx):
    one_operation(cx, LAZY)


@harness('O03', picks=lambda tier: [
    q for q in many()(tier) if q['mode'] == 'manual'], env='uf', witnesses=1)
def manual_many(cx):
    one_operation(cx, MANUAL)


def one_operation(cx, names):
    p = cx.p
    orb, ref = setup(cx, p.n, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    k = cx.integer('op', 0, len(names) - 1)
    ALL[names[k]](cx, orb, ref, '.1')
    ref.check_all(names[k], orb)


MORE_KINDS = ['step', 'back', 'perm', 'negs', 'half']


@harness('O04', picks=lambda tier: [
    dict(q, kind=k) for q in many()(tier) for k in MORE_KINDS + KINDS] + [
        dict(q, kind='perm') for q in BIG],
    env='uf', witnesses=1)
def selected_many(cx):
    p = cx.p
    orb, ref = setup(cx, p.n, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    ops = sel_ops(p.kind)
    names = sorted(ops)
    k = cx.integer('op', 0, len(names) - 1)
    ops[names[k]](cx, orb, ref, '.1')
    cx.check('number', orb.num == ref.n)
    ref.check_all(f'{names[k]} {p.kind}', orb)


@harness('O05', picks=lambda tier: [
    dict(q, how=h) for q in many()(tier)
    for h in MORE_KINDS + ['copy', 'item', 'neg', 'slice', 'list', 'mask',
                           'iter']] + [
        dict(q, how=h) for q in BIG for h in ('copy', 'perm')],
    env='uf', witnesses=1)
def copies_many(cx):
    p = cx.p
    orb, ref = setup(cx, p.n, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    c, idx = take(cx, orb, ref, p.how)
    cref = ref.pick(idx)
    side = cx.integer('side', 0, 1)
    tgt, tref = ((orb, ref), (c, cref))[side]
    names = ['set x', 'set a', 'set kepler', 'delete', 'update vx,z list']
    k = cx.integer('op', 0, len(names) - 1)
    OPS[names[k]](cx, tgt, tref, '.2')
    for q in (orb, ref), (c, cref):
        q[1].check_all(f'{p.how}, {names[k]} on {"oc"[side]}', q[0])


@harness('O09', picks=lambda tier: [dict(q, conic=c) for q in many()(tier)
                                    for c in ('ell', 'hyp')],
         env='uf', witnesses=1)
def propagation_many(cx):
    p = cx.p
    orb, ref = conic_setup(cx, p.n, p)
    assume_conic(cx, ref, p)
    dts = [cx.real(f'dt{j}', fav=(0.3, 0.7)) for j in range(p.n)]
    if cx.boolean('one step'):
        dts = [dts[0]]*p.n
        orb.propagate(dts[0])
    else:
        orb.propagate(cx.arr(dts))
    check_advanced(cx, p, 'dt', advance(cx, ref, p, dts), orb)


@harness('O11', picks=many(), env='uf', witnesses=1)
def masses_many(cx):
    p = cx.p
    orb, ref = setup(cx, p.n, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    if p.mode == 'lazy':
        ref.check_all('before', orb)
    vs = [cx.real(f'mnew{j}', 0, fav=(0.4, 0.9)) for j in range(p.n)]
    orb.m[:] = cx.arr(vs)
    for c, v in zip(ref.cols, vs):
        c.m = v
    kinds = ['all'] + MORE_KINDS
    kind = kinds[cx.integer('sel', 0, len(kinds) - 1)]
    sel, idx = selector(cx.np, kind, p.n)
    if cx.boolean('kepler'):
        orb.calculate_kepler(sel)
        for j in idx:
            ref.calc_kep(ref.cols[j])
    else:
        orb.calculate_cartesian(sel)
        for j in idx:
            ref.calc_cart(ref.cols[j])
    ref.check_all(f'masses {kind}', orb)


@harness('O10', picks=many(), env='uf', witnesses=1)
def derived_many(cx):
    p = cx.p
    orb, ref = setup(cx, p.n, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    if not O.closed(cx, ref):
        return
    ref.check_anoms('anomalies', orb)
    n, P, pe, ap = orb.mean_motion, orb.period, orb.periapsis, orb.apoapsis
    turn = 360.0 if p.deg else 2*cx.pi
    for j, c in enumerate(ref.cols):
        w = motion(cx, ref, c, 'ell')
        cx.eq(f'mean motion {j}', n[j], w)
        cx.eq(f'period {j}', P[j]*w, turn)
        cx.eq(f'periapsis {j}', pe[j], c.kep[0]*(1 - c.kep[1]))
        cx.eq(f'apoapsis {j}', ap[j], c.kep[0]*(1 + c.kep[1]))
    ref.check_all('after', orb)
