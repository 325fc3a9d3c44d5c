"""Anomalies and Kepler's equation."""
from symx.reg import harness
from .common import E_MIN

KINDS = ['ell', 'circ', 'par', 'hyp']
FORMS = ['scalar', 'array']
PLAIN = dict(kind=KINDS, form=FORMS)


def ecc(cx, kind, tag=''):
    if kind == 'ell':
        return cx.real('e' + tag, 0, 1)
    if kind == 'hyp':
        return cx.real('e' + tag, 1, None)
    return cx.scalar(0.0 if kind == 'circ' else 1.0)


def closed(kind):
    return kind in ('ell', 'circ')


def anomaly(cx, kind, name='E', rng='full'):
    """Eccentric anomaly (with tractable half angle)."""
    if closed(kind):
        return cx.angle(name, div=2, rng=rng)
    if kind == 'par':
        return cx.real(name)
    return cx.hyp(name, div=2)


def true_of(cx, kind, E, e):
    """(cos, sin) of the true anomaly at eccentric anomaly E."""
    if closed(kind):
        c, s = cx.cos(E), cx.sin(E)
        return (c - e)/(1 - e*c), cx.sqrt(1 - e*e)*s/(1 - e*c)
    if kind == 'par':
        return (1 - E*E)/(1 + E*E), 2*E/(1 + E*E)
    c, s = cx.cosh(E), cx.sinh(E)
    return (e - c)/(e*c - 1), cx.sqrt(e*e - 1)*s/(e*c - 1)


def ecc_of(cx, kind, nu, e):
    """(cos, sin), tan half or (cosh, sinh) of the eccentric anomaly."""
    c, s = cx.cos(nu), cx.sin(nu)
    if closed(kind):
        return (e + c)/(1 + e*c), cx.sqrt(1 - e*e)*s/(1 + e*c)
    if kind == 'par':
        return s/(1 + c), None
    return (e + c)/(1 + e*c), cx.sqrt(e*e - 1)*s/(1 + e*c)


def kepler_eq(cx, kind, E, e):
    if closed(kind):
        return E - e*cx.sin(E)
    if kind == 'par':
        return E + E*E*E/3
    return e*cx.sinh(E) - E


def true_angle(cx, kind, e, rng='full'):
    nu = cx.angle('nu', div=2, rng=rng)
    # half a turn away from periapsis the half-angle formulas are singular
    # (and floats never reach it exactly)
    if closed(kind):
        cx.assume(cx.cos(nu/2) != 0)
    else:
        cx.assume(1 + e*cx.cos(nu) > 0)
    return nu


def give(cx, x):
    """In the form the function is called with."""
    return cx.arr([x]) if cx.p.form == 'array' else x


def first(cx, x):
    if cx.p.form == 'array':
        cx.check('shape', tuple(x.shape) == (1,))
        return x[0]
    return x


@harness('K07', picks=dict(kind=KINDS, form=FORMS, rng=['full', 'pm'],
                           turn=[0, 1, -1]))
def true_to_ecc(cx):
    k = cx.p.kind
    e = ecc(cx, k)
    nu = true_angle(cx, k, e, cx.p.rng)
    E = first(cx, cx.kepler.true_to_eccentric(
        give(cx, nu + 2*cx.pi*cx.p.turn), give(cx, e)))
    a, b = ecc_of(cx, k, nu, e)
    if k == 'par':
        cx.eq('tan half', E, a)
    elif k == 'hyp':
        cx.eq('cosh', cx.cosh(E), a)
        cx.eq('sinh', cx.sinh(E), b)
    else:
        cx.eq('cos', cx.cos(E), a)
        cx.eq('sin', cx.sin(E), b)
        cx.in_range('range', E, 0, 2*cx.pi)


@harness('K07', picks=dict(kind=KINDS, form=FORMS, rng=['full', 'pm'],
                           turn=[0, 1, -1]))
def ecc_to_true(cx):
    k = cx.p.kind
    if not closed(k) and (cx.p.turn or cx.p.rng == 'pm'):
        return cx.check('covered elsewhere', True)
    e = ecc(cx, k)
    E = anomaly(cx, k, rng=cx.p.rng)
    if closed(k):
        cx.assume(cx.cos(E/2) != 0)
    nu = first(cx, cx.kepler.eccentric_to_true(
        give(cx, E + (2*cx.pi*cx.p.turn if cx.p.turn else 0)), give(cx, e)))
    a, b = true_of(cx, k, E, e)
    cx.eq('cos', cx.cos(nu), a)
    cx.eq('sin', cx.sin(nu), b)
    cx.in_range('range', nu, 0, 2*cx.pi)


@harness('K07', picks=PLAIN)
def ecc_true_ecc(cx):
    k = cx.p.kind
    e = ecc(cx, k)
    E = anomaly(cx, k)
    if closed(k):
        cx.assume(cx.cos(E/2) != 0)
    nu = cx.kepler.eccentric_to_true(give(cx, E), give(cx, e))
    E2 = first(cx, cx.kepler.true_to_eccentric(nu, give(cx, e)))
    if closed(k):
        cx.angle_eq('back', E2, E)
    else:
        cx.eq('back', E2, E)


@harness('K07', picks=PLAIN)
def true_ecc_true(cx):
    k = cx.p.kind
    e = ecc(cx, k)
    nu = true_angle(cx, k, e)
    E = cx.kepler.true_to_eccentric(give(cx, nu), give(cx, e))
    n2 = first(cx, cx.kepler.eccentric_to_true(E, give(cx, e)))
    cx.angle_eq('back', n2, nu)


@harness('K08', picks=PLAIN)
def ecc_to_mean(cx):
    k = cx.p.kind
    e = ecc(cx, k)
    E = anomaly(cx, k)
    M = first(cx, cx.kepler.eccentric_to_mean(give(cx, E), give(cx, e)))
    cx.eq('kepler', M, kepler_eq(cx, k, E, e))


@harness('K08', env='kep', picks=dict(kind=KINDS, form=FORMS,
                                      turn=[0, 1, -1]))
def mean_to_ecc(cx):
    k = cx.p.kind
    if not closed(k) and cx.p.turn:
        return cx.check('covered elsewhere', True)
    e = ecc(cx, k)
    E = anomaly(cx, k)
    if closed(k) and cx.p.turn:
        E = E + 2*cx.pi*cx.p.turn
    M = kepler_eq(cx, k, E, e)
    cx.root(E, e, M)
    E2 = first(cx, cx.kepler.mean_to_eccentric(give(cx, M), give(cx, e)))
    cx.eq('solves', kepler_eq(cx, k, E2, e), M, scale=1)


@harness('K08', env='kep', picks=dict(form=FORMS, kind=['ell', 'hyp']))
def solver_options_reach_the_solver(cx):
    """The tolerance asked for is the one the equation is solved to."""
    k = cx.p.kind
    e = ecc(cx, k)
    E = anomaly(cx, k)
    M = kepler_eq(cx, k, E, e)
    cx.root(E, e, M)
    tol = cx.real('tol', 0, nom=1e-9)
    calls = []
    orig = getattr(cx.kepler, 'laguerre_solve_kepler', None)
    if orig is None:
        return cx.check('no separate solver', True)

    def rec(*a, **kw):
        calls.append(dict(zip(('E0', 'M', 'e', 'tol', 'max_iter', 'degree'),
                              a), **kw))
        return orig(*a, **kw)
    cx.kepler.laguerre_solve_kepler = rec
    try:
        cx.kepler.mean_to_eccentric(give(cx, M), give(cx, e), solver_options={
            'tol': tol, 'max_iter': 77})
    finally:
        cx.kepler.laguerre_solve_kepler = orig
    for c in calls:
        cx.eq('tolerance', c.get('tol', 1e-12), tol)
        cx.eq('cap', c.get('max_iter', 5000), 77)
    cx.check('done', True)


@harness('K09', env='pure', picks=PLAIN)
def true_to_mean(cx):
    k = cx.p.kind
    e = ecc(cx, k)
    nu = true_angle(cx, k, e)
    M = first(cx, cx.kepler.true_to_mean(give(cx, nu), give(cx, e)))
    # the oracle's eccentric anomaly in [0, 2 pi)
    if closed(k):
        h = cx.arctan(cx.sqrt((1 - e)/(1 + e))*cx.tan(nu/2))
        if h < 0:
            h = h + cx.pi
        E = 2*h
    elif k == 'par':
        E = cx.tan(nu/2)
    else:
        x = cx.sqrt((e - 1)/(e + 1))*cx.tan(nu/2)
        E = cx.arctanh(x)*2
    cx.eq('mean', M, kepler_eq(cx, k, E, e), scale=1)


@harness('K09', env='kep', picks=PLAIN)
def mean_to_true(cx):
    k = cx.p.kind
    e = ecc(cx, k)
    E = anomaly(cx, k)
    if closed(k):
        cx.assume(cx.cos(E/2) != 0)
    M = kepler_eq(cx, k, E, e)
    cx.root(E, e, M)
    nu = first(cx, cx.kepler.mean_to_true(give(cx, M), give(cx, e)))
    a, b = true_of(cx, k, E, e)
    cx.eq('cos', cx.cos(nu), a)
    cx.eq('sin', cx.sin(nu), b)


@harness('K09', env='kep', picks=PLAIN)
def true_mean_true(cx):
    k = cx.p.kind
    e = ecc(cx, k)
    if closed(k):
        nu = true_angle(cx, k, e)
        # (an equation that other harnesses decide)
        E = cx.kepler.true_to_eccentric(nu, e)
    elif k == 'par':
        E = anomaly(cx, k)
        nu = 2*cx.arctan(E)
    else:
        E = anomaly(cx, k)
        nu = 2*cx.arctan(cx.sqrt((e + 1)/(e - 1))*cx.tanh(E/2))
    cx.root(E, e, kepler_eq(cx, k, E, e))
    M = cx.kepler.true_to_mean(give(cx, nu), give(cx, e))
    n2 = first(cx, cx.kepler.mean_to_true(M, give(cx, e)))
    cx.angle_eq('back', n2, nu)


# ------------------------------------------------------------------ solver
def residual(cx, E, M, e, kind):
    if kind == 'hyp':
        return M + E - e*cx.sinh(E)
    return M - E + e*cx.sin(E)


def solver_inputs(cx, kind):
    e = cx.real('e', 1, None) if kind == 'hyp' else cx.real('e', 0, 1)
    M = cx.real('M')
    E0 = cx.hyp('E0') if kind == 'hyp' else cx.angle('E0', rng='pm')
    return E0, M, e


@harness('K10', picks=lambda tier: dict(
    kind=['ell', 'hyp'],
    cap=[1, 2, 3, 4] if tier == 'quick' else [1, 2, 3, 4, 6, 8, 12]),
         feas_ms=150, witnesses=1, abbrev=8, lazy_abs=True,
         thorough=dict(job_s=600, feas_ms=1000))
def solver_stops_at_solution(cx):
    E0, M, e = solver_inputs(cx, cx.p.kind)
    tol = cx.real('tol', 0, nom=0.05)
    E, n = cx.kepler.laguerre_solve_kepler(E0, M, e, tol=tol,
                                           max_iter=cx.p.cap)
    cx.check('count within cap', 0 <= n <= cx.p.cap)
    f0 = residual(cx, E0, M, e, cx.p.kind)
    if n < cx.p.cap:
        f = residual(cx, E, M, e, cx.p.kind)
        cx.check('residual below tolerance', abs(f) < tol)
    if n == 0:
        cx.eq('start returned', E, E0)
    else:
        cx.check('start was no solution', abs(f0) >= tol)


@harness('K20', picks=dict(kind=['ell', 'hyp'], degree=['any', 1, 2, 3, 4, 5, 6]))
def laguerre_step(cx):
    E0, M, e = solver_inputs(cx, cx.p.kind)
    d = cx.p.degree
    if d == 'any':
        d = cx.real('degree', 1, None)
        if not cx.symbolic:
            # only integer degrees are promised
            d = cx.used['degree'] = max(1.0, float(round(d)))
    E, n = cx.kepler.laguerre_solve_kepler(E0, M, e, tol=1e-12, max_iter=1,
                                           degree=d)
    if n == 0:
        return cx.eq('start returned', E, E0)
    f = residual(cx, E0, M, e, cx.p.kind)
    if cx.p.kind == 'hyp':
        f1 = 1 - e*cx.cosh(E0)
        f2 = -e*cx.sinh(E0)
    else:
        f1 = e*cx.cos(E0) - 1
        f2 = -e*cx.sin(E0)
    D = abs((d - 1.0)**2*f1*f1 - d*(d - 1.0)*f*f2)
    # f1 < 0: the larger denominator is f1 - sqrt
    r = cx.sqrt(D)
    if cx.p.degree != 1:
        cx.assume(r != 0)
    cx.eq('step', E - E0, -d*f/(f1 - r), scale=1)


@harness('K21', picks=dict(kind=['ell', 'hyp']))
def guess_symmetry(cx):
    if cx.p.kind == 'hyp':
        e = cx.real('e', 1, None)
        M = cx.real('M', 0, None)
        g1 = cx.kepler.kepler_guess(M, e)
        g2 = cx.kepler.kepler_guess(-M, e)
        cx.eq('odd', g1, -g2)
    else:
        e = cx.real('e', 0, 1)
        M = cx.angle('M', rng='half')
        cx.assume(M < cx.pi)
        g1 = cx.kepler.kepler_guess(M, e)
        g2 = cx.kepler.kepler_guess(2*cx.pi - M, e)
        cx.eq('symmetric', g1, 2*cx.pi - g2)


@harness('K21', picks=dict(kind=['ell', 'hyp']))
def guess_arrays(cx):
    if cx.p.kind == 'hyp':
        e = [cx.real('e1', 1, None), cx.real('e2', 1, None)]
        M = [cx.real('M1'), cx.real('M2')]
    else:
        e = [cx.real('e1', 0, 1), cx.real('e2', 0, 1)]
        M = [cx.angle('M1'), cx.angle('M2')]
    g = cx.kepler.kepler_guess(cx.arr(M), cx.arr(e))
    for k in range(2):
        cx.eq(f'entry {k}', g[k], cx.kepler.kepler_guess(M[k], e[k]))
    g = cx.kepler.kepler_guess(cx.arr(M), e[0])
    cx.eq('broadcast e', g[1], cx.kepler.kepler_guess(M[1], e[0]))
    g = cx.kepler.kepler_guess(M[0], cx.arr(e))
    cx.eq('broadcast M', g[1], cx.kepler.kepler_guess(M[0], e[1]))
