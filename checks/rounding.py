"""Rounding errors never make the result of a valid input unknown (NaN) or infinite.

Symbolic side: every operation of the real code is rounded (symx/rnd.py); an
argument outside the domain of arccos, sqrt, ... is a branch the solver decides.
Concrete side (replay): valid inputs of the special geometries where rounding
matters - at the apsides and nodes, on circles, in coordinate planes.
"""
import numpy as np

from symx.reg import harness

PI = np.pi


def special(rng, n, values, lo, hi):
    """Special values and, as often, generic ones."""
    x = rng.uniform(lo, hi, n)
    k = rng.integers(0, 2*len(values), n)
    for j, v in enumerate(values):
        x[k == j] = v
    return x


def elements(kinds, n=4000, seed=1):
    """Valid elements (true anomaly), many of them special."""
    rng = np.random.default_rng(seed)
    q = [0, PI/2, PI, 3*PI/2]
    a = 10.0**rng.uniform(-3, 12, n)
    kind = rng.choice(kinds, n)
    e = np.zeros(n)
    e[kind == 'ell'] = special(rng, n, [0.5, 0.25, 1e-3], 1e-6, 0.99)[
        kind == 'ell']
    e[kind == 'hyp'] = special(rng, n, [2.0, 1.25], 1.01, 8)[kind == 'hyp']
    inc = special(rng, n, [0, PI/2, PI, PI/4], 0, PI)
    om = special(rng, n, q, 0, 2*PI)
    OM = special(rng, n, q, 0, 2*PI)
    nu = special(rng, n, q, 0, 2*PI)
    node = rng.integers(0, 4, n)
    nu[node == 0] = np.mod(-om[node == 0], 2*PI)
    nu[node == 1] = np.mod(PI - om[node == 1], 2*PI)
    lim = np.arccos(np.maximum(-1, -1/np.maximum(e, 1e-3)))
    far = (e > 1) & (np.abs(np.where(nu > PI, nu - 2*PI, nu)) > 0.95*lim)
    nu[far] = 0
    mu = 10.0**rng.uniform(-6, 18, n)
    return np.array([a, e, inc, om, OM, nu]), mu


def states(kinds, n=4000, seed=1):
    (a, e, inc, om, OM, nu), mu = elements(kinds, n, seed)
    p = a*np.abs(1 - e**2)
    r = p/(1 + e*np.cos(nu))
    w = np.sqrt(mu/p)
    P = np.array([np.cos(OM)*np.cos(om) - np.sin(OM)*np.cos(inc)*np.sin(om),
                  np.sin(OM)*np.cos(om) + np.cos(OM)*np.cos(inc)*np.sin(om),
                  np.sin(inc)*np.sin(om)])
    Q = np.array([-np.cos(OM)*np.sin(om) - np.sin(OM)*np.cos(inc)*np.cos(om),
                  -np.sin(OM)*np.sin(om) + np.cos(OM)*np.cos(inc)*np.cos(om),
                  np.sin(inc)*np.cos(om)])
    # planar orbits exactly in the plane, circular ones in exact axes
    flat = (inc == 0) | (inc == PI)
    P[2, flat] = 0
    Q[2, flat] = 0
    x = np.concatenate([P*(r*np.cos(nu)) + Q*(r*np.sin(nu)),
                        P*(-w*np.sin(nu)) + Q*(w*(e + np.cos(nu)))])
    for v in (x[:3], x[3:]):
        v[np.abs(v) < 1e-14*np.abs(v).max(axis=0)] = 0
    ok = np.isfinite(x).all(axis=0) & np.cross(
        x[:3], x[3:], axis=0).any(axis=0)
    return x[:, ok], mu[ok]


def report(cx, name, out, args):
    """Marks the first inputs whose result is not a number."""
    out = np.asarray(out, dtype=float)
    bad = ~np.isfinite(out)
    if out.ndim > 1:
        bad = bad.any(axis=0)
    cx.check(name, not bad.any(), '' if not bad.any() else
             f'{int(bad.sum())} not finite, first for '
             f'{[np.asarray(v)[..., bad][..., 0].tolist() for v in args]}')


def state_picks(tier):
    planes = ['xy', 'xz', 'yz'] + ['general']*(tier == 'thorough')
    return [dict(plane=p, hz=h, vr=v) for p in reversed(planes)
            for h in (-1, 0, 1) for v in (-1, 0, 1)
            if not (p == 'xy' and h == 0)
            and not (p == 'general' and h == 0 and v == 0)]


@harness('K24', env='rounding', picks=state_picks, witnesses=0,
         thorough=dict(job_s=600))
def rounded_states(cx):
    """All elements of every state with angular momentum are known."""
    p = cx.p
    if cx.concrete:
        x, mu = states(['ell', 'circ', 'hyp'])
        report(cx, 'angles', cx.kepler.cart_to_kep(x, mu=mu)[1:], (x, mu))
        return
    s = [cx.real(n) for n in ('x', 'y', 'z', 'vx', 'vy', 'vz')]
    for k in {'general': (), 'xy': (2, 5), 'xz': (1, 4), 'yz': (0, 3)}[
            p.plane]:
        s[k] = s[k]*0
    mu = cx.real('mu', 0)
    h = cx.np.cross(cx.arr(s[:3]), cx.arr(s[3:]))
    cx.assume((h[0] != 0) | (h[1] != 0) | (h[2] != 0))
    for v, sign in ((h[2], p.hz), (sum(s[k]*s[k + 3] for k in range(3)),
                                   p.vr)):
        cx.assume(v < 0 if sign < 0 else v > 0 if sign > 0 else v == 0)
    out = cx.kepler.cart_to_kep(cx.arr(s), mu=mu)
    for k in range(1, 6):
        cx.known(f'element {k}', out[k])


@harness('K24', env='rounding', picks=dict(
    fn=['kep_to_cart', 'kep_to_equi', 'equi_to_kep'],
    kind=['ell', 'circ', 'hyp'], deg=[False, True]), witnesses=0)
def rounded_elements(cx):
    """All components of the state of valid elements are known."""
    p = cx.p
    fn = getattr(cx.kepler, p.fn)
    args = dict(degrees=p.deg)
    if cx.concrete:
        x, mu = elements([p.kind])
        if p.fn == 'kep_to_cart':
            args['mu'] = mu
        if p.fn == 'equi_to_kep':
            b = x[3] + x[4]
            t = np.tan(0.45*x[2])
            x = np.array([x[0], x[1]*np.sin(b), x[1]*np.cos(b),
                          t*np.sin(x[4]), t*np.cos(x[4]), x[5]])
        elif p.deg:
            x[2:] = np.degrees(x[2:])
        report(cx, 'components', fn(x, **args), (x, mu))
        return
    a = cx.real('a', 0)
    e = {'ell': lambda: cx.real('e', 0, 1), 'circ': lambda: 0*a,
         'hyp': lambda: cx.real('e', 1)}[p.kind]()
    if p.fn == 'equi_to_kep':
        x = cx.arr([a] + [cx.real(n) for n in 'hkpql'])
    else:
        x = cx.arr([a, e] + [cx.real(n) for n in ('i', 'om', 'OM', 'nu')])
    if p.fn == 'kep_to_cart':
        args['mu'] = cx.real('mu', 0)
        # inside the asymptotes (in exact numbers, see K16)
        c = cx.np.cos(cx.np.radians(x[5]) if p.deg else x[5])
        cx.assume(1 + e*c > 0)
    out = fn(x, **args)
    for k in range(6):
        cx.known(f'component {k}', out[k])


@harness('K24', env='rounding', picks=dict(
    fn=['true_to_eccentric', 'eccentric_to_true', 'eccentric_to_mean',
        'true_to_mean'], kind=['ell', 'circ', 'near'], vec=[False, True]),
    witnesses=0)
def rounded_anomalies(cx):
    """Anomalies of closed orbits are known for every number."""
    p = cx.p
    fn = getattr(cx.kepler, p.fn)
    if cx.concrete:
        x, _ = elements(['ell' if p.kind != 'circ' else 'circ'])
        nu, e = x[5], x[1]
        if p.kind == 'near':
            e = 1 - 2.0**-np.random.default_rng(2).integers(1, 53, e.size)
        out = fn(nu, e) if p.vec else np.array(
            [fn(float(n), float(k)) for n, k in zip(nu[:500], e[:500])])
        report(cx, 'anomaly', out, (nu[:out.size], e[:out.size]))
        return
    x = cx.real('x')
    e = 0*x if p.kind == 'circ' else cx.real('e', 0, 1)
    cx.known('anomaly', fn(cx.arr([x]), cx.arr([e]))[0] if p.vec
             else fn(x, e))


def anomalies(kind, n=2000, seed=3):
    """Mean anomalies (also large ones) and eccentricities."""
    rng = np.random.default_rng(seed)
    if kind == 'ell':
        M = special(rng, n, [0, PI/2, PI, 3*PI/2, 2*PI, 0.25, 2.0], 0, 2*PI)
        e = special(rng, n, [0.5, 1e-3, 0.99], 1e-6, 0.99)
        return M, e
    M = rng.choice([-1, 1], n)*10.0**special(rng, n, [0, 1], -8, 12)
    M[rng.integers(0, 9, n) == 0] = 0
    if kind == 'par':
        return M, np.ones(n)
    return M, special(rng, n, [2.0, 1.25], 1.01, 8)


def solver_picks(tier):
    out = [dict(fn='kepler_guess', kind=k, vec=v, deg=False, iters=1)
           for k in ('ell', 'hyp') for v in (False, True)]
    for k, n in ('ell', 1), ('hyp', 1), ('par', 1):
        out += [dict(fn='mean_to_eccentric', kind=k, vec=v, deg=d, iters=n)
                for v in (False, True) for d in (False, True)]
    if tier == 'thorough':
        out += [dict(fn='mean_to_eccentric', kind=k, vec=v, deg=False, iters=2)
                for k, v in (('ell', False), ('hyp', True))]
    return out


@harness('K24', env='rounding', picks=solver_picks, witnesses=0,
         thorough=dict(job_s=300))
def rounded_solutions(cx):
    """The solver of Kepler's equation ends with numbers."""
    p = cx.p
    if p.fn == 'kepler_guess':
        fn = cx.kepler.kepler_guess
    else:
        def fn(M, e):
            return cx.kepler.mean_to_eccentric(
                M, e, degrees=p.deg, solver_options=dict(max_iter=p.iters))
    if cx.concrete:
        M, e = anomalies(p.kind)
        if p.deg:
            M = np.degrees(M)
        out = fn(M, e) if p.vec else np.array(
            [fn(float(m), float(k)) for m, k in zip(M[:500], e[:500])])
        report(cx, 'anomaly', out, (M[:out.size], e[:out.size]))
        return
    turn = 360 if p.deg else 2*PI
    M = cx.real('M', 0, turn) if p.kind == 'ell' else cx.real('M')
    e = {'ell': lambda: cx.real('e', 0, 1), 'par': lambda: 0*M + 1,
         'hyp': lambda: cx.real('e', 1)}[p.kind]()
    cx.known('anomaly', fn(cx.arr([M]), cx.arr([e]))[0] if p.vec
             else fn(M, e))


@harness('K24', env='rounding', picks=dict(
    fn=['orbital_speed', 'orbital_period', 'semi_major_axis',
        'orbit_total_angular_momentum', 'parabolic_total_angular_momentum',
        'true_of_the_asymptote', 'elliptic_radius', 'orbital_distance',
        'stumpff0', 'stumpff1', 'stumpff2', 'stumpff3']), witnesses=0)
def rounded_functions(cx):
    """Radius, speed, period, ... of valid arguments are numbers."""
    p = cx.p
    fn = getattr(cx.kepler, p.fn)
    if cx.concrete:
        (a, e, _, _, _, nu), mu = elements(['ell'])
        r = special(np.random.default_rng(4), a.size, [1.0], 0, 2)*a
        r[r >= 2*a] = 1
        x = special(np.random.default_rng(5), a.size, [0, 1e-20, -1e-20],
                    -40, 40)
        args = dict(
            orbital_speed=(r, a, mu), orbital_period=(a, mu),
            semi_major_axis=(a, mu), orbit_total_angular_momentum=(a, e, mu),
            parabolic_total_angular_momentum=(a, mu),
            true_of_the_asymptote=(1 + e,), elliptic_radius=(nu, a, e),
            orbital_distance=(a, mu, e, nu)).get(p.fn, (x,))
        report(cx, 'value', fn(*args), args)
        return
    mu, a, t = cx.real('mu', 0), cx.real('a', 0), cx.real('t')
    e, r = cx.real('e', 0, 1), cx.real('r', 0)
    ok = cx.real('eh', 1)
    if p.fn == 'orbital_speed':
        cx.assume(r < 2*a)
    out = dict(
        orbital_speed=lambda: fn(r, a, mu), orbital_period=lambda: fn(a, mu),
        semi_major_axis=lambda: fn(a, mu),
        orbit_total_angular_momentum=lambda: fn(a, e, mu),
        parabolic_total_angular_momentum=lambda: fn(a, mu),
        true_of_the_asymptote=lambda: fn(ok),
        elliptic_radius=lambda: fn(t, a, e),
        orbital_distance=lambda: fn(a, mu, e, t)).get(
            p.fn, lambda: fn(cx.arr([t])))()
    cx.known('value', out)
