"""Conversions between elements and Cartesian states."""
from symx.reg import harness
from .common import state, cstate, dot, cross, rotation

CONICS = ['ell', 'circ', 'par', 'hyp']
PLANES = ['gen', 'pro', 'ret']


# full turns added to argument of periapsis, node and true anomaly
TURNS = [[0, 0, 0], [-1, -1, -1], [1, 0, -2], [0, 2, 1], [-3, 1, 3],
         [2, -2, 0]]


def turned(cx, kep, turns):
    return cx.arr(kep[:3] + [x + 2*cx.pi*k if k else x
                             for x, k in zip(kep[3:], turns)])


@harness('K01', picks=dict(kind=CONICS, plane=['gen'], turns=TURNS))
def kep_to_cart_dynamics(cx):
    s = state(cx, cx.p.kind, cx.p.plane)
    c = cx.pyorb.kep_to_cart(turned(cx, s.kep, cx.p.turns), mu=s.mu)
    r, v = c[:3], c[3:]
    cx.eq('distance', dot(r, r), s.rn*s.rn)
    h = cross(r, v)
    cx.eq('angular momentum', dot(h, h), s.mu*s.p)
    k2 = dot(v, v)/2
    if cx.p.kind in ('ell', 'circ'):
        cx.eq('energy', k2 - s.mu/s.rn, -s.mu/(2*s.a))
    elif cx.p.kind == 'par':
        cx.eq('energy', k2 - s.mu/s.rn, 0)
    else:
        cx.eq('energy', k2 - s.mu/s.rn, s.mu/(2*s.a))
    cx.eq('radial velocity', dot(r, v), s.w*s.e*s.rn*s.snu)


@harness('K02', picks=dict(kind=CONICS, plane=PLANES, turns=TURNS))
def kep_to_cart_orientation(cx):
    s = state(cx, cx.p.kind, cx.p.plane)
    c = cx.pyorb.kep_to_cart(turned(cx, s.kep, cx.p.turns), mu=s.mu)
    cx.eq('position', c[:3], cx.arr(s.r))
    cx.eq('velocity', c[3:], cx.arr(s.v))


@harness('K03', picks=dict(kind=CONICS, plane=PLANES))
def cart_to_kep_size_shape(cx):
    s = cstate(cx, cx.p.kind, cx.p.plane)
    o = cx.pyorb.cart_to_kep(cx.arr(s.cart), mu=s.mu)
    # a rounded parabola is some other conic with |a| huge: replays look at
    # the size of a parabola only where rounding leaves it one
    if cx.symbolic or s.kind != 'par' or o[1] == 1:
        cx.eq('a', o[0], s.a)
    cx.eq('e', o[1], s.e)


@harness('K03', picks=dict(plane=['pro', 'ret']))
def parabola_size(cx):
    """A parabola at its periapsis on the x axis: exact in floats."""
    q = cx.real('q', 0, nom=2)
    w = cx.real('w', 0, nom=1)
    y = 1 if cx.p.plane == 'pro' else -1
    o = cx.pyorb.cart_to_kep(cx.arr([q, 0.0*q, 0.0*q, 0.0*q, 2*w*y, 0.0*q]),
                             mu=2*w*w*q)
    cx.eq('e', o[1], 1)
    cx.eq('q', o[0], q)


@harness('K04', picks=dict(kind=['ell', 'par', 'hyp'], plane=['gen']))
def cart_to_kep_angles(cx):
    s = cstate(cx, cx.p.kind, cx.p.plane)
    o = cx.pyorb.cart_to_kep(cx.arr(s.cart), mu=s.mu)
    cx.angle_eq('inclination', o[2], s.inc)
    cx.angle_eq('argument of periapsis', o[3], s.om)
    cx.angle_eq('node', o[4], s.OM)
    cx.angle_eq('true anomaly', o[5], s.nu)
    cx.in_range('range i', o[2], 0, cx.pi)
    cx.in_range('range', o[3:], 0, 2*cx.pi)


@harness('K05', picks=dict(kind=['ell', 'par', 'hyp'], plane=['gen']))
def round_trip_elements(cx):
    s = state(cx, cx.p.kind, cx.p.plane)
    c = cx.pyorb.kep_to_cart(cx.arr(s.kep), mu=s.mu)
    o = cx.pyorb.cart_to_kep(c, mu=s.mu)
    if cx.symbolic or s.kind != 'par' or o[1] == 1:
        cx.eq('a', o[0], s.a)
    cx.eq('e', o[1], s.e)
    for k, n in ((2, 'inclination'), (3, 'argument of periapsis'),
                 (4, 'node'), (5, 'anomaly')):
        cx.angle_eq(n, o[k], s.kep[k])


@harness('K05', picks=dict(kind=CONICS, plane=PLANES))
def round_trip_state(cx):
    s = cstate(cx, cx.p.kind, cx.p.plane)
    o = cx.pyorb.cart_to_kep(cx.arr(s.cart), mu=s.mu)
    if not cx.symbolic and s.kind == 'par' and o[1] != 1:
        return
    c = cx.pyorb.kep_to_cart(o, mu=s.mu)
    cx.eq('position', c[:3], cx.arr(s.r), scale=s.rn)
    cx.eq('velocity', c[3:], cx.arr(s.v), scale=s.w)


@harness('K06', picks=dict(kind=CONICS, plane=PLANES))
def degenerate_elements(cx):
    if cx.p.kind != 'circ' and cx.p.plane == 'gen':
        # the generic case is the contrast: nothing is zeroed
        return degenerate_contrast(cx)
    s = cstate(cx, cx.p.kind, cx.p.plane)
    o = cx.pyorb.cart_to_kep(cx.arr(s.cart), mu=s.mu)
    if not cx.symbolic:
        if s.kind == 'circ' and o[1] > cx.kepler.e_lim:
            return
        if s.kind == 'par' and o[1] != 1:
            return
    if s.kind == 'circ':
        cx.eq('argument of periapsis is zero', o[3], 0)
    if s.plane != 'gen':
        cx.eq('node is zero', o[4], 0)
    if s.plane == 'pro':
        cx.eq('inclination', o[2], 0)
    elif s.plane == 'ret':
        cx.eq('inclination', o[2], cx.pi)
    else:
        cx.angle_eq('inclination', o[2], s.inc)
        cx.angle_eq('node', o[4], s.OM)
    if s.kind != 'circ':
        cx.angle_eq('true anomaly', o[5], s.nu)
    # direction of the elements is that of the state
    R = rotation(cx, o[2], o[3], o[4])
    c5, s5 = cx.cos(o[5]), cx.sin(o[5])
    cx.eq('direction', cx.arr([(R[k][0]*c5 + R[k][1]*s5)*s.rn
                               for k in range(3)]), cx.arr(s.r), scale=s.rn)
    cx.in_range('range', o[3:], 0, 2*cx.pi)


def degenerate_contrast(cx):
    s = cstate(cx, cx.p.kind, cx.p.plane)
    o = cx.pyorb.cart_to_kep(cx.arr(s.cart), mu=s.mu)
    cx.angle_eq('argument of periapsis', o[3], s.om)
    cx.angle_eq('node', o[4], s.OM)
