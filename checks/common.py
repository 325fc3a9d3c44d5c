"""Textbook two-body formulas used as the oracle (domain generic)."""

E_MIN = 1e-8
I_MIN = 1e-8


class State:
    """Orbit given by textbook elements, with its Cartesian state.

    The gravitational parameter is written mu = w*w*p (w = mu/h the velocity
    scale, p the semi-latus rectum), which covers every mu > 0.
    """


def rotation(cx, inc, om, OM):
    """Rz(OM) Rx(inc) Rz(om)."""
    cO, sO = cx.cos(OM), cx.sin(OM)
    ci, si = cx.cos(inc), cx.sin(inc)
    co, so = cx.cos(om), cx.sin(om)
    return [
        [cO*co - sO*ci*so, -cO*so - sO*ci*co, sO*si],
        [sO*co + cO*ci*so, -sO*so + cO*ci*co, -cO*si],
        [si*so, si*co, ci],
    ]


def conic(cx, kind, tag='', e_hi=None):
    """(p, e, a): semi-latus rectum, eccentricity, the code's size element."""
    if kind == 'ell':
        p = cx.real('p' + tag, 0)
        e = cx.real('e' + tag, E_MIN, 1)
        a = p/(1 - e*e)
    elif kind == 'circ':
        p = cx.real('p' + tag, 0)
        e = cx.scalar(0.0)
        a = p
    elif kind == 'par':
        q = cx.real('q' + tag, 0)
        p = 2*q
        e = cx.scalar(1.0)
        a = q
    elif kind == 'hyp':
        p = cx.real('p' + tag, 0)
        e = cx.real('e' + tag, 1, e_hi)
        a = p/(e*e - 1)
    else:
        raise ValueError(kind)
    return p, e, a


def inclination(cx, plane, tag='', div=1):
    if plane == 'gen':
        return cx.angle('inc' + tag, lo=I_MIN, hi=cx.pi - I_MIN, rng='half',
                        div=div)
    if plane == 'pro':
        return cx.scalar(0.0)
    return cx.scalar(cx.pi)


def state(cx, kind, plane, tag='', om=True, OM=True, nu=None,
          div=1):
    s = State()
    s.p, s.e, s.a = conic(cx, kind, tag)
    s.w = cx.real('w' + tag, 0)
    s.mu = s.w*s.w*s.p
    s.inc = inclination(cx, plane, tag, div)
    s.om = cx.angle('om' + tag) if om else cx.scalar(0.0)
    s.OM = cx.angle('OM' + tag) if OM else cx.scalar(0.0)
    s.nu = cx.angle('nu' + tag) if nu is None else nu
    c, sn = cx.cos(s.nu), cx.sin(s.nu)
    if kind in ('par', 'hyp'):
        cx.assume(1 + s.e*c > 0)
    s.cnu, s.snu = c, sn
    s.kind, s.plane = kind, plane
    s.kep = [s.a, s.e, s.inc, s.om, s.OM, s.nu]
    s.R = rotation(cx, s.inc, s.om, s.OM)
    s.rn = s.p/(1 + s.e*c)
    rx, ry = s.rn*c, s.rn*sn
    vx, vy = -s.w*sn, s.w*(s.e + c)
    s.r = [s.R[k][0]*rx + s.R[k][1]*ry for k in range(3)]
    s.v = [s.R[k][0]*vx + s.R[k][1]*vy for k in range(3)]
    s.cart = s.r + s.v
    return s


def cstate(cx, kind, plane, tag='', **k):
    """Every Cartesian state of this kind, without redundant angles: planar
    states have no node, circular ones no periapsis."""
    return state(cx, kind, plane, tag, om=kind != 'circ', OM=plane == 'gen',
                 **k)


def dot(a, b):
    return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]


def cross(a, b):
    return [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2],
            a[0]*b[1] - a[1]*b[0]]
