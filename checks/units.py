"""U01-U03: unit handling and the protected constants."""
from symx.reg import harness

SIZES = dict(
    length=[('m', 1.0), ('cm', 0.01), ('km', 1000.0), ('au', 1.495978707e11),
            ('pc', 3.0856775814913673e16)],
    mass=[('kg', 1.0), ('g', 0.001), ('msun', 1.98847e30),
          ('msol', 1.98847e30)],
    time=[('s', 1.0), ('h', 3600.0), ('d', 86400.0), ('y', 31557600.0)])
KINDS = ('length', 'mass', 'time')
G_SI = 6.6743e-11


def cased(cx, tag, name):
    """The name with the case of each letter free."""
    out = ''
    for k, c in enumerate(name):
        out += c.upper() if cx.boolean(f'{tag}.{k}') else c
    return out


def near(cx, name, a, b):
    """Equal to nine digits; b > 0."""
    cx.check(name, a - b <= 1e-9*b)
    cx.check(name + ' ', b - a <= 1e-9*b)


def _gpicks(tier):
    out = []
    for a in [n for n, _ in SIZES['length']] + [None]:
        for b in [n for n, _ in SIZES['mass']] + [None]:
            for c in [n for n, _ in SIZES['time']] + [None]:
                out.append(dict(length=a, mass=b, time=c))
    return out


@harness('U01', picks=_gpicks, witnesses=1)
def gravity(cx):
    p = cx.p
    args, size = [], []
    order = cx.integer('case', 0, 2)
    for k in KINDS:
        if p[k] is None:
            x = cx.real(k, 0)
            args.append(x)
            size.append(x)
        else:
            n = p[k]
            args.append([n, n.upper(), n.capitalize()][order])
            size.append(dict(SIZES[k])[n])
    L, M, T = size
    want = M*(T*T)/(L*L*L)
    get = cx.pyorb.get_G if cx.boolean('top') else cx.pyorb.unit.get_G
    if cx.boolean('kw'):
        g = get(time=args[2], length=args[0], mass=args[1])
    else:
        g = get(*args)
    near(cx, 'G', g/G_SI, want)
    # asked again it is the same
    near(cx, 'G again', get(*args)/G_SI, want)


@harness('U01', picks=dict(kind=list(KINDS)), witnesses=1)
def unit_names(cx):
    """Any letter case; the name of the solar mass may be separated."""
    p = cx.p
    k = cx.integer('unit', 0, len(SIZES[p.kind]) - 1)
    n, size = SIZES[p.kind][k]
    name = cased(cx, 'upper', n)
    if n in ('msun', 'msol'):
        name = name[0] + ['', '_', ' ', '-'][cx.integer('sep', 0, 3)] + name[1:]
    others = {q: cx.real(q, 0) for q in KINDS if q != p.kind}
    g = cx.pyorb.get_G(**dict(others, **{p.kind: name}))
    s = dict(others, **{p.kind: size})
    near(cx, f'{name}', g/G_SI,
         s['mass']*s['time']*s['time']/(s['length']*s['length']*s['length']))


@harness('U01', picks=dict(kind=list(KINDS)), witnesses=1)
def ratios(cx):
    """Values in two unit systems differ by the ratio of the units."""
    p = cx.p
    i = cx.integer('one', 0, len(SIZES[p.kind]) - 1)
    j = cx.integer('two', 0, len(SIZES[p.kind]) - 1)
    others = {q: cx.real(q, 0) for q in KINDS if q != p.kind}
    a, b = (cx.pyorb.get_G(**dict(others, **{p.kind: SIZES[p.kind][k][0]}))
            for k in (i, j))
    x, y = SIZES[p.kind][i][1], SIZES[p.kind][j][1]
    if p.kind == 'mass':
        near(cx, 'ratio', a*(y/x), b)
    elif p.kind == 'time':
        near(cx, 'ratio', a*(y/x)**2, b)
    else:
        near(cx, 'ratio', a/(y/x)**3, b)


BAD_NAMES = {'length': ['s', 'kg', 'mm', '', 'parsec', 'k m', 'ly'],
             'mass': ['s', 'm', 'mg', '', 'sun', 'earth', 'ton'],
             'time': ['kg', 'm', 'ms', '', 'year', 'min', 'hh']}


@harness('U01', picks=dict(kind=list(KINDS)), witnesses=1)
def bad_units(cx):
    p = cx.p
    wrong = BAD_NAMES[p.kind] + [None, 1, [1.0], (2.0,), b'm', {}]
    w = wrong[cx.integer('wrong', 0, len(wrong) - 1)]
    args = {}
    for k in KINDS:
        if k == p.kind:
            args[k] = w
        elif cx.boolean('named ' + k):
            args[k] = SIZES[k][cx.integer('unit ' + k, 0, 1)][0]
        else:
            args[k] = cx.real(k, 0)
    ex = cx.raises(Exception, lambda: cx.pyorb.get_G(**args))
    cx.check(f'{w!r} rejected', ex is not None)


@harness('U01', witnesses=1)
def published(cx):
    """Constants have the published values and match the unit system."""
    c = cx.pyorb.const
    top = cx.pyorb
    for n, v in (('G', G_SI), ('AU', 1.495978707e11), ('M_sol', 1.98847e30),
                 ('GM_sol', 1.32712440018e20), ('pi', cx.pi),
                 ('c', 299792458.0), ('wgs84_a', 6378137.0),
                 ('wgs84_invf', 298.257223563), ('wgs84_f', 1/298.257223563),
                 ('wgs84_omega', 7.292115e-5), ('wgs84_GM', 3.986004418e14),
                 ('wgs84_M_earth', 3.986004418e14/G_SI)):
        near(cx, n, getattr(c, n), v)
    for n, v in (('G', G_SI), ('AU', 1.495978707e11), ('M_sol', 1.98847e30),
                 ('GM_sol', 1.32712440018e20), ('GM_earth', 3.986004418e14),
                 ('M_earth', 3.986004418e14/G_SI)):
        near(cx, 'pyorb.' + n, getattr(top, n), v)
    # two times the mass at the same unit system: the parameter is linear
    m = cx.real('m', 0)
    near(cx, 'mu', top.get_G(1.0, 'Msun', 1.0)*m, G_SI*1.98847e30*m)


# --------------------------------------------------------------- U02 decorator
def subset(cx, tag, items):
    return [x for x in items if cx.boolean(f'{tag}{x}')]


def _upicks(tier):
    out = []
    for n in (1, 2, 3):
        for mode in ('default', 'on', 'off', 'kwon', 'kwoff'):
            out.append(dict(n=n, mode=mode))
    return out


def requested(mode):
    """(decorator default, keyword of the call, conversion expected)."""
    return {'default': (None, None, False), 'on': (True, None, True),
            'off': (False, None, False), 'kwon': (False, True, True),
            'kwoff': (True, False, False)}[mode]


def _same(cx, name, got, x, conv):
    cx.eq(name, got, x*(cx.pi/180) if conv else x)


@harness('U02', picks=_upicks, witnesses=1)
def declared_arguments(cx):
    p = cx.p
    ind = subset(cx, 'in', range(p.n)) if cx.boolean('has inds') else None
    keys = subset(cx, 'key ', 'pq') if cx.boolean('has keys') else None
    dflt, kw, conv = requested(p.mode)
    args = [cx.real(f'x{k}') for k in range(p.n)]
    given = subset(cx, 'given ', 'pq')
    kws = {k: cx.real(k) for k in given}
    seen = []

    def func(*a, **k):
        seen.append((a, k))
        return None
    deco = cx.pyorb.unit.angle_units
    f = (deco(ind, keys, None) if dflt is None
         else deco(ind, keys, None, degrees=dflt))(func)
    extra = {} if kw is None else {'degrees': kw}
    for rep in range(2):
        ret = f(*args, **kws, **extra)
        cx.check('nothing returned', ret is None)
        cx.check('called once', len(seen) == rep + 1)
        a, k = seen[-1]
        cx.check('arguments', len(a) == p.n and sorted(k) == sorted(given))
        for j in range(min(p.n, len(a))):
            _same(cx, f'argument {j}', a[j], args[j],
                  conv and ind is not None and j in ind)
        for q in given:
            if q in k:
                _same(cx, f'keyword {q}', k[q], kws[q],
                      conv and keys is not None and q in keys)


@harness('U02', picks=_upicks, witnesses=1)
def declared_outputs(cx):
    p = cx.p
    dflt, kw, conv = requested(p.mode)
    vals = [cx.real(f'y{k}') for k in range(p.n)]
    form = cx.integer('form', 0, 3)
    deco = cx.pyorb.unit.angle_units
    x = cx.real('x')
    if form == 0:
        out, value = None, tuple(vals)
    elif form == 1:
        out, value = True, vals[0]
    elif form == 2:
        out, value = True, cx.arr(vals)
    else:
        out = subset(cx, 'out', range(p.n))
        value = tuple(vals) if cx.boolean('tuple') else list(vals)
    inds = [0] if cx.boolean('convert in') else None

    def func(x):
        func.x = x
        return value
    f = (deco(inds, None, out) if dflt is None
         else deco(inds, None, out, degrees=dflt))(func)
    ret = f(x, **({} if kw is None else {'degrees': kw}))
    _same(cx, 'argument', func.x, x, conv and inds is not None)
    deg = 180/cx.pi if conv else 1
    if form == 1:
        cx.eq('result', ret, vals[0]*deg)
        return
    cx.check('results', len(ret) == p.n)
    for j in range(min(p.n, len(ret))):
        c = conv and (form == 2 or (form == 3 and j in out))
        cx.eq(f'result {j}', ret[j], vals[j]*deg if c else vals[j])


@harness('U02', picks=dict(deg=[True, False], n=[1, 2, 3]), witnesses=1)
def array_arguments(cx):
    """Arrays are converted element by element and not written to."""
    p = cx.p
    vals = [cx.real(f'x{k}') for k in range(p.n)]
    arr, other, kwa = cx.arr(vals), cx.arr(vals), cx.arr(vals)
    seen = {}

    def func(a, b, q=None):
        seen.update(a=a, b=b, q=q)
        return a, b
    f = cx.pyorb.unit.angle_units([0], ['q'], [1])(func)
    a, b = f(arr, other, q=kwa, degrees=p.deg)
    u = cx.pi/180 if p.deg else 1
    for k, v in enumerate(vals):
        cx.eq(f'in {k}', seen['a'][k], v*u)
        cx.eq(f'other {k}', seen['b'][k], v)
        cx.eq(f'keyword {k}', seen['q'][k], v*u)
        cx.eq(f'out 0 {k}', a[k], v*u)
        cx.eq(f'out 1 {k}', b[k], v/u)
        for n, x in (('a', arr), ('b', other), ('q', kwa)):
            cx.eq(f'own {n} {k}', x[k], v)


# --------------------------------------------------------------- U03 constants
def names(cx):
    return sorted(n for n, v in vars(cx.pyorb.const).items()
                  if isinstance(v, (int, float)) and n[:2] != '__')


OTHERS = ['text', None, (), [1.0], {}, 1j]


@harness('U03', picks=dict(part=list(range(8))), witnesses=1)
def protected(cx):
    p = cx.p
    c = cx.pyorb.const
    mine = [n for k, n in enumerate(names(cx)) if k % 8 == p.part]
    name = mine[cx.integer('constant', 0, len(mine) - 1)]
    keep = dict(vars(c))
    old = keep[name]
    try:
        for step in range(2):
            act = cx.integer(f'act{step}', 0, 3)
            if act == 0:
                v = cx.real(f'value{step}')
                ex = cx.raises(Exception, lambda: setattr(c, name, v))
                if ex is None:
                    cx.eq(f'{name} set silently', v, old)
                else:
                    cx.check(f'{name} rejects what it is', v != old)
            elif act == 1:
                v = OTHERS[cx.integer(f'other{step}', 0, len(OTHERS) - 1)]
                ex = cx.raises(Exception, lambda: setattr(c, name, v))
                cx.check(f'{name} = {v!r} rejected', ex is not None)
            elif act == 2:
                ex = cx.raises(Exception, lambda: delattr(c, name))
                cx.check(f'del {name} rejected', ex is not None)
            else:
                # through another object of the same kind
                d = type(c)()
                v = cx.real(f'value{step}')
                cx.raises(Exception, lambda: setattr(d, name, v))
            cx.check(f'{name} there', name in vars(c))
            if name in vars(c):
                cx.eq(f'{name} kept', getattr(c, name), old)
        cx.check('others', sorted(vars(c)) == sorted(keep))
        for n in names(cx):
            v = keep[n]
            if n in vars(c):
                cx.eq(f'{n} unaffected', vars(c)[n], v)
    finally:
        vars(c).clear()
        vars(c).update(keep)
