"""Consistency of the two descriptions held by an orbit object."""
from symx.reg import harness
from .orbit_common import (setup, OPS, MASS_OPS, CALC_OPS, WHOLE_OPS, CART,
                           KEP, TYPES,
                           NAN, cvec, kvec, cval, kval)

NAMES = sorted(OPS)
LAZY = sorted({**OPS, **MASS_OPS})
MANUAL = sorted(set(OPS) | set(CALC_OPS))
ALL = {**OPS, **MASS_OPS, **CALC_OPS, **WHOLE_OPS}

# one operation of each kind, for the histories of three
CORE = ['set a', 'set e', 'set anom', 'set vx', 'set r', 'set kepler',
        'set cartesian', 'update kepler int', 'update z,vx list'.replace(
            'z,vx', 'vx,z'), 'update a,anom mask', 'type true',
        'type eccentric', 'anomaly true', 'anomaly mean', 'propagate',
        'add cart', 'delete', 'velocity', 'period', 'equinoctial',
        'read cart', 'read kep']

QUICK_CFG = [('mean', True, 'kep'), ('true', False, 'cart'),
             ('eccentric', False, 'kep')]
FULL_CFG = [(t, d, i) for t in TYPES for d in (False, True)
            for i in ('kep', 'cart')]


def combos(names, core, modes, thorough_modes=None):
    def f(tier):
        out = []
        if tier == 'quick':
            for m in modes:
                for j, op in enumerate(names):
                    # every operation first, in a configuration each
                    t, d, i = QUICK_CFG[j % len(QUICK_CFG)]
                    out.append(dict(mode=m, type=t, deg=d, init=i, op1=op,
                                    depth=2))
            return out
        for m in thorough_modes or modes:
            for t, d, i in FULL_CFG:
                for op in names:
                    out.append(dict(mode=m, type=t, deg=d, init=i, op1=op,
                                    depth=2))
            for j, op in enumerate(core):
                t, d, i = FULL_CFG[j % len(FULL_CFG)]
                for k in range(3):
                    out.append(dict(mode=m, type=t, deg=d, init=i, op1=op,
                                    depth=3, part=k))
        return out
    return f


def apply(name, cx, orb, ref, tag):
    if ref.n or name.startswith(('add', 'type', 'read cart', 'read kep')):
        ALL[name](cx, orb, ref, tag)


def history(cx, names, core):
    p = cx.p
    orb, ref = setup(cx, p.get('n', 2), p.init, p.type, p.deg, p.mode)
    if p.mode == 'manual' and p.init != 'none':
        # both descriptions, independent of each other
        if p.init == 'kep':
            OPS['set cartesian'](cx, orb, ref, '.0')
        else:
            OPS['set kepler'](cx, orb, ref, '.0')
    apply(p.op1, cx, orb, ref, '.1')
    if p.depth == 3:
        mid = core[p.part::3]
        k = cx.integer('op2', 0, len(mid) - 1)
        apply(mid[k], cx, orb, ref, '.2')
        last, tag = core, '.3'
        lab = f'{mid[k]}, '
    else:
        last, tag, lab = names, '.2', ''
    k = cx.integer('last', 0, len(last) - 1)
    apply(last[k], cx, orb, ref, tag)
    order = 'ck'
    if p.mode == 'lazy':
        order = ['ckc', 'kck'][cx.integer('order', 0, 1)]
    ref.check_all(f'{p.op1}, {lab}{last[k]}', orb, order)


@harness('O01', picks=combos(NAMES, CORE, ['direct'], ['direct', 'direct2']),
         env='uf', witnesses=2)
def direct_histories(cx):
    history(cx, NAMES, CORE)


@harness('O02', picks=combos(LAZY, CORE, ['lazy']), env='uf', witnesses=2)
def lazy_histories(cx):
    history(cx, LAZY, CORE)


@harness('O03', picks=combos(MANUAL, CORE + sorted(CALC_OPS), ['manual']),
         env='uf', witnesses=2)
def manual_histories(cx):
    history(cx, MANUAL, CORE + sorted(CALC_OPS))


@harness('O01', picks=dict(mode=['direct', 'direct2'], type=['mean'],
                           deg=[True], init=['kep'], flat=[True],
                           op1=CORE, depth=[2]), env='uf', witnesses=2)
def direct_circular(cx):
    history(cx, CORE, CORE)


@harness('O02', picks=dict(mode=['lazy'], type=['true'], deg=[False],
                           init=['kep', 'cart'], flat=[True],
                           op1=CORE, depth=[2]), env='uf', witnesses=2)
def lazy_circular(cx):
    history(cx, CORE, CORE)


@harness('O01', picks=dict(mode=['direct'], type=['mean', 'true'],
                           deg=[True, False], init=['kep', 'cart'],
                           op1=CORE, depth=[2], n=[1]),
         env='uf', witnesses=2)
def direct_single(cx):
    history(cx, CORE, CORE)


@harness('O02', picks=dict(mode=['lazy'], type=['mean', 'eccentric'],
                           deg=[True, False], init=['kep', 'cart'],
                           op1=CORE, depth=[2], n=[1]),
         env='uf', witnesses=2)
def lazy_single(cx):
    history(cx, CORE, CORE)


# ------------------------------------------------------------ mode switches
WHOLE = sorted(WHOLE_OPS)
SELECTED = [n for n in WHOLE if n.startswith('update')]
PHASES = [('lazy', 'manual'), ('manual', 'lazy'), ('direct', 'manual'),
          ('lazy', 'direct'), ('manual', 'direct'), ('direct', 'lazy')]
FIRST = ['nothing', 'set a', 'set anom', 'set vx', 'set kepler',
         'set cartesian', 'update a,anom mask', 'update vx,z list',
         'update cartesian int', 'update kepler slice', 'type eccentric',
         'anomaly mean', 'propagate', 'add cart', 'delete', 'equinoctial']


def mode_combos(first):
    def f(tier):
        out = []
        k = 0
        for ph in PHASES:
            for op in first:
                cfgs = FULL_CFG
                if tier == 'quick':
                    cfgs = [QUICK_CFG[k % 3], QUICK_CFG[(k + 1) % 3]][
                        :2 if op in ('nothing', 'set a') else 1]
                k += 1
                for t, d, i in cfgs:
                    out.append(dict(phases=list(ph), type=t, deg=d, init=i,
                                    op1=op, more=tier != 'quick'))
                if tier != 'quick' or op.startswith(('set', 'nothing')):
                    t, d, i = cfgs[0]
                    out.append(dict(phases=list(ph), type=t, deg=d, init=i,
                                    op1=op, more=False, flat=True))
        return out
    return f


def mode_history(cx, n, names):
    """Writes while the update mode is switched; read with lazy updates."""
    p = cx.p
    orb, ref = setup(cx, n, p.init, p.type, p.deg, p.phases[0])
    if p.op1 != 'nothing':
        apply(p.op1, cx, orb, ref, '.1')
    ref.switch(orb, p.phases[1])
    k = cx.integer('op2', 0, len(names) - 1)
    apply(names[k], cx, orb, ref, '.2')
    ref.switch(orb, 'lazy')
    if p.more:
        last = ['nothing', 'set e', 'set vx', 'update cartesian int',
                'update a,anom mask', 'type true', 'delete', 'velocity']
        j = cx.integer('op3', 0, len(last) - 1)
        if j:
            apply(last[j], cx, orb, ref, '.3')
    order = ['ckc', 'kck'][cx.integer('order', 0, 1)]
    ref.check_all(f'{p.op1}, {p.phases[1]}, {names[k]}', orb, order)


@harness('O02', picks=mode_combos(FIRST), env='uf', witnesses=2)
def switched_modes(cx):
    mode_history(cx, 2, WHOLE)


@harness('O04', picks=mode_combos(['nothing', 'set a', 'set cartesian',
                                   'update a,anom mask', 'add cart']),
         env='uf', witnesses=2)
def selected_while_switching(cx):
    mode_history(cx, 3, SELECTED)


# ------------------------------------------------------------- construction
def _build(cx, which, how, n, type, deg, mode):
    """Elements given in one of the possible ways."""
    p = cx.p
    orb, ref = setup(cx, 0 if how == 'add' else n,
                     {'block': which}.get(how, 'none'), type, deg, mode)
    if how == 'block':
        return orb, ref
    names = CART if which == 'cart' else KEP
    vs = [(cvec(cx, f'_{j}') if which == 'cart' else
           kvec(cx, ref, f'_{j}')) for j in range(n)]
    if how == 'keywords':
        kw = {nm: cx.arr([v[k] for v in vs]) for k, nm in enumerate(names)}
        kw2 = dict(G=ref.G, num=n, type=type, degrees=deg)
        from .orbit_common import MODES
        kw2.update(MODES[mode])
        orb = cx.pyorb.Orbit(ref.M0, m=cx.arr([c.m for c in ref.cols]),
                             **kw2, **kw)
    elif how == 'setters':
        order = list(range(6))
        if p.rev:
            order.reverse()
        for k in order:
            setattr(orb, names[k], cx.arr([v[k] for v in vs]))
    elif how == 'updates':
        # per orbit, in two updates
        for j, v in enumerate(vs):
            orb.update(inds=j, **{names[k]: v[k] for k in (0, 3, 4)})
        for j, v in enumerate(vs):
            orb.update(inds=j, **{names[k]: v[k] for k in (1, 2, 5)})
    elif how == 'add':
        for j, v in enumerate(vs):
            m = cx.real(f'm{j}', 0, fav=(0.01, 0.3))
            c = ref.blank()
            c.m = m
            ref.cols.append(c)
            orb.add(num=1, m=m, **{nm: v[k] for k, nm in enumerate(names)})
    elif how == 'add block':
        orb.delete(slice(None))
        ms = cx.arr([c.m for c in ref.cols])
        orb.add(num=n, m=ms, **{
            'cartesian' if which == 'cart' else 'kepler': cx.arr(vs).T})
    for c, v in zip(ref.cols, vs):
        (ref.set_cart if which == 'cart' else ref.set_kep)(
            c, dict(enumerate(v)))
    return orb, ref


BUILD = ['block', 'keywords', 'setters', 'updates', 'add', 'add block']


@harness('O13', picks=dict(which=['kep', 'cart'], how=BUILD,
                           mode=['direct', 'lazy', 'manual'],
                           type=['mean', 'true'], deg=[True, False],
                           n=[1, 2], rev=[False, True]), env='uf',
         witnesses=1)
def construction(cx):
    p = cx.p
    if p.rev and p.how != 'setters':
        return cx.check('not applicable', True)
    orb, ref = _build(cx, p.which, p.how, p.n, p.type, p.deg, p.mode)
    order = ['ck', 'kc'][cx.integer('order', 0, 1)]
    ref.check_all('built', orb, order)


@harness('O13', picks=dict(which=['kep', 'cart'], mode=['direct', 'lazy'],
                           type=['mean', 'eccentric'], deg=[True]), env='uf',
         witnesses=1)
def incomplete(cx):
    """As long as elements are missing, nothing is invented."""
    p = cx.p
    orb, ref = setup(cx, 2, 'none', p.type, p.deg, p.mode)
    names = CART if p.which == 'cart' else KEP
    miss = cx.integer('missing', 0, 5)
    vs = [(cvec(cx, f'_{j}') if p.which == 'cart' else
           kvec(cx, ref, f'_{j}')) for j in range(2)]
    for k in range(6):
        if k != miss:
            setattr(orb, names[k], cx.arr([v[k] for v in vs]))
    other = orb.kepler if p.which == 'cart' else orb.cartesian
    got = orb.cartesian if p.which == 'cart' else orb.kepler
    for j in range(2):
        for k in range(6):
            cx.check(f'unknown {k} {j}', cx.isbad(other[k, j]))
            if k == miss:
                cx.check(f'missing {k} {j}', cx.isbad(got[k, j]))
            else:
                cx.eq(f'given {k} {j}', got[k, j], vs[j][k])
    # the first orbit is completed, the second one stays incomplete
    orb.update(inds=0, **{names[miss]: vs[0][miss]})
    c = ref.cols[0]
    (ref.set_cart if p.which == 'cart' else ref.set_kep)(
        c, dict(enumerate(vs[0])))
    k0, c0 = orb.kepler, orb.cartesian
    ref.cols = [c]
    ref.check_kep('completed', k0[:, :1])
    ref.check_cart('completed', c0[:, :1])
    other = k0 if p.which == 'cart' else c0
    for k in range(6):
        cx.check(f'still unknown {k}', cx.isbad(other[k, 1]))
