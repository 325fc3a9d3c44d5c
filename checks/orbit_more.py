"""Selections, copies, aliasing, rejected writes, derived quantities."""
import copy as _copy
import re

from symx.reg import harness
from . import orbit_common as O
from .orbit_common import (setup, OPS, MASS_OPS, CART, KEP, TYPES, MODES,
                           cvec, kvec, cval, kval, todeg, selector)

KINDS = ['int', 'neg', 'slice', 'head', 'list', 'array', 'mask', 'all']
LAZYM = {**OPS, **MASS_OPS}


def cfg(modes, types=('mean',), degs=(True,), inits=('kep', 'cart'),
        thorough=True, **more):
    """Few configurations for the quick tier, all for the thorough one."""
    def f(tier):
        import itertools
        d = dict(mode=list(modes), type=list(types), deg=list(degs),
                 init=list(inits), **more)
        if tier != 'quick' and thorough:
            d['type'] = TYPES
            d['deg'] = [True, False]
        keys = list(d)
        return [dict(zip(keys, v)) for v in itertools.product(*d.values())]
    return f


def pend(cx, orb, ref):
    """One description has been overwritten: conversions may be pending."""
    if ref.mode == 'manual':
        OPS['set cartesian' if cx.p.init == 'kep' else 'set kepler'](
            cx, orb, ref, '.0')


# ------------------------------------------------------------- O04 selections
def sel_ops(kind):
    out = {}
    for which in ('cartesian', 'kepler'):
        out['block ' + which] = O.update_block(which, kind)
        if kind not in ('int', 'neg'):
            out['vector ' + which] = O.update_block(which, kind, True)
    for nm in (['x'], ['vy', 'z'], ['e'], ['anom', 'i'], ['omega', 'Omega']):
        out['elems ' + ','.join(nm)] = O.update_elems(nm, kind)
    out['delete'] = O.delete(kind)
    return out


@harness('O04', picks=cfg(['direct', 'lazy', 'manual'], kind=KINDS),
         env='uf', witnesses=2)
def selected_orbits(cx):
    p = cx.p
    orb, ref = setup(cx, 3, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    ops = sel_ops(p.kind)
    if p.mode != 'direct':
        ops['mass x'] = O.update_elems(['x'], p.kind, True)
        ops['mass a'] = O.update_elems(['a'], p.kind, True)
    names = sorted(ops)
    k = cx.integer('op', 0, len(names) - 1)
    before = ref.fork()
    ops[names[k]](cx, orb, ref, '.1')
    cx.check('number', orb.num == ref.n)
    ref.check_all(f'{names[k]} {p.kind}', orb,
                  ['ck', 'kc'][cx.integer('order', 0, 1)])
    if names[k] != 'delete':
        # the others, value by value
        _, idx = selector(cx.np, p.kind, 3)
        for j in range(3):
            if j not in idx:
                ref.cols[j].kep = before.cols[j].kep
                ref.cols[j].cart = before.cols[j].cart
        ref.check_all(f'others {names[k]} {p.kind}', orb)


@harness('O04', picks=cfg(['direct', 'lazy', 'manual'],
                          which=['cart', 'kep'], num=[1, 2, '0 scalar',
                                                      '2 scalar']),
         env='uf', witnesses=2)
def added_orbits(cx):
    """Added orbits come last; then one of the old ones is changed."""
    p = cx.p
    orb, ref = setup(cx, 2, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    num = int(str(p.num).split()[0])
    O.add(p.which, num, 'scalar' in str(p.num))(cx, orb, ref, '.1')
    names = ['none', 'delete', 'delete last', 'set x', 'update a']
    k = cx.integer('op', 0, len(names) - 1)
    if names[k] == 'delete':
        O.delete('head')(cx, orb, ref, '.2')
    elif names[k] == 'delete last':
        O.delete('neg')(cx, orb, ref, '.2')
    elif names[k] == 'set x':
        O.set_element('x')(cx, orb, ref, '.2')
    elif names[k] == 'update a':
        O.update_elems(['a'], 'int')(cx, orb, ref, '.2')
    ref.check_all(f'add {p.num}, {names[k]}', orb,
                  ['ck', 'kc'][cx.integer('order', 0, 1)])
    if p.mode != 'manual':
        ref.check_anoms(f'add {p.num}, {names[k]}', orb)


# ------------------------------------------------------------------ O05 copies
COPIES = ['copy', 'copy.copy', 'item', 'neg', 'slice', 'list', 'mask', 'iter']


def take(cx, orb, ref, how):
    n = ref.n
    if how == 'copy':
        return orb.copy(), list(range(n))
    if how == 'copy.copy':
        return _copy.copy(orb), list(range(n))
    if how == 'iter':
        return list(iter(orb))[1], [1]
    if how == 'item':
        return orb[1], [1]
    sel, idx = selector(cx.np, how, n)
    return orb[sel], idx


ATTRS = ['G', 'M0', 'degrees', 'type', 'auto_update', 'direct_update',
         'kepler_read_only', 'cartesian_read_only', 'dtype']
WRITES = ['set x', 'set a', 'set kepler', 'set cartesian', 'type true',
          'propagate', 'delete', 'add kep', 'add cart', 'anomaly eccentric',
          'equinoctial', 'velocity', 'update vx,z list', 'mass', 'options']


@harness('O05', picks=cfg(['direct', 'lazy', 'manual'], how=COPIES),
         env='uf', witnesses=2)
def copies(cx):
    p = cx.p
    epoch = cx.real('epoch')
    opts = dict(tol=1e-10, max_iter=777, degree=4)
    orb, ref = setup(cx, 3, p.init, p.type, p.deg, p.mode, opts=opts,
                     epoch=epoch)
    O.update_elems(['x'] if p.init == 'kep' else ['a'], 'int')(
        cx, orb, ref, '.1')
    flags = (True, False) if cx.boolean('kepler fixed') else (False, True)
    orb.kepler_read_only, orb.cartesian_read_only = flags
    c, idx = take(cx, orb, ref, p.how)
    cref = ref.pick(idx)
    for nm in ATTRS:
        cx.check(f'{nm} kept', getattr(c, nm) == getattr(orb, nm))
    for o in (orb, c):
        cx.check('flags kept', (o.kepler_read_only,
                                o.cartesian_read_only) == flags)
        o.kepler_read_only = o.cartesian_read_only = False
    cx.eq('epoch kept', c.epoch, epoch)
    cx.check('options kept', c.solver_options == orb.solver_options
             and c.solver_options is not orb.solver_options)
    names = WRITES
    which = cx.integer('side', 0, 1)
    k = cx.integer('op', 0, len(names) - 1)
    tgt, tref = (orb, ref) if which == 0 else (c, cref)
    if names[k] == 'mass':
        v = cx.real('mnew', 0)
        tgt.m[0] = v
        tref.cols[0].m = v
    elif names[k] == 'options':
        tgt.solver_options['tol'] = 1e-3
        other = c if which == 0 else orb
        cx.check('options independent', other.solver_options['tol'] == 1e-10)
        tgt.solver_options['tol'] = 1e-10
    else:
        OPS[names[k]](cx, tgt, tref, '.2')
    if names[k] == 'mass' and p.mode == 'lazy':
        # pending conversions use whichever mass: only the other one is fixed
        (cref if which == 0 else ref).check_all(
            'untouched', c if which == 0 else orb)
        return
    first = cx.integer('first', 0, 1)
    for q in ((orb, ref), (c, cref))[::1 if first == 0 else -1]:
        q[1].check_all(f'{p.how}, {names[k]} on {"oc"[which]}', q[0])


@harness('O05', picks=cfg(['direct', 'lazy', 'manual']), env='uf',
         witnesses=1)
def iterations(cx):
    p = cx.p
    orb, ref = setup(cx, 3, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    seen = []
    for a in orb:
        for b in orb:
            seen.append((a, b))
    cx.check('pairs', len(seen) == 9)
    for k, (a, b) in enumerate(seen):
        ref.pick([k//3]).check_all('outer', a)
        ref.pick([k % 3]).check_all('inner', b, 'kc')
    it = iter(orb)
    next(it)
    cx.check('restart', len(list(orb)) == 3 and len(list(it)) == 2)
    ref.check_all('after', orb)


# ---------------------------------------------------------------- O06 aliasing
def array_props(cx, orb):
    out = []
    for nm in sorted(dir(type(orb))):
        if isinstance(getattr(type(orb), nm, None), property):
            if hasattr(getattr(orb, nm), 'shape'):
                out.append(nm)
    return out


@harness('O06', picks=cfg(['direct', 'lazy', 'manual'],
                          types=('mean', 'true'), n=[1, 2]),
         env='uf', witnesses=1)
def read_arrays(cx):
    p = cx.p
    orb, ref = setup(cx, p.n, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    O.closed(cx, ref)
    names = array_props(cx, orb[:])
    k = cx.integer('property', 0, len(names) - 1)
    a = getattr(orb, names[k])
    if p.get('twice', True) and cx.boolean('warm'):
        a = getattr(orb, names[k])
    try:
        a[...] = cx.real('junk', fav=(5, 6))
    except ValueError as ex:
        if 'read-only' not in str(ex):
            raise
    ref.check_all(f'{names[k]} modified', orb)
    if p.mode != 'manual':
        ref.check_anoms(f'{names[k]} modified', orb)


SETTERS_C = ['cartesian', 'r', 'v', 'x', 'y', 'z', 'vx', 'vy', 'vz']
SETTERS_K = ['kepler'] + KEP + [t + '_anomaly' for t in TYPES]


@harness('O06', picks=cfg(['direct', 'lazy', 'manual'], n=[1, 2],
                          vec=[False, True]), env='uf', witnesses=1)
def written_arrays(cx):
    p = cx.p
    orb, ref = setup(cx, p.n, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    names = SETTERS_C + SETTERS_K + ['update cartesian', 'update kepler',
                                     'update x', 'update a', 'add', 'init',
                                     'm', 'equinoctial']
    k = cx.integer('property', 0, len(names) - 1)
    nm = names[k]
    junk = cx.real('junk', fav=(5, 6))
    n = p.n
    cart = [cvec(cx, f'.1_{j}') for j in range(n)]
    kep = [kvec(cx, ref, f'.1_{j}') for j in range(n)]
    snap = cx.snapshot

    def col(vs, r):
        return cx.arr([v[r] for v in vs])
    if nm in ('cartesian', 'update cartesian', 'kepler', 'update kepler'):
        src = cart if 'cart' in nm else kep
        val = cx.arr(src[0]) if p.vec else cx.arr(src).T
        if p.vec:
            src = [src[0]]*n
        old = snap(val)
        if nm.startswith('update'):
            orb.update(**{nm[7:]: val})
        else:
            setattr(orb, nm, val)
        for c, v in zip(ref.cols, src):
            (ref.set_cart if 'cart' in nm else ref.set_kep)(
                c, dict(enumerate(v)))
    elif nm in ('r', 'v'):
        lo = 0 if nm == 'r' else 3
        val = cx.arr([v[lo:lo + 3] for v in cart]).T
        old = snap(val)
        setattr(orb, nm, val)
        for c, v in zip(ref.cols, cart):
            ref.set_cart(c, {lo + q: v[lo + q] for q in range(3)})
    elif nm in CART or nm == 'update x':
        r = CART.index(nm[-1] if nm == 'update x' else nm)
        val = col(cart, r)
        old = snap(val)
        if nm == 'update x':
            orb.update(x=val)
        else:
            setattr(orb, nm, val)
        for c, v in zip(ref.cols, cart):
            ref.set_cart(c, {r: v[r]})
    elif nm in KEP or nm == 'update a':
        r = KEP.index(nm[-1] if nm == 'update a' else nm)
        val = col(kep, r)
        old = snap(val)
        if nm == 'update a':
            orb.update(a=val)
        else:
            setattr(orb, nm, val)
        for c, v in zip(ref.cols, kep):
            ref.set_kep(c, {r: v[r]})
    elif nm.endswith('_anomaly'):
        t = nm[:-8]
        O.closed(cx, ref)
        val = col(kep, 5)
        old = snap(val)
        es = [c.kep[1] for c in ref.cols]
        setattr(orb, nm, val)
        for c, v, e in zip(ref.cols, kep, es):
            ref.set_kep(c, {5: ref.conv(v[5], e, t, ref.type)}, False)
    elif nm == 'equinoctial':
        rows = [[cx.real(f'a.2_{j}', 0, fav=(0.8, 1.6))] + [
            cx.real(f'{q}.2_{j}', fav=(0.1, 0.3)) for q in 'hkpq']
            + [todeg(cx, ref, cx.angle(f'lam_{j}'))] for j in range(n)]
        val = cx.arr(rows).T
        old = snap(val)
        orb.equinoctial = val
        for c, q in zip(ref.cols, rows):
            e = ref.K.equi_to_kep(cx.arr(q), degrees=ref.deg)
            e = [e[r] for r in range(6)]
            e[5] = ref.conv(e[5], e[1], 'mean', ref.type)
            ref.set_kep(c, dict(enumerate(e)), False)
    elif nm == 'add':
        val = cx.arr(cart).T
        old = snap(val)
        orb.add(num=n, cartesian=val)
        for v in cart:
            c = ref.blank()
            ref.cols.append(c)
            ref.set_cart(c, dict(enumerate(v)))
    elif nm == 'init':
        val = cx.arr(kep).T
        old = snap(val)
        orb = cx.pyorb.Orbit(ref.M0, G=ref.G, num=n, kepler=val, type=p.type,
                             m=cx.arr([c.m for c in ref.cols]),
                             degrees=p.deg, **MODES[p.mode])
        blank = ref.blank()
        for c, v in zip(ref.cols, kep):
            c.cart = list(blank.cart)
            ref.set_kep(c, dict(enumerate(v)))
    elif nm == 'm':
        val = cx.arr([c.m for c in ref.cols])
        old = snap(val)
        orb = cx.pyorb.Orbit(ref.M0, G=ref.G, num=n, m=val, type=p.type,
                             degrees=p.deg, kepler=cx.arr(kep).T,
                             **MODES[p.mode])
        blank = ref.blank()
        for c, v in zip(ref.cols, kep):
            c.cart = list(blank.cart)
            ref.set_kep(c, dict(enumerate(v)))
    cx.eq(f'{nm}: argument kept', val, old)
    val[...] = junk
    ref.check_all(f'{nm} source modified', orb)


# ------------------------------------------------------- O07 rejected writes
KEP_WRITES = ['kepler'] + KEP + [t + '_anomaly' for t in TYPES] + [
    'period', 'mean_motion', 'equinoctial']
CART_WRITES = SETTERS_C + ['velocity']


def attempts(cx, ref, p):
    """Writes that have to be rejected: (name, exception, action)."""
    v = cx.real('new', 0, 1, fav=(0.2, 0.4))
    n = ref.n
    col = [v]*n
    block = cx.arr([[v]*n]*6)
    out = []
    if p.flag in ('kepler', 'both'):
        for nm in KEP_WRITES:
            val = block if nm in ('kepler', 'equinoctial') else cx.arr(col)
            out.append((nm, AttributeError,
                        lambda o, nm=nm, val=val: setattr(o, nm, val)))
        out.append(('update kepler', AttributeError,
                    lambda o: o.update(kepler=block)))
        for nm in KEP:
            out.append(('update ' + nm, AttributeError,
                        lambda o, nm=nm: o.update(**{nm: v})))
            out.append(('update 0 ' + nm, AttributeError,
                        lambda o, nm=nm: o.update(inds=0, **{nm: v})))
            out.append(('add ' + nm, AttributeError,
                        lambda o, nm=nm: o.add(num=1, **{nm: v})))
            out.append(('update m ' + nm, (AttributeError, ValueError),
                        lambda o, nm=nm: o.update(inds=1, m=v, **{nm: v})))
            out.append(('add m ' + nm, (AttributeError, ValueError),
                        lambda o, nm=nm: o.add(num=1, m=v, **{nm: v})))
        out.append(('update m kepler', (AttributeError, ValueError),
                    lambda o: o.update(m=v, kepler=block)))
        out.append(('add kepler', AttributeError,
                    lambda o: o.add(num=2, kepler=cx.arr([[v]*2]*6))))
        out.append(('propagate', AttributeError, lambda o: o.propagate(v)))
    if p.flag in ('cartesian', 'both'):
        for nm in CART_WRITES:
            val = block if nm == 'cartesian' else block[:3] \
                if nm in 'rv' else cx.arr(col)
            out.append((nm, AttributeError,
                        lambda o, nm=nm, val=val: setattr(o, nm, val)))
        out.append(('update cartesian', AttributeError,
                    lambda o: o.update(cartesian=block)))
        for nm in CART:
            out.append(('update ' + nm, AttributeError,
                        lambda o, nm=nm: o.update(**{nm: v})))
            out.append(('add ' + nm, AttributeError,
                        lambda o, nm=nm: o.add(num=1, **{nm: v})))
            out.append(('update m ' + nm, (AttributeError, ValueError),
                        lambda o, nm=nm: o.update(m=v, **{nm: v})))
            out.append(('add m ' + nm, (AttributeError, ValueError),
                        lambda o, nm=nm: o.add(num=1, m=v, **{nm: v})))
        out.append(('update m cartesian', (AttributeError, ValueError),
                    lambda o: o.update(m=v, cartesian=block)))
        out.append(('add cartesian', AttributeError,
                    lambda o: o.add(num=2, cartesian=cx.arr([[v]*2]*6))))
    if p.flag == 'none':
        for a in ('x', 'vz'):
            for b in KEP:
                out.append((f'update {a} {b}', ValueError,
                            lambda o, a=a, b=b: o.update(**{a: v, b: v})))
                out.append((f'add {a} {b}', ValueError,
                            lambda o, a=a, b=b: o.add(num=1, **{a: v, b: v})))
                out.append((f'update m {a} {b}', ValueError,
                            lambda o, a=a, b=b: o.update(m=v,
                                                         **{a: v, b: v})))
        out.append(('type', ValueError,
                    lambda o: setattr(o, 'type', 'hyperbolic')))
        out.append(('type empty', ValueError, lambda o: setattr(o, 'type', '')))
        if p.mode == 'direct':
            for nm in ('x', 'a'):
                out.append((f'update m {nm}', ValueError,
                            lambda o, nm=nm: o.update(m=v, **{nm: v})))
            out.append(('update m', ValueError, lambda o: o.update(m=v)))
            out.append(('update m 0', ValueError,
                        lambda o: o.update(inds=0, m=v, e=v)))
    return out


@harness('O07', picks=cfg(['direct', 'lazy', 'manual'],
                          flag=['kepler', 'cartesian', 'both', 'none']),
         env='uf', witnesses=1)
def rejected(cx):
    p = cx.p
    orb, ref = setup(cx, 2, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    O.closed(cx, ref)
    # conversions of the first orbit are pending, or not
    if cx.boolean('warm'):
        ref.check_all('before', orb, 'ck')
    if p.flag in ('kepler', 'both'):
        orb.kepler_read_only = True
    if p.flag in ('cartesian', 'both'):
        orb.cartesian_read_only = True
    acts = attempts(cx, ref, p)
    k = cx.integer('act', 0, len(acts) - 1)
    nm, exc, act = acts[k]
    ex = cx.raises(exc, lambda: act(orb))
    cx.check(f'{nm} rejected', ex is not None)
    ref.check_all(f'after {nm}', orb, ['ck', 'kc'][cx.integer('order', 0, 1)])
    if p.mode != 'manual':
        ref.check_anoms(f'after {nm}', orb)
    cx.check('flags', orb.kepler_read_only == (p.flag in ('kepler', 'both'))
             and orb.cartesian_read_only == (p.flag in ('cartesian', 'both')))
    # the same write is accepted once it is allowed
    if p.flag != 'none' and not nm.startswith('add') \
            and not (p.mode == 'direct' and nm.startswith('update m')):
        orb.kepler_read_only = orb.cartesian_read_only = False
        cx.check(f'{nm} allowed', cx.raises(exc, lambda: act(orb)) is None)


@harness('O07', picks=cfg(['direct', 'lazy'],
                          flag=['kepler', 'cartesian', 'both'],
                          how=['constructor', 'copy', 'item']),
         env='uf', witnesses=1)
def read_only_kept(cx):
    """Flags given to the constructor, and those of copies, are effective."""
    p = cx.p
    fl = dict(kepler_read_only=p.flag in ('kepler', 'both'),
              cartesian_read_only=p.flag in ('cartesian', 'both'))
    orb, ref = setup(cx, 2, p.init, p.type, p.deg, p.mode, **fl)
    if p.how == 'copy':
        orb = orb.copy()
    elif p.how == 'item':
        orb, ref = orb[1], ref.pick([1])
    acts = attempts(cx, ref, p)
    k = cx.integer('act', 0, len(acts) - 1)
    nm, exc, act = acts[k]
    ex = cx.raises(exc, lambda: act(orb))
    cx.check(f'{nm} rejected', ex is not None)
    ref.check_all(f'after {nm}', orb, 'kc')


@harness('O07', picks=dict(bad=['hyperbolic', 'TRUE ', '', 'mean anomaly']),
         env='uf', witnesses=0)
def bad_constructor(cx):
    p = cx.p
    M0 = cx.real('M0', 0)
    ex = cx.raises(ValueError, lambda: cx.pyorb.Orbit(M0, type=p.bad))
    if p.bad.strip().lower() not in TYPES:
        cx.check('type rejected', ex is not None)
    else:
        cx.check('not claimed', True)
    v = cx.real('v')
    cx.check('mixed', cx.raises(
        ValueError, lambda: cx.pyorb.Orbit(M0, x=v, a=v)) is not None)


# ------------------------------------------------------------ O08 anomaly type
def _types(tier):
    out = []
    for mode in MODES:
        for init in ('kep', 'cart'):
            for t in TYPES:
                for deg in (True, False):
                    if tier == 'quick' and deg != (t == 'mean'):
                        continue
                    for e in ('ell', 'hyp', 'par'):
                        if init == 'cart' and e != 'ell':
                            continue
                        out.append(dict(mode=mode, init=init, type=t, deg=deg,
                                        conic=e, steps=2 if tier == 'quick'
                                        else 3))
    return out


SPELL = {'true': ['true', ' True '], 'eccentric': ['eccentric', 'ECCENTRIC'],
         'mean': ['mean', 'Mean\n']}


def conic_setup(cx, n, p, **more):
    """Orbits of one conic section (given as elements)."""
    mode = p.mode
    if p.get('conic', 'ell') == 'ell' or p.init == 'cart':
        orb, ref = setup(cx, n, p.init, p.type, p.deg, mode, **more)
        pend(cx, orb, ref)
        return orb, ref
    orb, ref = setup(cx, n, 'none', p.type, p.deg, mode, **more)
    vs = []
    for j, c in enumerate(ref.cols):
        t = f'_{j}'
        v = [cx.real('a' + t, 0, fav=(0.8, 1.6)),
             cx.scalar(1.0) if p.conic == 'par' else
             cx.real('e' + t, 1, fav=(1.2, 1.6)),
             todeg(cx, ref, cx.angle('i' + t, lo=1e-3, hi=3.14, rng='half')),
             todeg(cx, ref, cx.angle('omega' + t)),
             todeg(cx, ref, cx.angle('Omega' + t)),
             todeg(cx, ref, cx.angle('anom' + t, rng='pm', lo=-1, hi=1))]
        vs.append(v)
        ref.set_kep(c, dict(enumerate(v)))
    orb.kepler = cx.arr(vs).T
    pend(cx, orb, ref)
    return orb, ref


@harness('O08', picks=_types, env='uf', witnesses=2)
def type_changes(cx):
    p = cx.p
    orb, ref = conic_setup(cx, 2, p)
    lab = p.type
    for s in range(p.steps):
        t = TYPES[cx.integer(f't{s}', 0, 2)]
        if s == 0 and cx.boolean('warm'):
            ref.check_cart('warm', orb.cartesian)
        orb.type = SPELL[t][s % 2]
        lab += ', ' + t
        # the reference keeps the first description
        cx.check(f'{lab}: type', orb.type == t)
        want = ref.fork()
        want.set_type(t)
        if cx.boolean(f'read{s}'):
            want.check_kep(lab, orb.kepler)
        last = want
    ref.check_cart(lab, orb.cartesian)
    last.check_kep(lab, orb.kepler)
    # each of the anomalies as before
    for t in TYPES:
        got = getattr(orb, t + '_anomaly')
        for j, c in enumerate(ref.cols):
            w = ref.anom(c, t)
            if p.get('conic') == 'ell':
                ref.angle(f'{lab}: {t} anomaly {j}', got[j], w)
            else:
                cx.eq(f'{lab}: {t} anomaly {j}', got[j], w)
    if p.mode != 'manual':
        # and written elements are still understood in the new description
        v = [todeg(cx, ref, cx.angle(f'new_{j}', rng='pm', lo=-1, hi=1))
             for j in range(2)]
        orb.anom = cx.arr(v)
        for c, x in zip(last.cols, v):
            last.set_kep(c, {5: x})
        last.check_cart(lab + ' written', orb.cartesian)


# -------------------------------------------------------------- O09 propagation
def _prop(tier):
    out = []
    for mode in MODES:
        for conic in ('ell', 'hyp', 'par'):
            for t in TYPES:
                for deg in (True, False):
                    for init in ('kep', 'cart'):
                        if init == 'cart' and conic == 'par':
                            continue
                        if tier == 'quick' and deg != (t == 'mean') \
                                and mode != 'lazy':
                            continue
                        out.append(dict(mode=mode, conic=conic, type=t,
                                        deg=deg, init=init))
    return out


def motion(cx, ref, c, conic):
    unit = 180/cx.pi if ref.deg else 1.0
    a = c.kep[0]
    q = 2.0 if conic == 'par' else 1.0
    return unit*cx.sqrt(ref.mu(c)/(q*a*a*a))


def assume_conic(cx, ref, p):
    for c in ref.cols:
        if p.conic == 'ell':
            cx.assume(c.kep[1] < 1)
        elif p.conic == 'hyp':
            cx.assume(c.kep[1] > 1)
        cx.assume(c.kep[0] > 0)


def advance(cx, ref, p, dts):
    """The reference, advanced."""
    r = ref.fork()
    for c, dt in zip(r.cols, dts):
        M = r.anom(c, 'mean') + motion(cx, r, c, p.conic)*dt
        r.set_kep(c, {5: r.conv(M, c.kep[1], 'mean', r.type)}, exact=False)
    return r


def check_advanced(cx, p, tag, r, orb):
    r.check_cart(tag, orb.cartesian)
    kep = orb.kepler
    if p.conic == 'ell':
        r.check_kep(tag, kep)
    else:
        r.check_kep(tag, kep, range(5))
        for j, c in enumerate(r.cols):
            cx.eq(f'{tag}: anomaly {j}', kep[5, j], c.kep[5])
    cx.check(f'{tag}: type', orb.type == r.type)


@harness('O09', picks=_prop, env='uf', witnesses=2)
def propagation(cx):
    p = cx.p
    orb, ref = conic_setup(cx, 2, p)
    assume_conic(cx, ref, p)
    if cx.boolean('warm'):
        ref.check_cart('before', orb.cartesian)
    how = cx.integer('how', 0, 2)
    dt = cx.real('dt', fav=(0.3, 0.7))
    if how == 0:
        orb.propagate(dt)
        dts = [dt, dt]
    elif how == 1:
        dt2 = cx.real('dt2', fav=(-0.6, -0.2))
        dts = [dt, dt2]
        orb.propagate(cx.arr(dts))
    else:
        # in two steps
        dt2 = cx.real('dt2', fav=(-0.2, 0.5))
        orb.propagate(dt)
        orb.propagate(dt2)
        dts = [dt + dt2]*2
    r = advance(cx, ref, p, dts)
    check_advanced(cx, p, f'dt {how}', r, orb)
    got = orb.mean_anomaly
    for j, c in enumerate(ref.cols):
        M = ref.anom(c, 'mean') + motion(cx, ref, c, p.conic)*dts[j]
        if p.conic == 'ell':
            ref.angle(f'mean anomaly {j}', got[j], M)
        else:
            cx.eq(f'mean anomaly {j}', got[j], M)


@harness('O09', picks=lambda tier: [
    dict(mode=m, conic='ell', type=t, deg=d, init=i, back=b)
    for m in MODES for t in TYPES for d in (True, False)
    for i in ('kep', 'cart') for b in (1, -1)
    if tier != 'quick' or d == (t == 'eccentric')], env='uf', witnesses=1)
def full_turn(cx):
    """One period forth or back changes nothing."""
    p = cx.p
    orb, ref = conic_setup(cx, 2, p)
    assume_conic(cx, ref, p)
    orb.propagate(p.back*orb.period)
    if ref.mode == 'manual':
        ref.check_cart('turn', orb.cartesian)
    else:
        for j, c in enumerate(ref.cols):
            cx.eq(f'turn: cart {j}', orb.cartesian[:, j], cx.arr(c.cart))
    for c in ref.cols:
        c.exact = set()
    ref.check_kep('turn', orb.kepler)


# ------------------------------------------------------------------ O10 derived
GETTERS = ['periapsis', 'apoapsis', 'period', 'mean_motion', 'speed',
           'velocity', 'mean_longitude', 'equinoctial'] + [
               t + '_anomaly' for t in TYPES]


def _derived(tier):
    out = []
    for mode in MODES:
        for conic in ('ell', 'hyp', 'par'):
            for t in TYPES:
                for deg in (True, False):
                    for init in ('kep', 'cart'):
                        if conic == 'par' and init == 'cart':
                            continue
                        if tier == 'quick' and deg == (t == 'mean') \
                                and mode != 'lazy':
                            continue
                        for n in (1, 2):
                            if tier == 'quick' and n == 1 and t != 'mean':
                                continue
                            out.append(dict(mode=mode, conic=conic, type=t,
                                            deg=deg, init=init, n=n))
    return out


@harness('O10', picks=_derived, env='uf', witnesses=4)
def derived(cx):
    p = cx.p
    orb, ref = conic_setup(cx, p.n, p)
    assume_conic(cx, ref, p)
    nm = GETTERS[cx.integer('getter', 0, len(GETTERS) - 1)]
    if cx.boolean('rewritten'):
        O.set_element('vy' if p.init == 'kep' and p.conic == 'ell'
                      else 'a')(cx, orb, ref, '.1')
        assume_conic(cx, ref, p)
    if nm == 'speed':
        for c in ref.cols:
            nu = ref.anom(c, 'true')
            cx.assume(1 + c.kep[1]*cx.cos(cx.rad(nu) if ref.deg else nu) > 0)
    got = getattr(orb, nm)
    for j, c in enumerate(ref.cols):
        a, e = c.kep[0], c.kep[1]
        mu = ref.mu(c)
        lab = f'{nm} {j}'
        g = got if nm == 'equinoctial' else got[j]
        if nm == 'periapsis':
            cx.eq(lab, g, a if p.conic == 'par' else a*(1 - e)
                  if p.conic == 'ell' else a*(e - 1))
        elif nm == 'apoapsis':
            if p.conic == 'ell':
                cx.eq(lab, g, a*(1 + e))
            else:
                cx.check(lab, cx.isbad(g) and infinite(cx, g))
        elif nm == 'period':
            if p.conic == 'ell':
                cx.eq(lab, g, 2*cx.pi*cx.sqrt(a*a*a/mu))
        elif nm == 'mean_motion':
            cx.eq(lab, g, motion(cx, ref, c, p.conic))
        elif nm == 'velocity':
            v = c.cart[3:]
            cx.eq(lab, g, cx.sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]))
        elif nm == 'speed':
            nu = ref.anom(c, 'true')
            if ref.deg:
                nu = cx.rad(nu)
            q = 1 + e*cx.cos(nu)
            if p.conic == 'par':
                s2 = mu*q/a
            elif p.conic == 'ell':
                s2 = mu*(2*q/(a*(1 - e*e)) - 1/a)
            else:
                s2 = mu*(2*q/(a*(e*e - 1)) + 1/a)
            cx.eq(lab + ' squared', g*g, s2)
            cx.check(lab + ' positive', g >= 0)
        elif nm == 'mean_longitude':
            ref.angle(lab, g, ref.anom(c, 'mean') + c.kep[3] + c.kep[4])
        elif nm == 'equinoctial':
            k = c.kep[:5] + [ref.anom(c, 'mean')]
            w = ref.K.kep_to_equi(cx.arr(k), degrees=ref.deg)
            gj = g if p.n == 1 else g[:, j]
            cx.check(f'{nm} shape', g.shape == ((6,) if p.n == 1
                                                else (6, p.n)))
            cx.eq(lab, gj[:5], w[:5])
            ref.angle(lab + ' longitude', gj[5], w[5])
        else:
            w = ref.anom(c, nm[:-8])
            if p.conic == 'ell':
                ref.angle(lab, g, w)
            else:
                cx.eq(lab, g, w)
    # reading changed nothing
    ref.check_all(f'after {nm}', orb, 'kc')


def infinite(cx, g):
    import math
    if cx.symbolic:
        return 'inf' in str(g.bad)
    return math.isinf(g) and g > 0


SETS = ['period', 'mean_motion', 'velocity', 'equinoctial'] + [
    'anomaly ' + t for t in TYPES]


@harness('O10', picks=cfg(['direct', 'direct2', 'lazy', 'manual'],
                          types=TYPES, degs=(True, False), n=[1, 2], op=SETS),
         env='uf', witnesses=2)
def derived_set(cx):
    p = cx.p
    orb, ref = setup(cx, p.n, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    if p.op != 'velocity':
        O.closed(cx, ref)
    before = ref.fork()
    OPS[p.op](cx, orb, ref, '.1')
    # what was set is read back
    if p.op in ('period', 'mean_motion', 'velocity'):
        got = getattr(orb, p.op)
        tag = {'velocity': 'vel'}.get(p.op, p.op)
        fav = {'period': (4, 8), 'velocity': (0.7, 0.9),
               'mean_motion': (40, 90) if p.deg else (0.7, 1.4)}[p.op]
        for j in range(p.n):
            want = cx.in_sym[f'{tag}.1_{j}'] if cx.symbolic \
                else cx.used[f'{tag}.1_{j}']
            cx.eq(f'{p.op} read back {j}', got[j], want)
    elif p.op.startswith('anomaly'):
        t = p.op[8:]
        got = getattr(orb, t + '_anomaly')
        for j in range(p.n):
            want = cx.in_sym[f'{t}.1_{j}'] if cx.symbolic \
                else cx.used[f'{t}.1_{j}']
            ref.angle(f'{p.op} read back {j}', got[j],
                      todeg(cx, ref, want))
    # the rest stays
    kep = orb.kepler
    keep = dict(period=range(1, 6), mean_motion=range(1, 6),
                velocity=(), equinoctial=()).get(p.op, range(5))
    before.check_kep(f'{p.op}: others', kep, keep)
    if p.op == 'velocity':
        cart = orb.cartesian
        for j, c in enumerate(before.cols):
            cx.eq(f'position {j}', cart[:3, j], cx.arr(c.cart[:3]))
    ref.check_all(f'{p.op}', orb)


@harness('O10', picks=[
    dict(mode=m, conic=c, type=t, deg=d, init=i, n=n, op=op)
    for m in ('direct', 'lazy', 'manual') for c in ('hyp', 'par')
    for t, d in (('true', True), ('mean', False), ('eccentric', False))
    for i in ('kep', 'cart') for n in (1, 2)
    for op in ('period', 'mean_motion')
    if not (c == 'par' and i == 'cart')], env='uf', witnesses=2)
def open_motion(cx):
    """Period and mean motion of open orbits."""
    p = cx.p
    orb, ref = conic_setup(cx, p.n, p)
    assume_conic(cx, ref, p)
    vs = [cx.real(f'{p.op}_{j}', 0, fav=(0.7, 1.4)) for j in range(p.n)]
    setattr(orb, p.op, cx.arr(vs))
    before = ref.fork()
    for c, v in zip(ref.cols, vs):
        unit = 180/cx.pi if p.deg else 1.0
        q = 2.0 if p.conic == 'par' and p.op == 'mean_motion' else 1.0
        y = v/(2*cx.pi) if p.op == 'period' else unit/v
        ref.set_kep(c, {0: cx.cbrt(y*y*ref.mu(c)/q)}, exact=False)
    got = getattr(orb, p.op)
    for j in range(p.n):
        cx.eq(f'{p.op} read back {j}', got[j], vs[j])
    before.check_kep(f'{p.op}: others', orb.kepler, range(1, 6))
    ref.check_all(p.op, orb)


# ------------------------------------------------------------------- O11 masses
@harness('O11', picks=cfg(['direct', 'lazy', 'manual'], n=[2, 3],
                          how=['constructor', 'zero', 'attribute', 'whole',
                               'scalar', 'G', 'M0']),
         env='uf', witnesses=2)
def masses(cx):
    """Recalculation, explicit and for a selection, uses the current masses."""
    p = cx.p
    orb, ref = setup(cx, p.n, p.init, p.type, p.deg, p.mode,
                     mass='none' if p.how == 'zero' else 'sym')
    pend(cx, orb, ref)
    if p.mode == 'lazy':
        ref.check_all('before', orb)
    if p.how == 'attribute':
        v = cx.real('mnew', 0, fav=(0.4, 0.9))
        orb.m[1] = v
        ref.cols[1].m = v
    elif p.how == 'whole':
        vs = [cx.real(f'mnew{j}', 0, fav=(0.4, 0.9)) for j in range(p.n)]
        orb.m[:] = cx.arr(vs)
        for c, v in zip(ref.cols, vs):
            c.m = v
    elif p.how == 'scalar':
        v = cx.real('mnew', 0, fav=(0.4, 0.9))
        orb.m[:] = v
        for c in ref.cols:
            c.m = v
    elif p.how in ('G', 'M0'):
        v = cx.real('Gnew', 0, fav=(1.3, 1.8))
        setattr(orb, p.how, v)
        setattr(ref, p.how, v)
    kinds = ['all', 'int', 'list', 'mask', 'slice', 'array']
    kind = kinds[cx.integer('sel', 0, len(kinds) - 1)]
    sel, idx = selector(cx.np, kind, p.n)
    if cx.boolean('kepler'):
        orb.calculate_kepler(sel)
        for j in idx:
            ref.calc_kep(ref.cols[j])
    else:
        orb.calculate_cartesian(sel)
        for j in idx:
            ref.calc_cart(ref.cols[j])
    ref.check_all(f'{p.how} {kind}', orb)


@harness('O11', picks=cfg(['lazy', 'manual'], kind=KINDS), env='uf',
         witnesses=1)
def mass_updates(cx):
    """Masses updated along with elements."""
    p = cx.p
    orb, ref = setup(cx, 3, p.init, p.type, p.deg, p.mode)
    pend(cx, orb, ref)
    nm = ['x', 'vz', 'a', 'anom'][cx.integer('elem', 0, 3)]
    O.update_elems([nm], p.kind, True)(cx, orb, ref, '.1')
    ref.check_all(f'm {nm} {p.kind}', orb,
                  ['ck', 'kc'][cx.integer('order', 0, 1)])
    O.closed(cx, ref)
    n = orb.mean_motion
    for j, c in enumerate(ref.cols):
        cx.eq(f'mean motion {j}', n[j], motion(cx, ref, c, 'ell'))


# ----------------------------------------------------------- O12 solver options
CRUDE = dict(tol=1e-1, max_iter=1, degree=3)


@harness('O12', picks=cfg(['direct', 'lazy'], types=TYPES, inits=('kep',),
                          how=['plain', 'copy', 'item', 'slice', 'assigned'],
                          ), env='uf', witnesses=2)
def solver_options(cx):
    """Every solution of Kepler's equation is made with the options set."""
    p = cx.p
    opts = dict(CRUDE)
    orb, ref = setup(cx, 2, p.init, p.type, p.deg, p.mode,
                     opts=None if p.how == 'assigned' else opts)
    if p.how == 'assigned':
        orb.solver_options.update(opts)
        ref.opts = opts
        OPS['set kepler'](cx, orb, ref, '.0')
    elif p.how == 'copy':
        orb = orb.copy()
    elif p.how == 'item':
        orb, ref = orb[0], ref.pick([0])
    elif p.how == 'slice':
        orb, ref = orb[1:], ref.pick([1])
    cx.check('kept', all(orb.solver_options[k] == v for k, v in opts.items()))
    acts = ['set kepler', 'anomaly mean', 'propagate', 'read', 'type mean',
            'type true', 'update a,anom int', 'add kep']
    k = cx.integer('op', 0, len(acts) - 1)
    if acts[k] == 'read':
        if p.type == 'mean':
            for t in ('true', 'eccentric'):
                got = getattr(orb, t + '_anomaly')
                for j, c in enumerate(ref.cols):
                    cx.eq(f'{t} {j}', got[j], ref.anom(c, t))
    else:
        O.closed(cx, ref)
        # a crude solution is not the inverse of the mean anomaly
        if acts[k].startswith('type'):
            ref.check_cart('before', orb.cartesian)
        OPS[acts[k]](cx, orb, ref, '.1')
    ref.check_all(acts[k], orb)


@harness('O12', picks=dict(given=['none', 'tol', 'max_iter', 'degree']),
         env='uf', witnesses=0)
def default_options(cx):
    """Options not given keep their defaults."""
    p = cx.p
    v = cx.integer('v', 2, 6)
    kw = {} if p.given == 'none' else {'solver_options': {p.given: v}}
    orb = cx.pyorb.Orbit(cx.real('M0', 0), **kw)
    want = dict(tol=1e-12, max_iter=5000, degree=5)
    if p.given != 'none':
        want[p.given] = v
    cx.check('options', orb.solver_options == want)
    other = cx.pyorb.Orbit(cx.real('M1', 0))
    cx.check('others', other.solver_options == dict(
        tol=1e-12, max_iter=5000, degree=5))


@harness('O12', picks=dict(how=['copy', 'copy.copy', 'item', 'neg', 'slice',
                                'list', 'mask', 'iter', 'dictionary',
                                'another'],
                           own=[True, False], type=TYPES), env='uf',
         witnesses=1)
def separate_options(cx):
    """Changing the options of one object never affects another one."""
    p = cx.p
    given = dict(tol=1e-10, max_iter=777, degree=4) if p.own else None
    orb, ref = setup(cx, 3, 'kep', p.type, True, 'lazy', opts=given)
    start = dict(orb.solver_options)
    if p.how == 'dictionary':
        if not p.own:
            return cx.check('not applicable', True)
        other, oref, opts = None, None, given
    elif p.how == 'another':
        other, oref = setup(cx, 2, 'kep', p.type, True, 'lazy', opts=given)
        opts = other.solver_options
    else:
        other, idx = take(cx, orb, ref, p.how)
        oref = ref.pick(idx)
        opts = other.solver_options
    back = other is not None and cx.boolean('back')
    left, used = (other, oref) if back else (orb, ref)
    tgt = orb.solver_options if back else opts
    key = ['tol', 'max_iter', 'degree'][cx.integer('key', 0, 2)]
    tgt[key] = CRUDE[key]
    cx.check('options', dict(left.solver_options) == start)
    used.opts = start
    OPS['set kepler'](cx, left, used, '.1')
    used.check_all('left', left, 'ck')


# --------------------------------------------------------------- O14 printing
def shown(cx, text, label):
    m = re.search(r'(?<![A-Za-z])' + label + r'\s*:\s*(\S+)', text)
    return None if m is None else cx.printed(m.group(1))


@harness('O14', picks=lambda tier: [
    dict(mode=m, type=t, deg=d, init=i, op=o)
    for m in ('direct', 'lazy', 'manual') for t in TYPES
    for d in (True, False) for i in ('kep', 'cart', 'none')
    for o in ['nothing'] + sorted(OPS)
    if o != 'delete' and not o.startswith('add') and (
        tier != 'quick' or (d == (t == 'mean') and (
            m != 'direct' or i == 'kep')))], env='uf', witnesses=1)
def printing(cx):
    """The text of an orbit has its current elements and state."""
    p = cx.p
    orb, ref = setup(cx, 1, p.init, p.type, p.deg, p.mode)
    if p.init == 'none' and p.op in ('velocity', 'period', 'mean_motion',
                                     'propagate', 'equinoctial'):
        return cx.check('not applicable', True)
    if cx.boolean('before'):
        str(orb)
    if p.op != 'nothing':
        OPS[p.op](cx, orb, ref, '.1')
    text = str(orb) if cx.boolean('str') else f'{orb}'
    cx.coarse()
    got = [[shown(cx, text, n) for n in names] for names in (KEP, CART)]
    for names, vals in zip((KEP, CART), got):
        for n, v in zip(names, vals):
            cx.check(f'{n} shown', v is not None)
    if all(v is not None for vals in got for v in vals):
        ref.check_kep('printed', cx.arr([[v] for v in got[0]]))
        ref.check_cart('printed', cx.arr([[v] for v in got[1]]))
        # also small values are given to some digits
        for names, vals, now in ((KEP, got[0], orb.kepler),
                                 (CART, got[1], orb.cartesian)):
            for k, (n, v) in enumerate(zip(names, vals)):
                w = now[k, 0]
                if not cx.isbad(w) and not cx.isbad(v):
                    d = v - w
                    cx.check(f'{n} digits', 10000*d*d <= w*w)


@harness('O14', picks=cfg(['direct', 'lazy', 'manual']), env='uf',
         witnesses=1)
def printing_many(cx):
    """Several orbits are counted, items show their own values."""
    p = cx.p
    orb, ref = setup(cx, 2, p.init, p.type, p.deg, p.mode)
    ops = ['add kep', 'delete', 'set a', 'add cart', 'empty']
    op = ops[cx.integer('op', 0, len(ops) - 1)]
    if op == 'empty':
        orb.delete([0, 1])
        cx.check('none', re.findall(r'\d+', str(orb)) == ['0'])
        return
    OPS[op](cx, orb, ref, '.1')
    if ref.n > 1:
        cx.check('number shown', re.findall(r'\d+', str(orb)) == [str(ref.n)])
    j = cx.integer('item', 0, ref.n - 1)
    text = str(orb[j])
    cx.coarse()
    c = ref.pick([j])
    got = [[shown(cx, text, n) for n in names] for names in (KEP, CART)]
    c.check_kep('printed', cx.arr([[v] for v in got[0]]))
    c.check_cart('printed', cx.arr([[v] for v in got[1]]))
