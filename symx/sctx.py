"""Symbolic evaluation of a harness: obligations, path exploration, witnesses."""
import math
import re
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core as C
from . import poly as P
from . import shim as S
from . import fctx as F
from .core import Sym, SymBool, Cond, TRUE, FALSE, lift, c_not, c_and, c_or


class Obl:
    __slots__ = ('name', 'viol', 'D', 'a', 'b', 'scale', 'detail', 'margin')

    def __init__(self, name, viol, D=None, a=None, b=None, scale=None,
                 detail='', margin=None):
        self.name = name
        self.viol = viol          # Cond satisfied exactly by violations
        self.D = D
        self.a = a
        self.b = b
        self.scale = scale
        self.detail = detail
        self.margin = margin      # function m -> z3 constraint (stronger)


LAD0 = 10
_LADDER = [(s, k) for k in (1, 2, 3, 4, 5, 6, 7, 8) for s in 'lhu']


def ladder(q, lo, hi, att):
    """Pins of attempts >= 10: the generic value moved towards a bound."""
    if att < 20:
        return q
    side, k = _LADDER[(att - 20)//10]
    f = Fraction(1, 10**k)
    if side == 'l':
        b = Fraction(lo) if lo is not None else Fraction(0)
        return b + (q - b)*f
    if side == 'h':
        if hi is None:
            return -q*f
        return Fraction(hi) - (Fraction(hi) - q)*f
    if lo is not None and hi is not None:
        return q
    return q*10**k


def _tan_half_pin(base, den=24):
    t = Fraction(math.tan(base/2)).limit_denominator(den)
    d = 1 + t*t
    return (1 - t*t)/d, 2*t/d


class SymCtx:
    symbolic = True
    pi = math.pi

    def __init__(self, eng, pyorb, picks):
        self.eng = eng
        self.pyorb = pyorb
        self.kepler = pyorb.kepler
        self.np = S.shim
        self.p = F.Picks(picks)
        self.obls = []
        self.pins = {}            # name -> fn(attempt) -> [z3]
        self.in_sym = {}

    # ------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, closed=False, nom=None, fav=None):
        """fav: interval preferred for counterexamples (no restriction)."""
        e = self.eng
        x = e.real_input(name, lo, hi, not closed, not closed)
        v = e.vars[e.inputs[name][1]]

        def pin(att):
            q = Fraction(nom).limit_denominator(10**6) \
                if nom is not None and att in (0, LAD0) \
                else F.nominal_real(name, *(fav or (v.lo, v.hi)), att % 10)
            q = ladder(q, v.lo, v.hi, att)
            return [v.z == z3.Q(q.numerator, q.denominator)]
        self.pins[name] = pin
        self.in_sym[name] = x
        return x

    def angle(self, name, lo=None, hi=None, div=1, rng='full', nom=None):
        e = self.eng
        x = e.angle_input(name, lo, hi, div, rng)
        v = e.vars[e.inputs[name][1]]
        info = v.info
        cz = e.vars[next(iter(P.pvars(info.c.n)))]
        sz = e.vars[next(iter(P.pvars(info.s.n)))]

        def pin(att):
            if nom is not None and att == 0:
                val = float(nom)
            else:
                a, b = F.generic_bounds(rng, 1)
                if lo is not None:
                    a = max(a, float(lo) + 1e-3)
                if hi is not None:
                    b = min(b, float(hi) - 1e-3)
                val = float(a + (b - a)*float(F.unit_hash(name, att % 10)))
            fine = att >= 10
            if fine:
                val = float(ladder(Fraction(val), lo if lo is not None else (
                    None if rng == 'pm' else 0), hi, att))
            c, s = _tan_half_pin(val/div, 10**6 if fine else 24)
            al = math.atan2(s, c)
            if rng != 'pm' and al < 0:
                al += 2*math.pi
            al = Fraction(al)
            return [cz.z == z3.Q(c.numerator, c.denominator),
                    sz.z == z3.Q(s.numerator, s.denominator),
                    v.z == z3.Q(al.numerator, al.denominator)]
        self.pins[name] = pin
        self.in_sym[name] = x
        return x

    def hyp(self, name, lo=None, hi=None, div=1, nom=None):
        e = self.eng
        x = e.hyp_input(name, lo, hi, div)
        v = e.vars[e.inputs[name][1]]
        shv = e.vars[next(iter(P.pvars(v.info.sh.n)))]
        chv = e.vars[next(iter(P.pvars(v.info.ch.n)))]

        def pin(att):
            q = Fraction(nom).limit_denominator(1000) \
                if nom is not None and att == 0 else F.nominal_real(
                    name, lo if lo is not None else -2,
                    hi if hi is not None else 2, att % 10)
            q = ladder(q, lo, hi, att)
            t = Fraction(math.tanh(float(q)/div/2)).limit_denominator(
                10**6 if att >= 10 else 24)
            sh, ch = 2*t/(1 - t*t), (1 + t*t)/(1 - t*t)
            al = Fraction(math.asinh(sh))
            return [shv.z == z3.Q(sh.numerator, sh.denominator),
                    chv.z == z3.Q(ch.numerator, ch.denominator),
                    v.z == z3.Q(al.numerator, al.denominator)]
        self.pins[name] = pin
        self.in_sym[name] = x
        return x

    # integers stored in integer arrays: the solver may pick any real number,
    # replays round it
    def _mark(self, x):
        e = self.eng
        if not hasattr(e, 'intvars'):
            e.intvars = set()
        e.intvars |= set(P.pvars(x.n))
        return x

    def int_real(self, name, lo=None, hi=None):
        return self._mark(self.real(name, lo, hi))

    def int_angle(self, name, lo=None, hi=None, div=1):
        return self._mark(self.angle(name, lo=lo, hi=hi, div=div))

    def int_hyp(self, name, lo=None, hi=None, div=1):
        return self._mark(self.hyp(name, lo, hi, div))

    def iarr(self, x):
        return S.int_array(np.array(x, dtype=object))

    def integer(self, name, lo, hi):
        """A concrete integer in [lo, hi], chosen by forking."""
        return self.eng_choice(name, list(range(lo, hi + 1)))

    def eng_choice(self, name, options):
        v = self.eng.choose(name, options)
        self.eng.chosen = getattr(self.eng, 'chosen', {})
        self.eng.chosen[name] = v
        return v

    def boolean(self, name):
        return self.eng_choice(name, [False, True])

    def arr(self, x):
        return S.sarr(np.array(x, dtype=object))

    def scalar(self, x):
        return lift(x)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = bool(c.all())
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise C.PathAbort('assume')
            return
        self.eng.assume(c)

    # ------------------------------------------------------------ helpers
    cos = staticmethod(lambda x: S.shim.cos(x))
    sin = staticmethod(lambda x: S.shim.sin(x))
    tan = staticmethod(lambda x: S.shim.tan(x))
    sqrt = staticmethod(lambda x: S.shim.sqrt(x))
    cosh = staticmethod(lambda x: S.shim.cosh(x))
    sinh = staticmethod(lambda x: S.shim.sinh(x))
    tanh = staticmethod(lambda x: S.shim.tanh(x))
    cbrt = staticmethod(lambda x: S.shim.cbrt(x))

    @staticmethod
    def rad(x):
        return S.shim.radians(x)

    def isbad(self, x):
        if isinstance(x, np.ndarray):
            return any(isinstance(v, Sym) and bool(v.bad)
                       for v in x.reshape(-1))
        return isinstance(x, Sym) and bool(x.bad)

    @property
    def nan(self):
        return C.bad()

    # -------------------------------------------------------- obligations
    concrete = False

    def known(self, name, x):
        xx = S._obj0(x)
        for k, v in enumerate(xx.reshape(-1)):
            self.obls.append(Obl(name, TRUE if lift(v).bad else FALSE,
                                 detail='NaN'))

    def unknown(self, name, x):
        xx = S._obj0(x)
        for k, v in enumerate(xx.reshape(-1)):
            v = lift(v)
            nm = name if xx.ndim == 0 else f'{name}[{k}]'
            self.obls.append(Obl(nm, FALSE if v.bad else TRUE,
                                 detail='not NaN'))

    def eq(self, name, a, b, scale=None, tol=None):
        aa, bb = S._obj0(a), S._obj0(b)
        if aa.shape != bb.shape:
            try:
                aa, bb = np.broadcast_arrays(aa, bb)
            except ValueError:
                self.obls.append(Obl(name, TRUE, detail='shapes'))
                return
        sc = None
        if scale is not None:
            sc = np.broadcast_to(S._obj0(scale), aa.shape).reshape(-1)
        for k, (x, y) in enumerate(zip(aa.reshape(-1), bb.reshape(-1))):
            nm = name if aa.ndim == 0 else f'{name}[{k}]'
            self._eq1(nm, lift(x), lift(y), None if sc is None
                      else lift(sc[k]), tol)

    def _eq1(self, name, x, y, scale, tol):
        if x.bad and y.bad:
            self.obls.append(Obl(name, FALSE, a=x, b=y, detail='both nan'))
            return
        if x.bad or y.bad:
            self.obls.append(Obl(name, TRUE, a=x, b=y, detail='nan'))
            return
        R = self.eng.ring
        x = Sym(R.reduce(x.n), R.reduce(x.d))
        y = Sym(R.reduce(y.n), R.reduce(y.d))
        try:
            d = x - y
            c = C.cmp0(d, 'eq')
        except P.TooBig:
            self.obls.append(Obl(name, None, a=x, b=y, detail='too big'))
            return
        self.obls.append(Obl(name, c_not(c), D=d, a=x, b=y, scale=scale))

    def angle_eq(self, name, a, b):
        a, b = S._obj0(a), S._obj0(b)
        ca, sa = S.shim.cos(a), S.shim.sin(a)
        cb, sb = S.shim.cos(b), S.shim.sin(b)
        self.eq(name + '.cos', ca, cb)
        self.eq(name + '.sin', sa, sb)

    def in_range(self, name, x, lo=None, hi=None, lo_open=False, hi_open=False):
        xx = S._obj0(x)
        for k, v in enumerate(xx.reshape(-1)):
            v = lift(v)
            nm = name if xx.ndim == 0 else f'{name}[{k}]'
            if v.bad:
                self.obls.append(Obl(nm, TRUE, a=v, detail='nan'))
                continue
            for b, sgn in ((lo, 1), (hi, -1)):
                if b is None:
                    continue
                d = (v - lift(b))*sgn          # must be >= 0
                self.obls.append(Obl(
                    nm, C.cmp0(d, 'lt'), D=None, a=v,
                    margin=(lambda d: lambda m: _zc(
                        self.eng, C.cmp0(d + lift(m), 'lt')))(d)))

    def check(self, name, cond, detail=''):
        if isinstance(cond, np.ndarray):
            cs = [C._cond(v) for v in cond.reshape(-1)]
            c = c_and(*cs)
        else:
            c = C._cond(cond)
        self.obls.append(Obl(name, c_not(c), detail=detail))

    def finite(self, name, x):
        xx = S._obj0(x)
        for k, v in enumerate(xx.reshape(-1)):
            v = lift(v)
            nm = name if xx.ndim == 0 else f'{name}[{k}]'
            self.obls.append(Obl(nm, TRUE if v.bad else FALSE, a=v))

    def printed(self, text):
        """The value of a printed number."""
        if text.startswith('<sym:'):
            v, spec = self.eng.cache['prints'][int(text[5:-1])]
            if spec[-1:] in ('f', 'F'):
                # fixed digits: small values are printed as zero
                m = re.search(r'\.(\d+)', spec)
                tiny = Fraction(1, 2*10**int(m.group(1) if m else 6))
                if bool(abs(v) < tiny):
                    return lift(0.0)
            return v
        return lift(float(text))

    def coarse(self):
        pass

    def raises(self, exc, f):
        try:
            f()
        except exc as e:
            return e
        return None

    def root(self, E, e, M):
        """Registers E as the root of Kepler's equation for (M, e)."""
        R = self.eng.ring
        E, e, M = lift(E), lift(e), lift(M)
        if not hasattr(self.eng, 'roots'):
            self.eng.roots = []
        self.eng.roots.append((E, e, Sym(R.reduce(M.n), R.reduce(M.d))))

    arctan = staticmethod(lambda x: S.shim.arctan(x))
    arctanh = staticmethod(lambda x: S.shim.arctanh(x))
    log = staticmethod(lambda x: S.shim.log(x))

    def snapshot(self, a):
        return np.array(a, dtype=object, copy=True)


def _zc(eng, c):
    return c.z(eng)


# --------------------------------------------------------------------- models
def pinned_model(cx, zs, attempts=(0,), ms=1500, skip_all=False, lad=False):
    """Models of zs with as many inputs as possible at generic rationals.

    The value of an angle and its sine and cosine are separate variables:
    where possible all three are pinned, else the latter two."""
    for att in attempts:
        pins = {n: p(att) for n, p in cx.pins.items()}
        allp = [z for p in pins.values() for z in p]
        r, m = C.solve(zs + allp, ms, True)
        if r == 'sat' and m is not None:
            yield att, m
            continue
        allp = [z for p in pins.values() for z in p[:2]]
        r, m = C.solve(zs + allp, ms, True)
        if r == 'sat' and m is not None:
            yield att, m
            continue
        cur = list(zs)
        last = None
        left = []
        for n, p in pins.items():
            for q in ((p, p[:2]) if len(p) > 2 else (p,)):
                r, m = C.solve(cur + q, ms, True)
                if r == 'sat' and m is not None:
                    cur = cur + q
                    last = m
                    break
            else:
                left.append(n)
        if last is not None:
            yield att, last
        if lad and len(left) <= 3:
            yield from _ladders(cx, cur, left, att, ms)


def _ladders(cx, cur, left, att, ms):
    """Inputs that cannot be generic: moved towards their bounds."""
    out = 0
    for k in range(len(_LADDER)):
        c2 = list(cur)
        m2 = None
        for n in left:
            try:
                p = cx.pins[n](20 + 10*k + att % 10)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            r, m = C.solve(c2 + p, ms, True)
            if r == 'sat' and m is not None:
                c2 = c2 + p
                m2 = m
        if m2 is not None:
            yield att, m2
            out += 1
            if out >= 6:
                return


def concrete_inputs(cx, model, by_value=False):
    out = cx.eng.inputs_from_model(model, by_value)
    out.update(getattr(cx.eng, 'chosen', {}))
    return {k: v for k, v in out.items() if v is not None}


class JobResult(dict):
    pass


_trace_files = '/pyorb/'


class _Tracer:
    def __init__(self):
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            f = frame.f_code
            if '/pyorb/' in f.co_filename:
                self.seen.add(f.co_filename.split('/pyorb/')[-1][:-3] + '.'
                              + f.co_qualname)


def relevant(eng, conds, extra_vars=()):
    vs = set(extra_vars)
    for c in conds:
        vs |= c.vars()
    zs, seen = eng.closure(vs, eng.path)
    return zs


def all_path(eng, used=()):
    """All constraints of the path (every variable mentioned on it)."""
    vs = set(used)
    for c in eng.path:
        vs |= c.vars()
    for d in eng.inputs.values():
        vs.add(d[1])
        i = eng.vars[d[1]].info
        if isinstance(i, C.Angle) or isinstance(i, C.Hyp):
            for s in ((i.c, i.s) if isinstance(i, C.Angle) else (i.ch, i.sh)):
                vs |= P.pvars(s.n)
    zs, seen = eng.closure(vs, eng.path)
    return zs


def margin_z(cx, ob, m):
    """Strengthened violation: |a-b| > m*(|a|+|b|+scale)."""
    if ob.margin is not None:
        return [ob.margin(m)]
    if ob.D is None:
        return []
    eng = cx.eng
    one = Sym(C.ONE)
    s2 = ob.a*ob.a + ob.b*ob.b + (one if ob.scale is None
                                  else ob.scale*ob.scale)
    t = ob.D*ob.D - lift(Fraction(m))*lift(Fraction(m))*s2
    if t.is_const():
        return [z3.BoolVal(t.const() > 0)]
    # D*D and s2 share denominators that are squares: positive
    p = t.n if _posden(eng, t) else eng.ring.mul(t.n, t.d)
    return [eng.zpoly(p) > 0] + [z for v in P.pvars(p)
                                 for z in eng.vars[v].cons]


def _posden(eng, t):
    return eng.known_sign(t.d) in ('>', '>=')


def run_job(hname, fn, pyorb, picks, opts, replay):
    """Explores all paths of one harness instance.

    replay(inputs_list) -> list of dict(ok, failed=[...], error) from the real
    code.
    """
    res = JobResult(harness=hname, picks=dict(picks), paths=0, dead=0,
                    obligations=0, discharged=0, trivial=0, tolerance=0,
                    partial=0, inconclusive=[], violations=[], witnesses=0,
                    witness_bad=0, assumed={}, functions=[], samples=[],
                    unexplored=0, spurious=0, decisions=0)
    t0 = time.time()
    limit = opts.get('job_s', 120)
    C._DEADLINE[0] = t0 + limit
    C.Engine.OBL_MS = opts.get('obl_ms', 15000)
    C.Engine.ABBREV = opts.get('abbrev')
    C.Engine.LAZY_ABS = opts.get('lazy_abs', False)
    C.Engine.FEAS_MS = opts.get('feas_ms', 2500)
    stack = [[]]
    tracer = _Tracer()
    wtries = 0
    while stack:
        if res['paths'] >= opts.get('max_paths', 4000) or \
                time.time() > t0 + limit:
            res['unexplored'] += len(stack)
            res['inconclusive'].append(
                f'{len(stack)} unexplored branches (limit)')
            break
        prefix = stack.pop()
        eng = C.Engine(prefix)
        C._Cur.eng = eng
        cx = SymCtx(eng, pyorb, picks)
        err = None
        if res['paths'] == 0:
            sys.setprofile(tracer)
        try:
            fn(cx)
        except C.PathAbort:
            res['dead'] += 1
            stack.extend(eng.alts)
            sys.setprofile(None)
            continue
        except (C.Unsupported, C.Inconclusive, P.TooBig) as ex:
            sys.setprofile(None)
            tb = traceback.extract_tb(ex.__traceback__)
            where = next((f'{f.name}:{f.lineno}' for f in reversed(tb)
                          if '/pyorb/' in f.filename), '')
            err = ('engine', f'{type(ex).__name__}: {ex} at {where}')
        except C.Deadline:
            sys.setprofile(None)
            res['unexplored'] += 1 + len(stack) + len(eng.alts)
            # models of the path as far as it went
            C._DEADLINE[0] = time.time() + 20
            try:
                _handle_error(cx, ('engine', 'time limit on a path'), res,
                              replay, opts)
            except C.Deadline:
                res['inconclusive'].append('time limit on a path')
            break
        except Exception as ex:
            sys.setprofile(None)
            tb = traceback.extract_tb(ex.__traceback__)
            where = next((f'{f.name}:{f.lineno}' for f in reversed(tb)
                          if '/pyorb/' in f.filename), str(tb[-1]))
            err = ('exception', f'{type(ex).__name__}: {ex} at {where}')
        finally:
            sys.setprofile(None)
        stack.extend(eng.alts)
        res['paths'] += 1
        res['decisions'] += len(eng.taken)
        for t in eng.assumed:
            res['assumed'][t] = res['assumed'].get(t, 0) + 1
        try:
            if err is not None:
                _handle_error(cx, err, res, replay, opts)
                if err[0] == 'exception':
                    continue
            for ob in cx.obls:
                res['obligations'] += 1
                _discharge(cx, ob, res, replay, opts)
                if len(res['violations']) >= opts.get('max_viol', 1):
                    break
            if err is None and (res['witnesses'] + res['witness_bad']
                                < opts.get('witnesses', 3)) \
                    and wtries < opts.get('witness_tries', 6):
                wtries += 1
                _witness(cx, res, fn, opts, replay)
        except C.Deadline:
            res['inconclusive'].append('time limit on obligations')
            res['unexplored'] += len(stack)
            break
        if len(res['violations']) >= opts.get('max_viol', 1):
            break
    res['functions'] = sorted(tracer.seen)
    res['wall_s'] = time.time() - t0
    res['stats'] = dict(C.STATS)
    C._DEADLINE[0] = None
    return res


def _handle_error(cx, err, res, replay, opts):
    """The path ended in an exception: is it one of the real code?"""
    zs = all_path(cx.eng)
    cands = []
    if err[0] == 'engine':
        # generic inputs, whatever branch they take
        pins = [z for p in cx.pins.values() for z in p(0)]
        r, m = C.solve(pins, 2000, True)
        if r == 'sat' and m is not None:
            c = concrete_inputs(cx, m)
            for rp in replay([c]):
                if rp.get('valid') and rp.get('failed'):
                    res['violations'].append(dict(
                        obligation=rp['failed'][0][0], inputs=c,
                        detail=str(rp['failed'][0][1]), origin=err[1]))
                    return
    try:
        for att, m in pinned_model(cx, zs, (0, 1)):
            cands.append(concrete_inputs(cx, m))
    except P.TooBig:
        pass
    if not cands:
        r, m = C.solve(zs, 3000, True)
        if r == 'unsat':
            res['dead'] += 1
            res['paths'] -= 1
            return
        if m is not None:
            cands.append(concrete_inputs(cx, m))
    if cands:
        for c, r in zip(cands, replay(cands)):
            if r.get('valid') and r.get('failed'):
                res['violations'].append(dict(
                    obligation=r['failed'][0][0], inputs=c,
                    detail=str(r['failed'][0][1]), origin=err[1]))
                return
    res['inconclusive'].append(err[1])


def _discharge(cx, ob, res, replay, opts):
    eng = cx.eng
    nm = ob.name
    if ob.viol is None:
        res['inconclusive'].append(f'{nm}: {ob.detail}')
        return
    if ob.viol is FALSE:
        # both sides have the same normal form: the solver confirms a == b
        if ob.a is not None and ob.b is not None and not ob.a.bad \
                and not ob.b.bad:
            z = eng.zpoly(ob.a.n)*eng.zpoly(ob.b.d) != \
                eng.zpoly(ob.b.n)*eng.zpoly(ob.a.d)
            r, _ = C.solve([z], 2000)
            if r != 'unsat':
                # needs the ring relations
                zs, _s = eng.closure(P.pvars(ob.a.n) | P.pvars(ob.b.n)
                                     | P.pvars(ob.a.d) | P.pvars(ob.b.d), [])
                C.solve([z] + zs, 2000)
        res['discharged'] += 1
        res['trivial'] += 1
        return
    st = eng.static(ob.viol)
    if st is False:
        res['discharged'] += 1
        res['trivial'] += 1
        return
    if ob.viol is TRUE:
        zs = all_path(eng)
    else:
        zs = [ob.viol.z(eng)] + relevant(eng, [ob.viol])
    r, _ = C.solve(zs, eng.OBL_MS)
    if len(res['samples']) < 6:
        res['samples'].append(f'{nm}: {r}')
    if r == 'unsat':
        res['discharged'] += 1
        return
    # candidate violation, or unknown: look for a clear one
    full = [ob.viol.z(eng)] + all_path(eng, ob.viol.vars())
    cands = []
    searched = False
    for m in (1e-2, 1e-4):
        try:
            mz = margin_z(cx, ob, m)
        except P.TooBig:
            mz = []
        if not searched:
            searched = True
            if next(pinned_model(cx, full + mz, (0,), 1000), None) is None \
                    and _search(cx, ob, res, replay):
                return
        for att, mod in pinned_model(cx, full + mz, (0, 1, 2), 2000,
                                     lad=not cands):
            cands.append(concrete_inputs(cx, mod))
            v = concrete_inputs(cx, mod, True)
            if v != cands[-1]:
                cands.append(v)
        if cands or not mz:
            break
    if not cands:
        # no generic model: any model with a margin, then any model at all
        for m in (1e-3, 2e-6):
            try:
                mz = margin_z(cx, ob, m)
            except P.TooBig:
                mz = []
            rr, mod = C.solve(full + mz, 5000, True)
            if rr == 'unsat' and m < 1e-5 and mz:
                res['discharged'] += 1
                res['tolerance'] += 1
                return
            if rr == 'sat' and mod is not None:
                cands.append(concrete_inputs(cx, mod))
                break
    if cands:
        for c, rp in zip(cands, replay(cands)):
            if rp.get('valid') and rp.get('failed'):
                pick = [f for f in rp['failed'] if f[0] == nm] or rp['failed']
                res['violations'].append(dict(
                    obligation=pick[0][0], inputs=c, detail=str(pick[0][1]),
                    origin=f'solver: {nm} {r}'))
                return
        res['spurious'] += 1
    if r == 'unknown' and not cands:
        # partial: decide on slices with the inputs pinned
        ok = True
        done = 0
        for att in (3, 4, 5):
            pins = [z for p in cx.pins.values() for z in p(att)]
            rr, _ = C.solve(zs + pins, 3000)
            if rr == 'unsat':
                done += 1
            else:
                ok = False
        if done and ok:
            res['partial'] += 1
            return
    res['inconclusive'].append(f'{nm}: {r}, {len(cands)} model(s) not '
                               f'reproduced {ob.detail}')


def _search(cx, ob, res, replay, limit=12):
    """Undecided: models of the path alone (generic and towards the ends of
    the domain), tried on the real code."""
    zs = all_path(cx.eng)
    t0 = time.time()
    cands = []

    def keep(m):
        c = concrete_inputs(cx, m)
        if c not in cands:
            cands.append(c)
    try:
        for att, m in pinned_model(cx, zs, (0, 1), 300):
            keep(m)
        for n in cx.pins:
            cur = list(zs)
            for k in cx.pins:
                # one input to be moved, the others generic where possible
                if k == n or time.time() > t0 + limit/2:
                    continue
                r, m = C.solve(cur + cx.pins[k](0), 200, True)
                if r == 'sat':
                    cur = cur + cx.pins[k](0)
            for k in range(len(_LADDER)):
                if time.time() > t0 + limit:
                    break
                try:
                    q = cx.pins[n](20 + 10*k)
                except (ZeroDivisionError, OverflowError, ValueError):
                    continue
                r, m = C.solve(cur + q, 300, True)
                if r == 'sat' and m is not None:
                    keep(m)
    except P.TooBig:
        pass
    if not cands:
        return False
    for c, rp in zip(cands, replay(cands)):
        if rp.get('valid') and rp.get('failed'):
            pick = [f for f in rp['failed'] if f[0] == ob.name] \
                or rp['failed']
            res['violations'].append(dict(
                obligation=pick[0][0], inputs=c, detail=str(pick[0][1]),
                origin='solver: model of a path'))
            return True
    return False


def _witness(cx, res, fn, opts, replay):
    """Runs the real code on a model of the path; compares all observed values."""
    real = opts.get('real_pyorb')
    if real is None:
        return
    zs = all_path(cx.eng)
    got = None
    for att, m in pinned_model(cx, zs, (0,), 600):
        got = concrete_inputs(cx, m)
    if got is None:
        r, m = C.solve(zs, 1500, True)
        if r == 'unsat':
            res['dead'] += 1
            return
        if m is None:
            return
        got = concrete_inputs(cx, m)
    C._Cur.eng = None
    try:
        fcx, ex = F.run_float(fn, real, cx.p, got)
    finally:
        C._Cur.eng = cx.eng
    if isinstance(ex, F.AssumeFailed):
        return
    if ex is not None or (opts.get('env') == 'uf' and not all(
            ok for _, ok, _ in fcx.results)):
        # the encoding misses something that this model of the path shows
        # (numeric harnesses: only exceptions count, because rounding can
        # leave an exact case such as a parabola)
        for rp in replay([got]):
            bad = [x for x in rp.get('failed') or []
                   if opts.get('env') == 'uf' or x[0] == 'exception']
            if rp.get('valid') and bad:
                res['violations'].append(dict(
                    obligation=bad[0][0], inputs=got,
                    detail=str(bad[0][1]),
                    origin='solver: model of a path'))
                return
    if ex is not None:
        return
    env = {}
    for n, d in cx.eng.inputs.items():
        if n in fcx.used:
            env[d[1]] = fcx.used[n]/(d[2] if len(d) > 2 else 1)
    ev = C.Evalf(cx.eng, env)
    byname = {}
    for n, a, b in fcx.values:
        byname.setdefault(n, []).append((a, b))
    # rounding the model (values and their sines are independent variables
    # of the encoding) may have left the path: then it is no witness of it
    for c in cx.eng.path:
        try:
            if not c.evalf(ev, 1e-7):
                return
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            pass
    ok = bad = 0
    for ob in cx.obls:
        if ob.a is None or ob.b is None:
            continue
        q = byname.get(ob.name)
        if not q:
            continue
        fa, fb = q.pop(0)
        if ob.a.bad or ob.b.bad:
            continue
        try:
            sa, sb = ev.rat(ob.a), ev.rat(ob.b)
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            continue
        good = all(abs(x - y) <= 1e-5*max(1.0, abs(x), abs(y))
                   for x, y in ((fa, sa), (fb, sb)))
        if good:
            ok += 1
        else:
            bad += 1
            diff = (ob.name, fa, sa, fb, sb)
    if ok and not bad:
        res['witnesses'] += 1
    elif bad:
        res['witness_bad'] += 1
        if len(res['samples']) < 12:
            res['samples'].append(f'witness differs: {diff} {got}')
