"""Symbolic scalars and path exploration.

Every number the code under test computes is a `Sym`: a fraction of polynomials
over named real variables (inputs, sines/cosines of angles, square roots, ...),
kept in normal form by poly.Ring.  A comparison of Syms forks the execution when
the solver (z3) finds both outcomes possible.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

from . import poly as P
from .poly import Ring, TooBig, freeze

PI_F = math.pi
PI = Fraction(math.pi)          # the double pi, read as *the* half period
HALF = PI/2

RND = None           # symx.rnd: arithmetic with rounding errors

_snap_cache = {}
_DENS = (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 18, 20, 24, 30, 36, 180, 360)


def snap(x):
    """The exact number a float constant of the program stands for."""
    x = float(x)
    r = _snap_cache.get(x)
    if r is not None:
        return r
    if x == int(x) and abs(x) < 1e15:
        r = Fraction(int(x))
    else:
        r = None
        t = x/PI_F
        for q in _DENS:
            k = round(t*q)
            if k != 0 and abs(k) < 4000 and abs(t*q - k) <= 4e-15*abs(k):
                r = PI*k/q
                break
        if r is None:
            t = 1.0/(x/180.0*PI_F) if False else x*PI_F/180.0
            if abs(t - round(t)) < 1e-14 and 0 < abs(round(t)) < 10:
                r = Fraction(round(t)*180)/PI        # 57.29577951308232
        if r is None:
            rep = repr(x)
            if len(rep.replace('-', '').replace('.', '').lstrip('0')
                   .split('e')[0]) <= 13:
                r = Fraction(rep)
            else:
                f = Fraction(x).limit_denominator(5000)
                r = f if float(f) == x else Fraction(x)
    _snap_cache[x] = r
    return r


class PathAbort(BaseException):
    pass


class Inconclusive(BaseException):
    pass


class Unsupported(BaseException):
    """The code used an operation the symbolic numpy does not model."""


# --------------------------------------------------------------------- conds
class Cond:
    __slots__ = ('op', 'args', '_z', '_vars', '_key')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._z = None
        self._vars = None
        self._key = None

    @property
    def key(self):
        if self._key is None:
            if self.op in ('gt', 'ge', 'eq'):
                self._key = (self.op, freeze(self.args[0]))
            else:
                self._key = (self.op,) + tuple(
                    a.key if isinstance(a, Cond) else a for a in self.args)
        return self._key

    def vars(self):
        if self._vars is None:
            if self.op in ('gt', 'ge', 'eq'):
                self._vars = P.pvars(self.args[0])
            else:
                s = set()
                for a in self.args:
                    if isinstance(a, Cond):
                        s |= a.vars()
                self._vars = s
        return self._vars

    def z(self, eng):
        if self._z is None:
            op = self.op
            if op == 'true':
                z = z3.BoolVal(True)
            elif op == 'false':
                z = z3.BoolVal(False)
            elif op == 'gt':
                z = eng.zpoly(self.args[0]) > 0
            elif op == 'ge':
                z = eng.zpoly(self.args[0]) >= 0
            elif op == 'eq':
                z = eng.zpoly(self.args[0]) == 0
            elif op == 'not':
                z = z3.Not(self.args[0].z(eng))
            elif op == 'and':
                z = z3.And(*[a.z(eng) for a in self.args])
            elif op == 'or':
                z = z3.Or(*[a.z(eng) for a in self.args])
            elif op == 'bool':
                z = eng.zbool(self.args[0])
            else:
                raise ValueError(op)
            self._z = z
        return self._z

    def evalf(self, ev, tol=0.0):
        op = self.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        # with tol > 0: could the condition hold but for rounding?
        if op == 'gt':
            return ev.poly(self.args[0]) > -tol
        if op == 'ge':
            return ev.poly(self.args[0]) >= -tol
        if op == 'eq':
            return abs(ev.poly(self.args[0])) <= tol
        if op == 'not':
            return not self.args[0].evalf(ev, -tol)
        if op == 'and':
            return all(a.evalf(ev, tol) for a in self.args)
        if op == 'or':
            return any(a.evalf(ev, tol) for a in self.args)
        if op == 'bool':
            return ev.boolean(self.args[0])
        raise ValueError(op)


TRUE = Cond('true')
FALSE = Cond('false')


def c_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return Cond('not', a)


def c_and(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is not TRUE:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Cond('and', *out)


def c_or(*xs):
    return c_not(c_and(*[c_not(x) for x in xs]))


def _csize(c):
    if c.op in ('gt', 'ge', 'eq'):
        return len(c.args[0])
    return sum(_csize(a) if isinstance(a, Cond) else 1 for a in c.args)


class Var:
    __slots__ = ('id', 'name', 'kind', 'z', 'cons', 'deps', 'fn', 'lo', 'hi',
                 'lo_open', 'hi_open', 'info', 'isint')

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.kind = kind
        self.z = z3.Int(name) if kind == 'int' else z3.Real(name)
        self.cons = []
        self.deps = set()
        self.fn = None
        self.lo = self.hi = None
        self.lo_open = self.hi_open = False
        self.info = None

    def sign(self):
        if self.lo is not None:
            if self.lo > 0 or (self.lo == 0 and self.lo_open):
                return '>'
            if self.lo == 0:
                return '>='
        if self.hi is not None:
            if self.hi < 0 or (self.hi == 0 and self.hi_open):
                return '<'
            if self.hi == 0:
                return '<='
        return None


class Angle:
    """What is known about an angle-valued variable."""
    __slots__ = ('c', 's', 'kind', 'links')

    def __init__(self, c, s, kind):
        self.c = c
        self.s = s
        self.kind = kind      # 'acos' [0,pi], 'atan' [-pi/2,pi/2], 'full'
        #                       [0,2pi), 'pm' [-pi,pi], 'free', 'half' [0,pi)
        self.links = set()


class Hyp:
    __slots__ = ('ch', 'sh')

    def __init__(self, ch, sh):
        self.ch = ch
        self.sh = sh


class Evalf:
    def __init__(self, eng, env):
        self.eng = eng
        self.env = env            # var id -> float for inputs
        self.memo = dict(env)

    def var(self, v):
        if v in self.memo:
            return self.memo[v]
        var = self.eng.vars[v]
        if var.fn is None:
            raise KeyError(var.name)
        r = var.fn(self)
        self.memo[v] = r
        return r

    def poly(self, p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for v, e in m:
                x *= self.var(v)**e
            t += x
        return t

    def rat(self, s):
        if s.bad:
            return float('nan')
        return self.poly(s.n)/self.poly(s.d)

    def boolean(self, name):
        return self.eng.bool_env[name]


STATS = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, decisions=0,
             nf=0)


class Engine:
    """State of one execution path."""

    FEAS_MS = 2500
    OBL_MS = 15000
    ABBREV = None
    LAZY_ABS = False

    def __init__(self, prefix=()):
        self.ring = Ring()
        self.vars = []
        self.prefix = list(prefix)
        self.taken = []           # decisions: (bool)
        self.alts = []            # prefixes still to explore
        self.path = []            # Conds assumed on this path
        self.known = {}
        self.consts = set()
        self.cache = {}
        self.assumed = []         # recorded exclusions (text)
        self.inputs = {}          # name -> (kind, var id)
        self.picks = {}
        self.bools = {}
        self.bool_env = {}
        self.uf = {}
        self.uf_axioms = []
        self.extra = []           # global z3 constraints: (vars, z3)
        self.unknown_feas = 0
        self.abbrev = self.ABBREV
        self.lazy_abs = self.LAZY_ABS
        self.max_taken = 400

    # ---------------------------------------------------------- variables
    def new(self, name, kind):
        v = Var(len(self.vars), f'{name}!{len(self.vars)}', kind)
        self.vars.append(v)
        return v

    def con(self, v, z, deps=()):
        v.cons.append(z)
        v.deps |= set(deps)

    def zpoly(self, p):
        terms = []
        for m, c in p.items():
            fs = []
            for v, e in m:
                zv = self.vars[v].z
                if self.vars[v].kind == 'int':
                    zv = z3.ToReal(zv)
                fs.extend([zv]*e)
            if isinstance(c, Fraction):
                k = z3.Q(c.numerator, c.denominator)
            else:
                k = z3.RealVal(c)
            if not fs:
                terms.append(k)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t*f
                terms.append(t if c == 1 else k*t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def zbool(self, name):
        if name not in self.bools:
            self.bools[name] = z3.Bool(name)
        return self.bools[name]

    def real_input(self, name, lo=None, hi=None, lo_open=True, hi_open=True):
        v = self.new(name, 'input')
        v.lo = None if lo is None else (lo if isinstance(lo, Fraction)
                                        else snap(lo))
        v.hi = None if hi is None else (hi if isinstance(hi, Fraction)
                                        else snap(hi))
        v.lo_open, v.hi_open = lo_open, hi_open
        self._bounds(v)
        self.inputs[name] = ('real', v.id)
        return Sym(P.pvar(v.id))

    def _bounds(self, v):
        if v.lo is not None:
            q = z3.Q(v.lo.numerator, v.lo.denominator)
            v.cons.append(v.z > q if v.lo_open else v.z >= q)
        if v.hi is not None:
            q = z3.Q(v.hi.numerator, v.hi.denominator)
            v.cons.append(v.z < q if v.hi_open else v.z <= q)

    def fresh(self, name, lo=None, hi=None, lo_open=False, hi_open=False,
              fn=None, kind='fresh'):
        v = self.new(name, kind)
        v.lo, v.hi, v.lo_open, v.hi_open = lo, hi, lo_open, hi_open
        self._bounds(v)
        v.fn = fn
        return v

    def trig_pair(self, name, angle_id, sgn_s=None):
        """Base variables (c, s), c**2 + s**2 = 1, of angle variable."""
        c = self.new(f'c_{name}', 'cos')
        s = self.new(f's_{name}', 'sin')
        c.lo, c.hi = Fraction(-1), Fraction(1)
        s.lo, s.hi = Fraction(-1), Fraction(1)
        if sgn_s == '>=':
            s.lo = Fraction(0)
        elif sgn_s == '>':
            s.lo, s.lo_open = Fraction(0), True
        self._bounds(c)
        self._bounds(s)
        if angle_id is not None:
            c.deps.add(angle_id)
            s.deps.add(angle_id)
        self.ring.rules[s.id] = (2, {P.ONE_M: 1, ((c.id, 2),): -1})
        self.ring.opp[s.id] = c.id
        rel = c.z*c.z + s.z*s.z == 1
        self.con(c, rel, [s.id])
        self.con(s, rel, [c.id])
        if angle_id is not None:
            c.fn = lambda ev: math.cos(ev.var(angle_id))
            s.fn = lambda ev: math.sin(ev.var(angle_id))
        return Sym(P.pvar(c.id)), Sym(P.pvar(s.id))

    def is_input(self, vid):
        return any(i[1] == vid for i in self.inputs.values())

    def angle_input(self, name, lo=None, hi=None, div=1, rng='full'):
        """An angle x = div*alpha; alpha is the base variable.

        rng (of alpha*div): 'full' [0, 2pi), 'half' [0, pi], 'pm' (-pi, pi).
        lo/hi: additional closed bounds (floats, radians) on x.
        """
        v = self.new(name, 'angle')
        sg = None
        if rng == 'half':
            v.lo, v.hi = Fraction(0), PI/div
            sg = '>='
            kind = 'acos'
        elif rng == 'full':
            v.lo, v.hi, v.hi_open = Fraction(0), 2*PI/div, True
            kind = 'full' if div == 1 else 'acos'
            sg = '>=' if div >= 2 else None
        elif rng == 'pm':
            v.lo, v.hi = -PI/div, PI/div
            v.lo_open = v.hi_open = True
            kind = 'pm' if div == 1 else 'atan'
        else:
            raise ValueError(rng)
        self._bounds(v)
        c, s = self.trig_pair(name, v.id, sg)
        a = Angle(c, s, kind)
        v.info = a
        self.inputs[name] = ('angle', v.id, div, rng)
        if rng == 'pm' and div >= 2:
            cv = self.vars[next(iter(P.pvars(c.n)))]
            cv.lo, cv.lo_open = Fraction(0), True
            self._bounds(cv)
        if rng == 'half' and lo is not None and hi is not None \
                and lo > 0 and hi < PI_F:
            sv = self.vars[next(iter(P.pvars(s.n)))]
            sv.lo_open = True
            self._bounds(sv)
        if rng == 'half' and div >= 2:
            cv = self.vars[next(iter(P.pvars(c.n)))]
            cv.lo = Fraction(0)
            self._bounds(cv)
        if rng == 'full' and div == 2:
            # alpha in [0, pi): c > -1
            cv = self.vars[next(iter(P.pvars(c.n)))]
            cv.lo_open = True
            self._bounds(cv)
        x = Sym(P.pvar(v.id))
        if lo is not None:
            self.assume(x*div >= lo, False)
        if hi is not None:
            self.assume(x*div <= hi, False)
        return x*div if div != 1 else x

    def hyp_input(self, name, lo=None, hi=None, div=1):
        """A hyperbolic angle x = div*phi."""
        v = self.new(name, 'hyp')
        sh = self.new(f'sh_{name}', 'sinh')
        ch = self.new(f'ch_{name}', 'cosh')
        ch.lo = Fraction(1)
        self._bounds(ch)
        self.ring.rules[ch.id] = (2, {P.ONE_M: 1, ((sh.id, 2),): 1})
        rel = ch.z*ch.z == 1 + sh.z*sh.z
        self.con(ch, rel, [sh.id])
        self.con(sh, rel, [ch.id])
        sh.fn = lambda ev: math.sinh(ev.var(v.id))
        ch.fn = lambda ev: math.cosh(ev.var(v.id))
        v.info = Hyp(Sym(P.pvar(ch.id)), Sym(P.pvar(sh.id)))
        self.inputs[name] = ('hyp', v.id, div)
        # value/sign link
        self.con(v, z3.And((v.z > 0) == (sh.z > 0), (v.z < 0) == (sh.z < 0)),
                 [sh.id])
        x = Sym(P.pvar(v.id))
        if lo is not None:
            self.assume(x*div >= lo, False)
        if hi is not None:
            self.assume(x*div <= hi, False)
        return x*div if div != 1 else x

    # ------------------------------------------------------------- solving
    def closure(self, vs, conds):
        """Constraints relevant to the variables vs."""
        vs = set(vs)
        picked = [False]*len(conds)
        xp = [False]*len(self.extra)
        work = list(vs)
        seen = set()
        while True:
            while work:
                v = work.pop()
                if v in seen:
                    continue
                seen.add(v)
                for d in self.vars[v].deps:
                    if d not in seen:
                        work.append(d)
            more = False
            for i, c in enumerate(conds):
                if not picked[i]:
                    cv = c.vars()
                    if not cv or (cv & seen) - self.consts:
                        picked[i] = True
                        work.extend(cv - seen)
                        more = True
            for i, (xv, z) in enumerate(self.extra):
                if not xp[i] and (xv & seen) - self.consts:
                    xp[i] = True
                    work.extend(xv - seen)
                    more = True
            if not more and not work:
                break
        zs = [c.z(self) for i, c in enumerate(conds) if picked[i]]
        zs += [z for i, (_, z) in enumerate(self.extra) if xp[i]]
        for v in seen:
            zs.extend(self.vars[v].cons)
        return zs, seen

    def check(self, conds, ms=None, want_model=False, extra_z=()):
        """Satisfiability of path and conds: 'sat'/'unsat'/'unknown'."""
        ms = ms or self.FEAS_MS
        vs = set()
        for c in conds:
            vs |= c.vars()
        zs, seen = self.closure(vs, self.path)
        zs = [c.z(self) for c in conds] + zs + list(extra_z)
        return solve(zs, ms, want_model)

    def assume(self, cond, check=True):
        c = cond.c if isinstance(cond, SymBool) else cond
        if c is TRUE or c is True:
            return
        if c is FALSE or c is False:
            raise PathAbort('assumption false')
        st = self.static(c)
        if st is True:
            return
        if st is False:
            raise PathAbort('assumption false')
        if check and self.check([c])[0] == 'unsat':
            raise PathAbort('assumption false')
        self.path.append(c)
        self.known[c.key] = True
        if c.op in ('gt', 'ge', 'eq'):
            self._derive(c, True)

    # ------------------------------------------------------------ decisions
    def known_sign(self, p):
        """'>', '<', '>=', '<=', '0' or None from the signs of the variables."""
        if not p:
            return '0'
        if P.is_const(p):
            return '>' if P.const_of(p) > 0 else '<'
        key = ('sgn', freeze(p))
        if key in self.cache:
            return self.cache[key]
        tot = None
        for m, c in p.items():
            s = 1 if c > 0 else -1
            strict = True
            ok = True
            for v, e in m:
                sg = self.vars[v].sign()
                if e % 2 == 0:
                    if sg not in ('>', '<'):
                        strict = False
                    continue
                if sg is None:
                    ok = False
                    break
                if sg in ('<', '<='):
                    s = -s
                if sg in ('>=', '<='):
                    strict = False
            if not ok:
                tot = None
                break
            t = (s, strict)
            if tot is None:
                tot = t
            elif tot[0] != s:
                tot = None
                break
            else:
                tot = (s, tot[1] or strict)
        else:
            r = {(1, True): '>', (1, False): '>=', (-1, True): '<',
                 (-1, False): '<='}[tot]
            self.cache[key] = r
            return r
        self.cache[key] = None
        return None

    def static(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op in ('gt', 'ge', 'eq'):
            s = self.known_sign(c.args[0])
            if s is not None:
                if c.op == 'gt':
                    if s == '>':
                        return True
                    if s in ('<', '<=', '0'):
                        return False
                elif c.op == 'ge':
                    if s in ('>', '>=', '0'):
                        return True
                    if s == '<':
                        return False
                else:
                    if s == '0':
                        return True
                    if s in ('>', '<'):
                        return False
        k = self.known.get(c.key)
        if k is not None:
            return k
        if c.op == 'not':
            r = self.static(c.args[0])
            return None if r is None else (not r)
        if c.op == 'and':
            rs = [self.static(a) for a in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if c.op == 'or':
            rs = [self.static(a) for a in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def decide(self, c):
        r = self.static(c)
        if r is not None:
            return r
        if c.op == 'and':
            for a in sorted(c.args, key=_csize):
                if not self.decide(a):
                    return False
            return True
        if c.op == 'or':
            for a in sorted(c.args, key=_csize):
                if self.decide(a):
                    return True
            return False
        if c.op == 'not':
            return not self.decide(c.args[0])
        i = len(self.taken)
        if i > self.max_taken:
            raise Inconclusive('decision limit')
        STATS['decisions'] += 1
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            rt = self.check([c])[0]
            if rt == 'unsat':
                val = False
            else:
                rf = self.check([c_not(c)])[0]
                if rf == 'unsat':
                    val = True
                else:
                    val = True
                    if 'unknown' in (rt, rf):
                        self.unknown_feas += 1
                    self.alts.append(self.taken + [False])
        self.taken.append(val)
        k = c if val else c_not(c)
        self.path.append(k)
        self.known[c.key] = val
        if c.op in ('gt', 'ge', 'eq'):
            self._derive(c, val)
        return val

    def _derive(self, c, val):
        p = c.args[0]
        if c.op == 'gt' and val:
            self.known[('ge', freeze(p))] = True
            self.known[('eq', freeze(p))] = False
            n = P.pneg(p)
            self.known[('gt', freeze(n))] = False
            self.known[('ge', freeze(n))] = False
            self.known[('eq', freeze(n))] = False
        elif c.op == 'gt':
            n = P.pneg(p)
            self.known[('ge', freeze(n))] = True
        elif c.op == 'ge' and val:
            n = P.pneg(p)
            self.known[('gt', freeze(n))] = False
        elif c.op == 'ge':
            self.known[('gt', freeze(p))] = False
            self.known[('eq', freeze(p))] = False
            n = P.pneg(p)
            self.known[('gt', freeze(n))] = True
            self.known[('ge', freeze(n))] = True
            self.known[('eq', freeze(n))] = False
        elif c.op == 'eq':
            n = P.pneg(p)
            self.known[('eq', freeze(n))] = val
            if val:
                for q in (p, n):
                    self.known[('gt', freeze(q))] = False
                    self.known[('ge', freeze(q))] = True

    def choose(self, name, options):
        """Nondeterministic choice of a configuration value."""
        lo, hi = 0, len(options) - 1
        while lo < hi:
            i = len(self.taken)
            if i < len(self.prefix):
                v = self.prefix[i]
            else:
                v = True
                self.alts.append(self.taken + [False])
            self.taken.append(v)
            mid = (lo + hi)//2
            if v:
                hi = mid
            else:
                lo = mid + 1
        self.picks[name] = lo
        return options[lo]

    def sign_of(self, p):
        """Decides the sign of p (forking if needed): 1, -1 or 0."""
        s = self.known_sign(p)
        if s == '>':
            return 1
        if s == '<':
            return -1
        if s == '0':
            return 0
        if self.decide(Cond('gt', p)):
            return 1
        if s == '>=':
            return 0
        if self.decide(Cond('gt', P.pneg(p))):
            return -1
        return 0

    # -------------------------------------------------------------- models
    def inputs_from_model(self, model, by_value=False):
        """Concrete values (floats) of the inputs in a z3 model."""
        out = {}
        for name, d in self.inputs.items():
            kind, vid = d[0], d[1]
            v = self.vars[vid]
            if kind == 'real':
                out[name] = zfloat(model, v.z)
            elif kind == 'int':
                x = zfloat(model, v.z)
                out[name] = None if x is None else int(round(x))
            elif kind == 'angle':
                a = v.info
                cid = next(iter(P.pvars(a.c.n)))
                sid = next(iter(P.pvars(a.s.n)))
                c = zfloat(model, self.vars[cid].z)
                s = zfloat(model, self.vars[sid].z)
                if by_value and zfloat(model, v.z) is not None:
                    x = zfloat(model, v.z)
                elif c is None or s is None:
                    # only the value is constrained (or nothing)
                    x = zfloat(model, v.z)
                    if x is None and c is not None:
                        x = math.acos(max(-1, min(1, c)))
                    elif x is None and s is not None:
                        x = math.asin(max(-1, min(1, s)))
                else:
                    x = math.atan2(s, c)
                    if v.lo is not None and v.lo == 0 and x < 0:
                        x += 2*math.pi
                out[name] = None if x is None else x*d[2]
            elif kind == 'hyp':
                sh = self.vars[next(iter(P.pvars(v.info.sh.n)))]
                x = zfloat(model, sh.z)
                if x is None or by_value and zfloat(model, v.z) is not None:
                    x = zfloat(model, v.z)
                    out[name] = None if x is None else x*d[2]
                else:
                    out[name] = math.asinh(x)*d[2]
            elif kind == 'bool':
                b = model.eval(self.zbool(name), model_completion=False)
                out[name] = bool(z3.is_true(b))
        return out


def zfloat(model, zv):
    x = model.eval(zv, model_completion=False)
    if z3.is_rational_value(x):
        f = x.as_fraction()
        return float(f)
    if z3.is_int_value(x):
        return float(x.as_long())
    if z3.is_algebraic_value(x):
        return float(x.approx(30).as_fraction())
    return None


class _Abort(Exception):
    pass


class Deadline(BaseException):
    pass


_DEADLINE = [None]
_solve_cache = {}


def check_deadline():
    if _DEADLINE[0] is not None and time.time() > _DEADLINE[0]:
        raise Deadline()


def solve(zs, ms, want_model=False):
    """Satisfiability of the conjunction; answers are cached per process."""
    key = None
    if not want_model:
        key = frozenset(z.get_id() for z in zs)
        hit = _solve_cache.get(key)
        if hit is not None and (hit[0] != 'unknown' or hit[2] >= ms):
            return hit[0], None
    check_deadline()
    r = _solve(zs, ms, want_model)
    if key is not None:
        _solve_cache[key] = (r[0], list(zs), ms)   # keeps the terms alive
    return r


def _solve(zs, ms, want_model=False):
    t0 = time.time()
    STATS['queries'] += 1
    res, model = 'unknown', None
    has_uf = False
    try:
        order = ('default',) if _needs_default(zs) else ('nlsat', 'default')
        for which in order:
            if which == 'nlsat':
                s = z3.Tactic('qfnra-nlsat').solver()
            else:
                s = z3.Solver()
            s.set('timeout', int(ms))
            for z in zs:
                s.add(z)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                res = 'sat'
                if want_model:
                    try:
                        model = s.model()
                    except z3.Z3Exception:
                        model = None
                break
            if r == z3.unsat:
                res = 'unsat'
                break
    finally:
        STATS['solver_s'] += time.time() - t0
    STATS[res] += 1
    return res, model


def _needs_default(zs):
    """UF or Int present -> nlsat does not apply."""
    seen = set()
    st = list(zs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                return True
            if k == z3.Z3_OP_TO_REAL or z3.is_int(e):
                return True
            st.extend(e.children())
    return False


# ------------------------------------------------------------------- current
class _Cur:
    eng = None


def E():
    return _Cur.eng


# ----------------------------------------------------------------------- Sym
class SymBool:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return E().decide(self.c)

    def __and__(self, o):
        return SymBool(c_and(self.c, _cond(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(c_or(self.c, _cond(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(c_not(self.c))

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(bool)

    def __getitem__(self, k):
        return np.bool_(bool(self))[bool(k) if isinstance(k, SymBool) else k]

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    __hash__ = None


def _cond(o):
    if isinstance(o, SymBool):
        return o.c
    if isinstance(o, Cond):
        return o
    return TRUE if bool(o) else FALSE


def to_poly_const(x):
    if isinstance(x, (bool, np.bool_)):
        return P.pconst(int(x))
    if isinstance(x, (int, np.integer)):
        return P.pconst(int(x))
    if isinstance(x, Fraction):
        return P.pconst(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return None
        return P.pconst(snap(x))
    return False


ONE = {P.ONE_M: 1}


class Sym:
    __slots__ = ('n', 'd', 'bad')
    __array_priority__ = 1000

    def __init__(self, n, d=None, bad=None):
        self.n = n
        self.d = ONE if d is None else d
        self.bad = bad

    # ----- scalar protocol bits numpy scalars have
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def copy(self):
        return self

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def astype(self, *a, **k):
        return self

    @property
    def real(self):
        return self

    def __hash__(self):
        return hash((freeze(self.n), freeze(self.d)))

    def __repr__(self):
        if self.bad:
            return f'<{self.bad}>'
        return f'<sym {len(self.n)}/{len(self.d)}>'

    def __float__(self):
        if not self.bad and P.is_const(self.n) and P.is_const(self.d):
            return float(Fraction(P.const_of(self.n))/P.const_of(self.d))
        if self.bad:
            return float('nan')
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        f = float(self)
        return int(f)

    def __index__(self):
        if not self.bad and P.is_const(self.n) and P.is_const(self.d):
            f = Fraction(P.const_of(self.n))/P.const_of(self.d)
            if f.denominator == 1:
                return int(f)
        raise TypeError('symbolic index')

    def __format__(self, spec):
        if spec and spec[-1] in 'bcdoxXsn':
            raise ValueError(f"Unknown format code '{spec[-1]}' for object "
                             "of type 'float'")
        if self.bad:
            return 'nan'
        prints = E().cache.setdefault('prints', [])
        prints.append((self, spec))
        return f'<sym:{len(prints) - 1}>'

    def __len__(self):
        raise TypeError("object of type 'Sym' has no len()")

    def __getitem__(self, k):
        if k is Ellipsis or (isinstance(k, tuple) and k == ()):
            return self
        a = np.empty((), dtype=object)
        a[()] = self
        from . import shim
        return a.view(shim.SArr)[k]

    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(float)

    def reshape(self, *shape, **k):
        return self[None].reshape(*shape)

    def flatten(self, *a):
        return self[None]

    ravel = flatten

    def is_const(self):
        return (not self.bad) and P.is_const(self.n) and P.is_const(self.d)

    def const(self):
        return Fraction(P.const_of(self.n))/P.const_of(self.d)

    # ----- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, np.ndarray):
            return _arr(self, o, '__add__')
        if self.bad or o.bad:
            return bad()
        if RND is not None:
            return RND.add(self, o)
        if self.d == o.d:
            return mk(P.padd(self.n, o.n), self.d)
        R = E().ring
        return mk(P.padd(R.mul(self.n, o.d), R.mul(o.n, self.d)),
                  R.mul(self.d, o.d))

    __radd__ = __add__

    def __neg__(self):
        return bad() if self.bad else Sym(P.pneg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, np.ndarray):
            return _arr(self, o, '__sub__')
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, np.ndarray):
            return _arr(self, o, '__rsub__')
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, np.ndarray):
            return _arr(self, o, '__mul__')
        if self.bad or o.bad:
            return bad()
        if RND is not None:
            return RND.mul(self, o)
        R = E().ring
        n1, d1, n2, d2 = self.n, self.d, o.n, o.d
        # cross-cancel equal factors
        if n1 == d2 and n1:
            n1, d2 = ONE, ONE
        if n2 == d1 and n2:
            n2, d1 = ONE, ONE
        return mk(R.mul(n1, n2), R.mul(d1, d2))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, np.ndarray):
            return _arr(self, o, '__truediv__')
        if o.bad == 'inf' and not self.bad:
            return Sym({})
        if self.bad or o.bad:
            return bad()
        if RND is not None:
            return RND.div(self, o)
        if not o.n:
            return bad('inf' if self.n else 'nan')
        nonzero(o.n)
        R = E().ring
        if self.n == o.n:
            return mk(o.d, self.d)
        if self.d == o.d:
            return mk(self.n, o.n)
        r = mk(R.mul(self.n, o.d), R.mul(self.d, o.n))
        if E().abbrev and len(r.n) + len(r.d) > E().abbrev:
            return abbreviation(r)
        return r

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, np.ndarray):
            return _arr(self, o, '__rtruediv__')
        return o/self

    def __pow__(self, k):
        if isinstance(k, np.ndarray):
            return _arr(self, k, '__pow__')
        if self.bad:
            return bad()
        if isinstance(k, Sym):
            if not k.is_const():
                raise Unsupported('symbolic exponent')
            f = k.const()
        else:
            f = Fraction(k) if isinstance(k, (int, np.integer)) else snap(k)
        if f.denominator == 1:
            n = int(f)
            if n == 0:
                return Sym(ONE)
            R = E().ring
            if n < 0:
                return Sym(ONE)/(self**(-n))
            if RND is not None:
                r = self
                for _ in range(n - 1):
                    r = r*self
                return r
            return mk(R.pow(self.n, n), R.pow(self.d, n))
        if f.denominator == 2:
            return sqrt(self)**int(f.numerator)
        if f.denominator == 3:
            return cbrt(self)**int(f.numerator)
        raise Unsupported(f'power {f}')

    def __rpow__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(self, o, '__rpow__')
        if self.is_const():
            return lift(o)**self.const()
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        if self.bad:
            return bad()
        e = E()
        if e.lazy_abs:
            return abs_poly(self.n)/abs_poly(self.d)
        return self if self.sgn() >= 0 else -self

    def sgn(self):
        e = E()
        sn = e.sign_of(self.n)
        if sn == 0:
            return 0
        if P.is_const(self.d):
            return sn
        return sn*e.sign_of(self.d)

    def __mod__(self, m):
        m = lift(m)
        if m is NotImplemented or isinstance(m, np.ndarray):
            return _arr(self, m, '__mod__')
        return mod(self, m)

    def __rmod__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, np.ndarray):
            return _arr(self, o, '__rmod__')
        return mod(o, self)

    def __floordiv__(self, m):
        m = lift(m)
        if m is NotImplemented or isinstance(m, np.ndarray):
            return _arr(self, m, '__floordiv__')
        return (self - mod(self, m))/m

    def __rfloordiv__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, np.ndarray):
            return _arr(self, o, '__rfloordiv__')
        return (o - mod(o, self))/self

    def __round__(self, n=None):
        return opaque('round', self, lift(n)) if n else rint(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __trunc__(self):
        return trunc(self)

    def __divmod__(self, m):
        return self//m, self % m

    def __rdivmod__(self, o):
        return o//self, o % self

    # ----- comparisons
    def _cmp(self, o, op):
        if o is None:
            return False
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            if self.bad:
                return False
            if op in ('lt', 'le'):
                return bool(o > 0)
            if op in ('gt', 'ge'):
                return bool(o < 0)
            return False
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, np.ndarray):
            f = np.frompyfunc(lambda b: bool(self._cmp(b, op)), 1, 1)
            return f(o).astype(bool)
        if self.bad or o.bad:
            return False
        e = E()
        if e.lazy_abs and has_abs(self) | has_abs(o) and \
                e.known_sign(self.n) in ('>', '>=', '0') and \
                e.known_sign(self.d) == '>' and \
                e.known_sign(o.n) in ('>', '>=', '0') and \
                e.known_sign(o.d) == '>':
            # both sides are not negative: compare the squares
            return SymBool(cmp0(self*self - o*o, op))
        if RND is not None:
            return SymBool(cmp0(Sym(P.padd(self.n, P.pneg(o.n))), op))
        d = self - o
        return SymBool(cmp0(d, op))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        if o is None:
            return True
        r = self._cmp(o, 'eq')
        if r is False:
            return True
        if isinstance(r, np.ndarray):
            return ~r
        if isinstance(r, SymBool):
            return ~r
        return r

    def __bool__(self):
        if self.bad:
            return True
        return bool(self != 0)

    # numpy calls these on object arrays
    def sqrt(self):
        return sqrt(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def tan(self):
        return tan(self)

    def arccos(self):
        return arccos(self)

    def arcsin(self):
        return arcsin(self)

    def arctan(self):
        return arctan(self)

    def arctan2(self, o):
        return arctan2(self, lift(o))

    def sinh(self):
        return sinh(self)

    def cosh(self):
        return cosh(self)

    def tanh(self):
        return tanh(self)

    def arctanh(self):
        return arctanh(self)

    def radians(self):
        return radians(self)

    deg2rad = radians

    def degrees(self):
        return degrees(self)

    rad2deg = degrees

    def cbrt(self):
        return cbrt(self)

    def log(self):
        return opaque('log', self)

    def exp(self):
        return opaque('exp', self)


def bad(kind='nan'):
    return Sym({}, ONE, kind)


def lift(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return lift(o[()])
        return o
    c = to_poly_const(o)
    if c is None:
        return bad('nan' if math.isnan(o) else 'inf')
    if c is False:
        if isinstance(o, SymBool):
            return Sym(P.pconst(1 if bool(o) else 0))
        return NotImplemented
    if isinstance(o, float) and o > 0 and c:
        k = root_of(o)
        if k is not None:
            return sqrt(Sym(P.pconst(k)))
    return Sym(c)


_roots = {}


def root_of(x):
    """The small fraction whose square root the constant x stands for."""
    if x in _roots:
        return _roots[x]
    r = None
    f = snap(x)
    if 1e-3 < x < 1e3 and f.denominator > 10**6 and f % (PI/360) != 0:
        q = Fraction(x*x).limit_denominator(16)
        if q > 0 and abs(math.sqrt(q) - x) <= 2.3e-16*x:
            r = q
    _roots[x] = r
    return r


def _arr(self, o, name):
    if o is NotImplemented:
        return NotImplemented
    f = np.frompyfunc(lambda b: getattr(self, name)(b), 1, 1)
    return f(o)


def const(x):
    return lift(x)


CANCEL_LIMIT = 160


def abbreviation(x):
    """A variable standing for a large quotient: any value (the definition is
    dropped, an over-approximation)."""
    e = E()
    key = ('abbr', freeze(x.n), freeze(x.d))
    if key not in e.cache:
        v = e.new('q', 'abbr')
        v.fn = lambda ev: ev.rat(x)
        e.cache[key] = Sym(P.pvar(v.id))
    return e.cache[key]


def mk(n, d):
    """Fraction n/d, simplified."""
    if not n:
        return Sym({})
    if P.is_const(d):
        k = P.const_of(d)
        if k != 1:
            n = P.pscale(n, Fraction(1)/k)
        return Sym(n)
    if n == d:
        return Sym(ONE)
    # monomial content
    mn, md = P.mono_content(n), P.mono_content(d)
    if mn and md:
        a, b = dict(mn), dict(md)
        g = tuple(sorted((v, min(e, b[v])) for v, e in a.items() if v in b))
        if g:
            n, d = P.mono_div(n, g), P.mono_div(d, g)
            if P.is_const(d):
                return mk(n, d)
    if len(d) > 1 and len(n) > 1 and len(n) + len(d) <= CANCEL_LIMIT:
        n, d = P.poly_gcd_cancel(n, d)
        R = E().ring
        n, d = R.reduce(n), R.reduce(d)
        if P.is_const(d):
            return mk(n, d)
    k = P.lead(d)
    if k != 1:
        n, d = P.pscale(n, Fraction(1)/k), P.pscale(d, Fraction(1)/k)
    return Sym(n, d)


def nonzero(p):
    """Records p != 0 (a divisor); forks away nothing, but states it."""
    e = E()
    s = e.known_sign(p)
    if s in ('>', '<'):
        return
    c = Cond('eq', p)
    st = e.static(c)
    if st is False:
        return
    if st is True:
        return
    r = e.check([c])[0]
    if r != 'unsat':
        e.assumed.append('nonzero divisor')
        e.path.append(c_not(c))
    e.known[c.key] = False
    e.known[('eq', freeze(P.pneg(p)))] = False


def pos_den(s):
    """(n, d) with d > 0 if the sign of d is known or provable, else n*d, d*d."""
    e = E()
    if P.is_const(s.d):
        return s.n
    sg = e.known_sign(s.d)
    if sg in ('>', '>='):
        return s.n
    if sg in ('<', '<='):
        return P.pneg(s.n)
    key = ('dsgn', freeze(s.d))
    r = e.cache.get(key)
    if r is None:
        if e.check([Cond('ge', P.pneg(s.d))])[0] == 'unsat':
            r = 1
        elif e.check([Cond('ge', s.d)])[0] == 'unsat':
            r = -1
        else:
            r = 0
        if r:
            e.cache[key] = r
    if r == 1:
        return s.n
    if r == -1:
        return P.pneg(s.n)
    return e.ring.mul(s.n, s.d)


def cmp0(d, op):
    """Cond for d op 0."""
    if op == 'eq':
        p = d.n
        if not p:
            return TRUE
        if P.is_const(p):
            return FALSE
        link(d)
        return Cond('eq', _prim(p, True))
    p = pos_den(d)
    if not p:
        return TRUE if op in ('le', 'ge') else FALSE
    if P.is_const(p):
        k = P.const_of(p)
        return TRUE if {'lt': k < 0, 'le': k <= 0, 'gt': k > 0,
                        'ge': k >= 0}[op] else FALSE
    link(d)
    p = _prim(p, False)
    if op == 'gt':
        return Cond('gt', p)
    if op == 'ge':
        return Cond('ge', p)
    if op == 'lt':
        return Cond('gt', P.pneg(p))
    return Cond('ge', P.pneg(p))


def _prim(p, anysign):
    """Scales to a canonical positive multiple."""
    k = abs(P.lead(p))
    if anysign:
        k = P.lead(p)
    return P.pscale(p, Fraction(1)/k) if k != 1 else p


# ---------------------------------------------------------- angle linear forms
def linear(s):
    """Decomposes s into ({angle var: coef}, {int var: coef}, const, rest)."""
    e = E()
    if s.bad or not P.is_const(s.d):
        return None
    k = Fraction(1)/P.const_of(s.d)
    ang, ints, hyp, rest = {}, {}, {}, {}
    c0 = Fraction(0)
    for m, c in s.n.items():
        c = c*k
        if not m:
            c0 = Fraction(c)
        elif len(m) == 1 and m[0][1] == 1 and e.vars[m[0][0]].kind == 'angle':
            ang[m[0][0]] = Fraction(c)
        elif len(m) == 1 and m[0][1] == 1 and e.vars[m[0][0]].kind == 'int':
            ints[m[0][0]] = Fraction(c)
        else:
            rest[m] = P.norm_c(c)
    return ang, ints, c0, rest


def linear_rat(s):
    """linear() for a rational function; rest is a Sym."""
    L = linear(s)
    if L is not None:
        return L[0], L[1], L[2], Sym(L[3])
    e = E()
    d = s.d
    parts = {}
    base = {}
    for m, c in s.n.items():
        vs = [v for v, x in m if e.vars[v].kind in ('angle', 'int')]
        if not vs:
            base[m] = c
        elif len(vs) == 1 and dict(m)[vs[0]] == 1:
            parts.setdefault(vs[0], {})[
                tuple(t for t in m if t[0] != vs[0])] = c
        else:
            return None
    m0 = max(d)
    ang, ints = {}, {}
    for v, A in parts.items():
        k = Fraction(A.get(m0, 0))/Fraction(d[m0])
        if not k or P.psub(A, P.pscale(d, k)):
            return None
        (ang if e.vars[v].kind == 'angle' else ints)[v] = k
    k = Fraction(base.get(m0, 0))/Fraction(d[m0])
    c0 = 2*PI*math.floor(k/(2*PI))
    if c0:
        base = P.psub(base, P.pscale(d, c0))
    return ang, ints, c0, mk(base, d)


def link(d):
    """Adds the axioms tying angle values in d to their sines/cosines."""
    L = linear(d)
    if not L:
        return
    ang, ints, c0, rest = L
    if not ang:
        return
    if len(ang) == 1 and not rest and not ints:
        (v, k), = ang.items()
        kappa = -c0/k
        link_at(v, kappa)
        if E().vars[v].info.kind in ('full', 'pm'):
            link_at(v, PI if E().vars[v].info.kind == 'full' else Fraction(0))
    else:
        for v in ang:
            for q in (-2, -1, 0, 1, 2, 3, 4):
                link_at(v, HALF*q)


def cos_const(kappa):
    """cos of the rational number kappa (in units where PI is the half turn)."""
    return _trig_const(kappa, 'cos')


def sin_const(kappa):
    return _trig_const(kappa, 'sin')


def _trig_const(kappa, which):
    q = kappa/HALF
    if q.denominator == 1:
        k = int(q) % 4
        return Sym(P.pconst({'cos': (1, 0, -1, 0), 'sin': (0, 1, 0, -1)}
                            [which][k]))
    t = (kappa/PI) % 2
    tab = {'cos': {Fraction(1, 3): Fraction(1, 2), Fraction(2, 3): Fraction(-1, 2),
                   Fraction(4, 3): Fraction(-1, 2), Fraction(5, 3): Fraction(1, 2)},
           'sin': {Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2),
                   Fraction(7, 6): Fraction(-1, 2), Fraction(11, 6): Fraction(-1, 2)}}
    if t in tab[which]:
        return Sym(P.pconst(tab[which][t]))
    e = E()
    key = ('tc', t)
    if key not in e.cache:
        import mpmath
        c = e.new('kc', 'fresh')
        s = e.new('ks', 'fresh')
        with mpmath.workdps(60):
            x = mpmath.mpf(t.numerator)/t.denominator*mpmath.pi
            vc, vs = mpmath.cos(x), mpmath.sin(x)
            for v, val in ((c, vc), (s, vs)):
                eps = Fraction(1, 10**45)
                f = Fraction(int(mpmath.floor(val*mpmath.mpf(10)**50)), 10**50)
                v.lo, v.hi = f - eps, f + eps
                v.lo_open = v.hi_open = True
                e._bounds(v)
                fl = float(val)
                v.fn = (lambda fl: lambda ev: fl)(fl)
        e.ring.rules[s.id] = (2, {P.ONE_M: 1, ((c.id, 2),): -1})
        rel = c.z*c.z + s.z*s.z == 1
        e.con(c, rel, [s.id])
        e.con(s, rel, [c.id])
        e.consts |= {c.id, s.id}
        e.cache[key] = (Sym(P.pvar(c.id)), Sym(P.pvar(s.id)))
    return e.cache[key][0 if which == 'cos' else 1]


def link_at(vid, kappa):
    """theta op kappa  <=>  condition on (cos theta, sin theta)."""
    e = E()
    v = e.vars[vid]
    a = v.info
    if a is None or kappa in a.links or a.kind == 'free':
        return
    a.links.add(kappa)
    lo, hi = v.lo, v.hi
    if lo is not None and kappa < lo or hi is not None and kappa > hi:
        return
    th = v.z
    kz = z3.Q(kappa.numerator, kappa.denominator)
    ck = cos_const(kappa)
    sk = sin_const(kappa)

    def gt(x, y):      # Cond x > y
        return cmp0_nolink(x - y, 'gt')

    def eqc(x, y):
        return cmp0_nolink(x - y, 'eq')

    cs = []
    if a.kind == 'acos':
        cs.append((th > kz, gt(ck, a.c)))
        cs.append((th < kz, gt(a.c, ck)))
    elif a.kind == 'atan':
        cs.append((th > kz, gt(a.s, sk)))
        cs.append((th < kz, gt(sk, a.s)))
    elif a.kind == 'full':
        zero = Sym({})
        up = c_not(gt(zero, a.s))          # s >= 0
        dn = gt(zero, a.s)
        if kappa <= PI:
            cs.append((th < kz, c_and(up, gt(a.c, ck))))
            cs.append((th <= kz, c_and(up, c_not(gt(ck, a.c)))))
        else:
            cs.append((th > kz, c_and(dn, gt(a.c, ck))))
            cs.append((th >= kz, c_and(dn, c_not(gt(ck, a.c)))))
    elif a.kind == 'pm':
        zero = Sym({})
        up = c_not(gt(zero, a.s))
        dn = gt(zero, a.s)
        if kappa >= 0:
            cs.append((th > kz, c_and(up, gt(ck, a.c))))
            cs.append((th >= kz, c_and(up, c_not(gt(a.c, ck)))))
        else:
            cs.append((th < kz, c_and(dn, gt(ck, a.c))))
            cs.append((th <= kz, c_and(dn, c_not(gt(a.c, ck)))))
    for zl, c in cs:
        e.con(v, zl == c.z(e), c.vars())
        for u in c.vars() - e.consts:
            e.vars[u].deps.add(vid)


def cmp0_nolink(d, op):
    if op == 'eq':
        p = d.n
        if not p:
            return TRUE
        return FALSE if P.is_const(p) else Cond('eq', p)
    p = pos_den(d)
    if not p:
        return FALSE if op == 'gt' else TRUE
    if P.is_const(p):
        k = P.const_of(p)
        return TRUE if (k > 0 if op == 'gt' else k >= 0) else FALSE
    return Cond('gt' if op == 'gt' else 'ge', p)


# ------------------------------------------------------------------ functions
def _isconst(s):
    return not s.bad and P.is_const(s.n) and P.is_const(s.d)


def int_sqrt_frac(f):
    n, d = f.numerator, f.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a*a == n and b*b == d:
        return Fraction(a, b)
    return None


_sq_cache = {}


def square_part(p, ring):
    """As square_part1, trying the eliminations on each factor too."""
    A, B = square_part1(p, ring)
    if P.is_const(B) or len(B) > 12:
        return A, B
    if not P.is_const(A):
        A1, B1 = square_part1(B, ring)
        if not P.is_const(A1):
            return ring.raw_mul(A, A1), B1
    c, fs = P.factor_list(B)
    if not fs or (len(fs) == 1 and fs[0][1] == 1):
        return A, B
    A2, B2 = P.pconst(1), P.pconst(c)
    hit = False
    for f, k in fs:
        a, b = square_part1(f, ring)
        hit |= not P.is_const(a)
        for _ in range(k):
            A2 = ring.raw_mul(A2, a)
            B2 = ring.raw_mul(B2, b)
    if not hit:
        return A, B
    A3, B3 = square_part1(ring.reduce(B2), ring)
    A2 = ring.raw_mul(A2, A3)
    return ring.raw_mul(A, A2), B3


def square_part1(p, ring):
    """p = k * A**2 * B with B squarefree; returns (A, k*B) choosing among the
    sine/cosine eliminations the one which extracts most."""
    svars = [v for v in P.pvars(p) if v in ring.opp]
    cvars = set(ring.opp.values())
    pairs = sorted({s for s in ring.opp if s in P.pvars(p)
                    or ring.opp[s] in P.pvars(p)})
    best = None
    pairs = pairs[:4]
    for mask in range(1 << len(pairs)):
        fl = [s for i, s in enumerate(pairs) if mask >> i & 1]
        q = ring.flip(p, fl) if fl else p
        c, fs = P.factor_list(q)
        A = P.pconst(1)
        B = P.pconst(1)
        for f, k in fs:
            for _ in range(k//2):
                A = ring.raw_mul(A, f)
            if k % 2:
                B = ring.raw_mul(B, f)
        r = int_sqrt_frac(abs(c)) if c else Fraction(0)
        if r is not None:
            A = P.pscale(A, r)
            B = P.pscale(B, 1 if c > 0 else -1)
        else:
            # keep only squarefree integer part
            n, d = abs(c).numerator, abs(c).denominator
            k, out = n*d, 1
            f = 2
            while f*f <= k and f < 2000:
                while k % (f*f) == 0:
                    k //= f*f
                    out *= f
                f += 1
            A = P.pscale(A, Fraction(out, d))
            B = P.pscale(B, k if c > 0 else -k)
        score = (sum(sum(e for _, e in m) for m in B), len(B))
        if best is None or score < best[0]:
            best = (score, A, B)
        if P.is_const(B):
            break
    return best[1], best[2]


def sqrt(x):
    x = lift(x)
    if x.bad:
        return bad()
    e = E()
    if not x.n:
        return Sym({})
    if _isconst(x):
        f = x.const()
        if f < 0:
            return bad('nan')
        r = int_sqrt_frac(f)
        if r is not None:
            return Sym(P.pconst(r))
    if RND is not None:
        return RND.sqrt(x)
    R = e.ring
    key = ('sqrt', freeze(x.n), freeze(x.d))
    hit = e.cache.get(key)
    if hit is not None:
        return hit
    # sqrt(n/d) = sqrt(n*d)/|d|
    if P.is_const(x.d):
        num, den = x.n, x.d
    else:
        num, den = R.mul(x.n, x.d), x.d
    A, B = square_part(num, R)
    A, B = R.reduce(A), R.reduce(B)
    if P.is_const(B):
        k = P.const_of(B)
        if k < 0:
            # -(k)*A**2: negative unless A == 0
            if e.sign_of(A) == 0:
                return Sym({})
            return bad('nan')
        root = None
        fr = int_sqrt_frac(Fraction(k))
        if fr is not None:
            root = Sym(P.pconst(fr))
    else:
        root = None
    sa = e.sign_of(A)
    if sa == 0:
        return Sym({})
    if root is None:
        sB = e.known_sign(B)
        if sB not in ('>', '>='):
            neg = Cond('gt', P.pneg(B))
            if e.decide(neg):
                return bad('nan')
        k = 0
        for c in B.values():
            k = math.gcd(k, int(c)) if Fraction(c).denominator == 1 else 1
        if k > 1 and not P.is_const(B):
            # sqrt(k*B) = sqrt(k)*sqrt(B)
            root = sqrt_atom(P.pconst(k))*sqrt_atom(P.pscale(
                B, Fraction(1, k)))
        else:
            root = sqrt_atom(B)
    r = root*Sym(A if sa > 0 else P.pneg(A))
    if not P.is_const(den):
        sd = e.sign_of(den)
        r = r/Sym(den if sd > 0 else P.pneg(den))
    e.cache[key] = r
    return r


def sqrt_atom(B):
    e = E()
    key = ('sqB', freeze(B))
    if key in e.cache:
        return e.cache[key]
    q = e.new('q', 'sqrt')
    q.lo = Fraction(0)
    if e.known_sign(B) == '>':
        q.lo_open = True
    e._bounds(q)
    e.ring.rules[q.id] = (2, B)
    deps = P.pvars(B)
    e.con(q, q.z*q.z == e.zpoly(B), deps)
    q.fn = lambda ev: math.sqrt(max(0.0, ev.poly(B)))
    r = Sym(P.pvar(q.id))
    e.cache[key] = r
    return r


def has_abs(x):
    return any(E().vars[v].kind == 'abs' for v in P.pvars(x.n))


def abs_poly(p):
    """|p| without a case distinction."""
    e = E()
    sg = e.known_sign(p)
    if sg in ('>', '>=', '0'):
        return Sym(p)
    if sg in ('<', '<='):
        return -Sym(p)
    key = ('abs', freeze(p))
    if key in e.cache:
        return e.cache[key]
    q = e.new('abs', 'abs')
    q.lo = Fraction(0)
    e._bounds(q)
    e.ring.rules[q.id] = (2, e.ring.mul(p, p))
    zp = e.zpoly(p)
    e.con(q, q.z == z3.If(zp >= 0, zp, -zp), P.pvars(p))
    q.fn = lambda ev: abs(ev.poly(p))
    r = Sym(P.pvar(q.id))
    e.cache[key] = r
    return r


def cbrt(x):
    x = lift(x)
    if x.bad:
        return bad()
    if RND is not None:
        return RND.cbrt(x)
    e = E()
    if not x.n:
        return Sym({})
    key = ('cbrt', freeze(x.n), freeze(x.d))
    if key in e.cache:
        return e.cache[key]
    R = e.ring
    if P.is_const(x.d):
        num, den = x.n, x.d
    else:
        num, den = R.mul(x.n, R.mul(x.d, x.d)), x.d
    c, fs = P.factor_list(num)
    A, B = P.pconst(1), P.pconst(1)
    for f, k in fs:
        for _ in range(k//3):
            A = R.mul(A, f)
        for _ in range(k % 3):
            B = R.mul(B, f)
    cn, cd = abs(c).numerator, abs(c).denominator
    rn, rd = round(cn**(1/3)), round(cd**(1/3))
    if rn**3 == cn and rd**3 == cd:
        A = P.pscale(A, Fraction(rn, rd)*(1 if c > 0 else -1))
    else:
        B = P.pscale(B, c)
    if P.is_const(B) and P.const_of(B) == 1:
        root = Sym(ONE)
    else:
        kk = ('cbB', freeze(B))
        if kk not in e.cache:
            t = e.new('t', 'cbrt')
            e.ring.rules[t.id] = (3, B)
            zb = e.zpoly(B)
            e.con(t, z3.And(t.z*t.z*t.z == zb, (t.z > 0) == (zb > 0),
                            (t.z < 0) == (zb < 0)), P.pvars(B))
            sg = e.known_sign(B)
            if sg == '>':
                t.lo, t.lo_open = Fraction(0), True
                e._bounds(t)
            t.fn = lambda ev: float(np.cbrt(ev.poly(B)))
            e.cache[kk] = Sym(P.pvar(t.id))
        root = e.cache[kk]
    r = root*Sym(A)
    if not P.is_const(den):
        r = r/Sym(den)
    e.cache[key] = r
    return r


def radians(x):
    return lift(x)*Sym(P.pconst(PI/180))


def degrees(x):
    return lift(x)*Sym(P.pconst(180/PI))


def _mult_angle(c, s, n):
    """(cos, sin) of n times the angle."""
    if n < 0:
        a, b = _mult_angle(c, s, -n)
        return a, -b
    rc, rs = Sym(ONE), Sym({})
    for _ in range(n):
        rc, rs = rc*c - rs*s, rs*c + rc*s
    return rc, rs


def _refine(vid, m):
    """Replaces angle variable v by m*w, w a new base angle."""
    e = E()
    v = e.vars[vid]
    a = v.info
    w = e.new(f'{v.name}/{m}', 'angle')
    w.lo = None if v.lo is None else v.lo/m
    w.hi = None if v.hi is None else v.hi/m
    w.lo_open, w.hi_open = v.lo_open, v.hi_open
    e._bounds(w)
    w.fn = lambda ev: ev.var(vid)/m
    e.con(w, v.z == m*w.z, [vid])
    e.con(v, v.z == m*w.z, [w.id])
    # signs of the new pair
    sg = None
    kind = 'free'
    if w.lo is not None and w.lo >= 0 and w.hi is not None and w.hi <= PI:
        sg, kind = '>=', 'acos'
    elif w.lo is not None and w.lo >= -HALF and w.hi is not None \
            and w.hi <= HALF:
        kind = 'atan'
    cbase = (len(a.c.n) == 1 and P.is_const(a.c.d)
             and list(a.c.n.values()) == [1] and len(list(a.c.n)[0]) == 1
             and e.vars[list(a.c.n)[0][0][0]].kind == 'cos')
    if cbase:
        c, s = e.trig_pair(w.name, w.id, sg)
        if kind == 'atan' or (w.hi is not None and w.hi <= HALF and
                              w.lo is not None and w.lo >= -HALF):
            cv = e.vars[list(c.n)[0][0][0]]
            cv.lo = Fraction(0)
            e._bounds(cv)
        mc, ms = _mult_angle(c, s, m)
        cid, sid = list(a.c.n)[0][0][0], list(a.s.n)[0][0][0]
        e.con(e.vars[cid], e.vars[cid].z == e.zpoly(mc.n), P.pvars(mc.n))
        e.con(e.vars[sid], e.vars[sid].z == e.zpoly(ms.n), P.pvars(ms.n))
        e.ring.rules[cid] = (1, mc.n)
        e.ring.rules[sid] = (1, ms.n)
        e.ring.opp.pop(sid, None)
    else:
        if m != 2:
            raise Unsupported('refining a derived angle')
        c = sqrt((1 + a.c)/2)
        s = sqrt((1 - a.c)/2)
        if kind == 'acos':
            if w.hi > HALF:
                raise Unsupported('half of a wide derived angle')
        elif kind == 'atan':
            if a.s.sgn() < 0:
                s = -s
        else:
            raise Unsupported('half of a wide derived angle')
    w.info = Angle(c, s, kind)
    e.ring.rules[vid] = (1, {((w.id, 1),): m})
    return w.id


def trig(x):
    """(cos x, sin x)."""
    x = lift(x)
    if x.bad:
        return bad(), bad()
    e = E()
    if e.ring.rules:
        x = Sym(e.ring.reduce(x.n), e.ring.reduce(x.d))
    key = ('trig', freeze(x.n), freeze(x.d))
    if key in e.cache:
        return e.cache[key]
    L = linear_rat(x)
    if L is None:
        ang, ints, c0 = {}, {}, Fraction(0)
        restS = x
    else:
        ang, ints, c0, restS = L
    for v, k in ints.items():
        if (k/(2*PI)).denominator != 1:
            raise Unsupported('integer multiple inside a trigonometric function')
    # refine fractional multiples
    ang2 = {}
    for v, k in list(ang.items()):
        if k.denominator != 1:
            m = k.denominator
            if m > 4:
                # an irrational-looking scale (mixed units): opaque
                restS = restS + Sym(P.pscale(P.pvar(v), k))
                continue
            w = _refine(v, m)
            ang2[w] = ang2.get(w, 0) + k*m
        else:
            ang2[v] = ang2.get(v, 0) + k
    c, s = cos_const(c0), sin_const(c0)
    for v, k in ang2.items():
        if abs(k) > 8:
            restS = restS + Sym(P.pscale(P.pvar(v), k))
            continue
        a = e.vars[v].info
        mc, ms = _mult_angle(a.c, a.s, int(k))
        c, s = c*mc - s*ms, s*mc + c*ms
    if restS.n:
        mc, ms = opaque_trig(restS)
        c, s = c*mc - s*ms, s*mc + c*ms
    e.cache[key] = (c, s)
    return c, s


def opaque_trig(x):
    """cos/sin of an expression that is not a combination of angles."""
    e = E()
    k = P.lead(x.n)
    neg = k < 0
    y = -x if neg else x
    key = ('otrig', freeze(y.n), freeze(y.d))
    olds = e.cache.setdefault('otrigs', [])
    if key not in e.cache and len(olds) < 40 and \
            len(y.n) + len(y.d) < 60:
        # the same value, written in another way
        for z, pair in olds:
            if len(z.n) + len(z.d) > 60:
                continue
            for sg in (1, -1):
                if not e.ring.reduce((y - z if sg > 0 else y + z).n):
                    e.cache[key] = (pair[0], sg*pair[1])
                    break
            if key in e.cache:
                break
    if key not in e.cache:
        c, s = e.trig_pair('o', None)
        olds.append((y, (c, s)))
        cv = e.vars[list(c.n)[0][0][0]]
        sv = e.vars[list(s.n)[0][0][0]]
        yy = Sym(y.n, y.d)
        cv.fn = lambda ev: math.cos(ev.rat(yy))
        sv.fn = lambda ev: math.sin(ev.rat(yy))
        deps = P.pvars(y.n) | P.pvars(y.d)
        # |sin y| <= |y| and 1 - y^2/2 <= cos y
        if P.is_const(y.d):
            zy = e.zpoly(y.n)
            e.con(sv, z3.And(z3.Implies(zy >= 0, z3.And(sv.z <= zy, sv.z >= -zy)),
                             z3.Implies(zy <= 0, z3.And(sv.z >= zy, sv.z <= -zy))),
                  deps)
            e.con(cv, z3.BoolVal(True), deps)
        e.cache[key] = (c, s)
    c, s = e.cache[key]
    return (c, -s) if neg else (c, s)


def cos(x):
    if RND is not None:
        x = lift(x)
        return bad() if x.bad else RND.cos(x)
    return trig(x)[0]


def sin(x):
    if RND is not None:
        x = lift(x)
        return bad() if x.bad else RND.sin(x)
    return trig(x)[1]


def tan(x):
    if RND is not None:
        x = lift(x)
        return bad() if x.bad else RND.tan(x)
    c, s = trig(x)
    return s/c


def _find_angle(c, kind):
    e = E()
    for v in e.vars:
        if v.kind == 'angle' and v.info is not None and v.info.kind == kind:
            a = v.info
            if a.c.n == c.n and a.c.d == c.d:
                return v
    return None


def _known_cosine(x):
    """arccos(x) where x is the cosine of a known angle."""
    e = E()
    for v in list(e.vars):
        if v.kind != 'angle' or v.info is None or v.lo is None or \
                v.hi is None or not e.is_input(v.id):
            continue
        a = v.info
        for m in (1, 2):
            if v.lo*m < -PI or v.hi*m > 2*PI:
                continue
            c = a.c if m == 1 else 2*a.c*a.c - 1
            if (x - c).n:
                continue
            y = Sym(P.pscale(P.pvar(v.id), Fraction(m)))
            if v.lo >= 0:
                if v.hi*m <= PI or bool(y <= Sym(P.pconst(PI))):
                    return y
                return Sym(P.pconst(2*PI)) - y
            if v.hi*m <= PI:
                return y if bool(y >= 0) else -y
    return None


def arccos(x):
    x = lift(x)
    if x.bad:
        return bad()
    if RND is not None:
        return RND.arccos(x)
    e = E()
    if _isconst(x):
        f = x.const()
        if abs(f) > 1:
            return bad()
        tab = {1: Fraction(0), -1: PI, 0: HALF, Fraction(1, 2): PI/3,
               Fraction(-1, 2): 2*PI/3}
        if f in tab:
            return Sym(P.pconst(tab[f]))
    key = ('acos', freeze(x.n), freeze(x.d))
    if key in e.cache:
        return e.cache[key]
    v = _find_angle(x, 'acos')
    if v is not None:
        return Sym(P.pvar(v.id))
    r = _known_cosine(x)
    if r is not None:
        e.cache[key] = r
        return r
    s2 = 1 - x*x
    s = sqrt(s2)             # forks to NaN where |x| > 1 is possible
    if s.bad:
        return bad('nan')
    th = e.new('acos', 'angle')
    th.lo, th.hi = Fraction(0), PI
    e._bounds(th)
    th.info = Angle(x, s, 'acos')
    th.fn = lambda ev: math.acos(max(-1.0, min(1.0, ev.rat(x))))
    r = Sym(P.pvar(th.id))
    e.cache[key] = r
    return r


def arcsin(x):
    x = lift(x)
    if RND is not None and not x.bad:
        return RND.arcsin(x)
    return Sym(P.pconst(HALF)) - arccos(x)


def arctan(x):
    x = lift(x)
    if x.bad:
        return bad()
    if RND is not None:
        return RND.arctan(x)
    e = E()
    if _isconst(x):
        f = x.const()
        tab = {0: Fraction(0), 1: PI/4, -1: -PI/4}
        if f in tab:
            return Sym(P.pconst(tab[f]))
    key = ('atan', freeze(x.n), freeze(x.d))
    if key in e.cache:
        return e.cache[key]
    for v in list(e.vars):
        # an angle in [-pi/2, pi/2] with this tangent is known
        if v.kind == 'angle' and v.info is not None and \
                v.info.kind in ('acos', 'atan', 'pm') and \
                v.lo is not None and v.hi is not None and \
                v.lo >= -HALF and v.hi <= HALF and \
                not (v.info.s - x*v.info.c).n:
            r = Sym(P.pvar(v.id))
            e.cache[key] = r
            return r
    c = 1/sqrt(1 + x*x)
    s = x*c
    th = e.new('atan', 'angle')
    th.lo, th.hi = -HALF, HALF
    th.lo_open = th.hi_open = True
    e._bounds(th)
    th.info = Angle(c, s, 'atan')
    th.fn = lambda ev: math.atan(ev.rat(x))
    r = Sym(P.pvar(th.id))
    e.cache[key] = r
    return r


def arctan2(y, x):
    y, x = lift(y), lift(x)
    if x.bad or y.bad:
        return bad()
    if RND is not None:
        return RND.arctan2(y, x)
    e = E()
    if not y.n:
        sg = x.sgn()
        return Sym({}) if sg >= 0 else Sym(P.pconst(PI))
    if not x.n:
        sg = y.sgn()
        return Sym(P.pconst(HALF*sg)) if sg else Sym({})
    key = ('atan2', freeze(x.n), freeze(x.d), freeze(y.n), freeze(y.d))
    if key in e.cache:
        return e.cache[key]
    rho = sqrt(x*x + y*y)
    if not rho.n:
        return Sym({})
    c, s = x/rho, y/rho
    for v in list(e.vars):
        # an angle with this cosine and sine is known
        if v.kind == 'angle' and v.info is not None and \
                v.info.kind in ('pm', 'full', 'acos') and \
                v.info.c.n == c.n and v.info.c.d == c.d and \
                v.info.s.n == s.n and v.info.s.d == s.d:
            r = Sym(P.pvar(v.id))
            if v.info.kind == 'full' and not bool(
                    r <= Sym(P.pconst(PI))):
                r = r - Sym(P.pconst(2*PI))
            e.cache[key] = r
            return r
    th = e.new('atan2', 'angle')
    th.lo, th.hi = -PI, PI
    th.lo_open = True
    e._bounds(th)
    th.info = Angle(c, s, 'pm')
    th.fn = lambda ev: math.atan2(ev.rat(y), ev.rat(x))
    r = Sym(P.pvar(th.id))
    e.cache[key] = r
    return r


# hyperbolic functions
def hyper(x):
    """(cosh x, sinh x)."""
    x = lift(x)
    if x.bad:
        return bad(), bad()
    e = E()
    if not x.n:
        return Sym(ONE), Sym({})
    key = ('hyper', freeze(x.n), freeze(x.d))
    if key in e.cache:
        return e.cache[key]
    c, s = Sym(ONE), Sym({})
    rest = {}
    ok = P.is_const(x.d)
    if ok:
        k0 = Fraction(1)/P.const_of(x.d)
        for m, k in x.n.items():
            k = Fraction(k*k0)
            if len(m) == 1 and m[0][1] == 1 and \
                    isinstance(e.vars[m[0][0]].info, Hyp):
                h = e.vars[m[0][0]].info
                if k.denominator != 1 or abs(k) > 8:
                    rest[m] = P.norm_c(k)
                    continue
                ch, sh = Sym(ONE), Sym({})
                for _ in range(abs(int(k))):
                    ch, sh = ch*h.ch + sh*h.sh, sh*h.ch + ch*h.sh
                if k < 0:
                    sh = -sh
                c, s = c*ch + s*sh, s*ch + c*sh
            else:
                rest[m] = P.norm_c(k)
        restS = Sym(rest)
    else:
        restS = x
    if restS.n:
        ch, sh = opaque_hyp(restS)
        c, s = c*ch + s*sh, s*ch + c*sh
    e.cache[key] = (c, s)
    return c, s


def opaque_hyp(x):
    e = E()
    k = P.lead(x.n)
    neg = k < 0
    y = -x if neg else x
    key = ('ohyp', freeze(y.n), freeze(y.d))
    if key not in e.cache:
        sh = e.new('sh_o', 'sinh')
        ch = e.new('ch_o', 'cosh')
        ch.lo = Fraction(1)
        e._bounds(ch)
        e.ring.rules[ch.id] = (2, {P.ONE_M: 1, ((sh.id, 2),): 1})
        rel = ch.z*ch.z == 1 + sh.z*sh.z
        e.con(ch, rel, [sh.id])
        e.con(sh, rel, [ch.id])
        yy = Sym(y.n, y.d)
        sh.fn = lambda ev: math.sinh(ev.rat(yy))
        ch.fn = lambda ev: math.cosh(ev.rat(yy))
        if P.is_const(y.d):
            zy = e.zpoly(y.n)
            deps = P.pvars(y.n)
            e.con(sh, z3.And(z3.Implies(zy >= 0, sh.z >= zy),
                             z3.Implies(zy <= 0, sh.z <= zy)), deps)
        e.cache[key] = (Sym(P.pvar(ch.id)), Sym(P.pvar(sh.id)))
    ch, sh = e.cache[key]
    return (ch, -sh) if neg else (ch, sh)


def cosh(x):
    if RND is not None:
        x = lift(x)
        return bad() if x.bad else RND.cosh(x)
    return hyper(x)[0]


def sinh(x):
    if RND is not None:
        x = lift(x)
        return bad() if x.bad else RND.sinh(x)
    return hyper(x)[1]


def tanh(x):
    if RND is not None:
        x = lift(x)
        return bad() if x.bad else RND.tanh(x)
    c, s = hyper(x)
    return s/c


def arctanh(x):
    x = lift(x)
    if x.bad:
        return bad()
    if RND is not None:
        return RND.arctanh(x)
    e = E()
    if not x.n:
        return Sym({})
    key = ('atanh', freeze(x.n), freeze(x.d))
    if key in e.cache:
        return e.cache[key]
    q = 1 - x*x
    r = sqrt(q)
    if r.bad or not r.n:
        return bad('nan')
    ch = 1/r
    sh = x*ch
    # an input with the same tanh?
    for v in e.vars:
        if isinstance(v.info, Hyp) and v.kind == 'hyp':
            d = v.info.sh*ch - sh*v.info.ch
            if not d.n:
                res = Sym(P.pvar(v.id))
                e.cache[key] = res
                return res
    v = e.new('atanh', 'hyp')
    v.info = Hyp(ch, sh)
    v.fn = lambda ev: math.atanh(max(-1 + 1e-16, min(1 - 1e-16, ev.rat(x))))
    px = pos_den(x)
    e.con(v, z3.And((v.z > 0) == (e.zpoly(px) > 0),
                    (v.z < 0) == (e.zpoly(px) < 0)), P.pvars(px))
    res = Sym(P.pvar(v.id))
    e.cache[key] = res
    return res


def opaque(name, *args):
    """An uninterpreted function of its arguments."""
    return uf_app(name, args)


def uf_app(name, args, fn=None):
    e = E()
    args = [lift(a) for a in args]
    if any(a.bad for a in args):
        return bad()
    if RND is not None and name in ('log', 'exp'):
        return getattr(RND, name)(*args)
    args = [Sym(e.ring.reduce(a.n), e.ring.reduce(a.d)) for a in args]
    key = ('uf', name) + tuple((freeze(a.n), freeze(a.d)) for a in args)
    if key in e.cache:
        return e.cache[key]
    v = e.new(f'{name}()', 'uf')
    v.info = (name, args)
    zargs = []
    deps = set()
    for a in args:
        deps |= P.pvars(a.n) | P.pvars(a.d)
        if P.is_const(a.d):
            zargs.append(e.zpoly(a.n))
        else:
            zargs.append(e.zpoly(a.n)/e.zpoly(a.d))
    if args:
        f = z3.Function('uf_' + name, *([z3.RealSort()]*(len(args) + 1)))
        e.con(v, v.z == f(*zargs), deps)
        # congruence pulls in the other applications of the same function
        others = e.uf.setdefault(name, [])
        for w in others:
            e.con(v, z3.BoolVal(True), [w])
        others.append(v.id)
    std = {'log': math.log, 'exp': math.exp}
    if fn is None and name in std:
        g = std[name]
        fn = lambda ev: g(*[ev.rat(a) for a in args])
    v.fn = fn
    r = Sym(P.pvar(v.id))
    e.cache[key] = r
    return r


# ------------------------------------------------------------------------ mod
def bounds_of(s):
    """Interval (lo, hi) of a linear form from the ranges of its variables."""
    e = E()
    if s.bad or not P.is_const(s.d):
        return None, None
    k0 = Fraction(1)/P.const_of(s.d)
    lo = hi = Fraction(0)
    for m, c in s.n.items():
        c = Fraction(c*k0)
        if not m:
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        ml, mh = Fraction(1), Fraction(1)
        for v, ex in m:
            var = e.vars[v]
            l, h = var.lo, var.hi
            for _ in range(ex):
                if l is None or h is None or ml is None:
                    ml = mh = None
                    break
                ps = [ml*l, ml*h, mh*l, mh*h]
                ml, mh = min(ps), max(ps)
        if ml is None:
            if len(m) == 1 and m[0][1] == 1:
                l, h = e.vars[m[0][0]].lo, e.vars[m[0][0]].hi
                a, b = (l, h) if c > 0 else (h, l)
                lo = None if (a is None or lo is None) else lo + c*a
                hi = None if (b is None or hi is None) else hi + c*b
                continue
            return None, None
        a, b = (c*ml, c*mh) if c > 0 else (c*mh, c*ml)
        lo = None if lo is None else lo + a
        hi = None if hi is None else hi + b
    return lo, hi


def mod(x, m):
    if x.bad or m.bad:
        return bad()
    if not m.is_const():
        raise Unsupported('symbolic modulus')
    mm = m.const()
    if mm <= 0:
        raise Unsupported('non-positive modulus')
    if RND is not None:
        return RND.mod(x, m)
    e = E()
    if x.is_const():
        return Sym(P.pconst(x.const() % mm))
    lo, hi = bounds_of(x)
    if lo is not None and hi is not None and (hi - lo)/mm < 8:
        k0, k1 = math.floor(lo/mm), math.floor(hi/mm)
        for k in range(k0, k1 + 1):
            if k == k1 or (x < Sym(P.pconst((k + 1)*mm))):
                return x - Sym(P.pconst(k*mm))
    # unbounded: integer quotient
    y = x/Sym(P.pconst(mm))
    key = ('mod', freeze(y.n), freeze(y.d))
    if key in e.cache:
        return x - Sym({((e.cache[key].id, 1),): P.norm_c(mm)})
    kv = e.new('k', 'int')
    kv.info = None
    kv.fn = lambda ev: float(math.floor(ev.rat(x)/float(mm)))
    r = x - Sym({((kv.id, 1),): P.norm_c(mm)})
    # 0 <= x - k*m < m
    if P.is_const(x.d):
        zx = e.zpoly(x.n)
        deps = P.pvars(x.n)
    else:
        zx = e.zpoly(x.n)/e.zpoly(x.d)
        deps = P.pvars(x.n) | P.pvars(x.d)
    q = z3.Q(mm.numerator, mm.denominator)
    e.con(kv, z3.And(zx - q*z3.ToReal(kv.z) >= 0,
                     zx - q*z3.ToReal(kv.z) < q), deps)
    e.cache[key] = kv
    for d, hi in ((r, False), (m - r, True)):
        ge, gt = cmp0(d, 'ge'), cmp0(d, 'gt')
        le, lt = cmp0(d, 'le'), cmp0(d, 'lt')
        for c, val in ((ge, True), (lt, False)) + (
                ((gt, True), (le, False)) if hi else ()):
            if c.op in ('gt', 'ge'):
                e.known[c.key] = val
    return r


def floor(x):
    x = lift(x)
    return x - mod(x, Sym(ONE))


def ceil(x):
    return -floor(-lift(x))


def trunc(x):
    x = lift(x)
    if x.bad:
        return x
    return floor(x) if x >= 0 else ceil(x)


def rint(x):
    """The nearest integer; of two, the even one."""
    x = lift(x)
    if x.bad:
        return x
    if x.is_const():
        return Sym(P.pconst(round(x.const())))
    h = Sym(P.pconst(Fraction(1, 2)))
    r = floor(x + h)
    if r - x == h and mod(r, Sym(P.pconst(2))) != 0:
        r = r - 1
    return r


def garbage():
    """Content of uninitialised memory: any value."""
    e = E()
    v = e.new('uninit', 'garbage')
    v.fn = lambda ev: 725000.0
    return Sym(P.pvar(v.id))
