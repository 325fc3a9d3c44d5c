"""Symbolic stand-in for numpy and math inside the code under test.

Arrays are numpy object arrays of core.Sym (class SArr); everything not listed
here falls through to the real numpy, which handles object arrays by calling
the operators of Sym.
"""
import math as _math
import types
from fractions import Fraction

import numpy as np
import z3

from . import core as C
from .core import Sym, SymBool, lift, Unsupported


class IntDtype:
    """The dtype of arrays of symbolic integers."""
    kind = 'i'
    itemsize = 8
    char = 'l'
    name = 'int64'
    type = np.int64
    dtype = np.dtype(np.int64)

    def __eq__(self, o):
        return isinstance(o, IntDtype) or np.dtype(np.int64) == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(np.dtype(np.int64))


INT = IntDtype()
_INT_OPS = ('add', 'subtract', 'multiply', 'negative', 'absolute', 'power',
            'square', 'remainder', 'floor_divide', 'maximum', 'minimum',
            'positive')


def _is_int(x):
    """Integers (numbers or arrays)."""
    if isinstance(x, SArr):
        return x._int or x.dtype.kind in 'iu'
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'iu'
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def truncated(x):
    """What an integer array stores."""
    x = lift(x)
    if x.bad:
        return C.garbage()
    e = C.E()
    if x.is_const():
        return lift(int(x.const()))
    ints = getattr(e, 'intvars', ())
    if all(v in ints for v in C.P.pvars(x.n)) and C.P.is_const(x.d) and all(
            (Fraction(c)/Fraction(C.P.const_of(x.d))).denominator == 1
            for c in x.n.values()):
        return x
    v = e.fresh('trunc', fn=lambda ev: float(int(ev.rat(x))))
    if not hasattr(e, 'intvars'):
        e.intvars = set()
    e.intvars.add(v.id)
    # toward zero: a proper fraction of one is lost
    zx = e.zpoly(x.n)
    if not C.P.is_const(x.d):
        zx = zx/e.zpoly(x.d)
    else:
        zx = zx/z3.RealVal(Fraction(C.P.const_of(x.d)))
    e.con(v, z3.And(v.z - zx < 1, zx - v.z < 1,
                    z3.Implies(zx >= 0, z3.And(v.z >= 0, v.z <= zx)),
                    z3.Implies(zx <= 0, z3.And(v.z <= 0, v.z >= zx))),
          C.P.pvars(x.n) | C.P.pvars(x.d))
    return Sym(C.P.pvar(v.id))


def _trunc_all(v):
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        a = np.asarray(v, dtype=object)
        r = np.empty(a.shape, dtype=object)
        f = r.reshape(-1)
        for i, y in enumerate(a.reshape(-1)):
            f[i] = truncated(y)
        return r
    return truncated(v)


class SArr(np.ndarray):
    """Object array; float dtype requests keep the symbolic content."""
    _int = False

    def __array_finalize__(self, obj):
        if getattr(obj, '_int', False):
            self._int = True

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _is_num(dtype):
            r = self.copy()
            r._int = False
            return r
        if self.dtype == object and not isinstance(self, SBArr) and (
                isinstance(dtype, IntDtype) or (
                    dtype is not bool and np.dtype(dtype).kind in 'iu')):
            f = self.reshape(-1)
            if not all(isinstance(v, Sym) and v.is_const() for v in f):
                return int_array(self)
            return np.array([int(v.const()) for v in f],
                            dtype=np.int64).reshape(self.shape).view(SArr)
        return np.ndarray.astype(self, dtype, *a, **k)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        r = arr.view(SArr)
        r._int = bool(context is not None
                      and context[0].__name__ in _INT_OPS
                      and all(_is_int(x) for x in context[1]))
        return r

    def _inplace(self, o, op):
        if self._int and not _is_int(o):
            raise TypeError(f"Cannot cast ufunc '{op}' output from "
                            "dtype('float64') to dtype('int64') with casting "
                            "rule 'same_kind'")
        i = self._int
        if isinstance(o, Sym):
            # (a number would take over the operation)
            w = np.empty((), dtype=object)
            w[()] = o
            o = w
        r = getattr(np.ndarray, op)(self, o)
        if r is NotImplemented:
            return r
        self._int = i
        return self

    def __iadd__(self, o):
        return self._inplace(o, '__iadd__')

    def __isub__(self, o):
        return self._inplace(o, '__isub__')

    def __imul__(self, o):
        return self._inplace(o, '__imul__')

    def __itruediv__(self, o):
        if self._int:
            o = lift(1.0) if not isinstance(o, np.ndarray) else o
            return self._inplace(0.5, '__itruediv__')
        return self._inplace(o, '__itruediv__')

    def __imod__(self, o):
        return self._inplace(o, '__imod__')

    def __ifloordiv__(self, o):
        return self._inplace(o, '__ifloordiv__')

    def __ipow__(self, o):
        return self._inplace(o, '__ipow__')

    # indices may be undecided masks
    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _conc_index(k))

    def __setitem__(self, k, v):
        if self._int and not _is_int(v):
            v = _trunc_all(v)
        np.ndarray.__setitem__(self, _conc_index(k), conc(v)
                               if self.dtype != object else v)

    def _cmp(self, o, op):
        if self.dtype != object and not has_sym(o):
            return getattr(np.ndarray, op)(self, o)
        o = _obj0(o) if not isinstance(o, (list, tuple)) \
            else np.asarray(o, dtype=object)
        try:
            a, b = np.broadcast_arrays(np.asarray(self), np.asarray(o))
        except ValueError:
            if op in ('__eq__', '__ne__'):
                raise
            raise
        r = np.empty(a.shape, dtype=object)
        rf = r.reshape(-1)
        for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
            rf[i] = _lazy(getattr(lift(x), op)(y))
        return _sb(r)

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        return self._cmp(o, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, '__ge__')

    def __eq__(self, o):
        return self._cmp(o, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, '__ne__')

    __hash__ = None

    def clip(self, lo=None, hi=None, out=None, **k):
        return _clip(self, lo, hi, out)

    def min(self, axis=None, **k):
        return _amin(self, axis)

    def max(self, axis=None, **k):
        return _amax(self, axis)

    def round(self, decimals=0, out=None):
        return _round(self, decimals, out)

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted')


class SBArr(SArr):
    """Object array of undecided booleans (SymBool / bool)."""

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        return arr.view(SBArr)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, _conc_index(k))
        return r

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, _conc_index(k), v)

    def __and__(self, o):
        return _logic(C.c_and, self, o)

    __rand__ = __iand__ = __and__

    def __or__(self, o):
        return _logic(C.c_or, self, o)

    __ror__ = __ior__ = __or__

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.dtype == bool \
                or isinstance(o, SBArr):
            return self & o
        return conc(self)*o

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.dtype == bool \
                or isinstance(o, SBArr):
            return self | o
        return conc(self) + o

    __radd__ = __add__

    def __invert__(self):
        return _logic(lambda a: C.c_not(a), self)

    def __xor__(self, o):
        return conc(self) ^ conc(o)

    __rxor__ = __xor__

    def __eq__(self, o):
        return conc(self) == conc(o)

    def __ne__(self, o):
        return conc(self) != conc(o)

    __hash__ = None

    def any(self, axis=None, out=None, **k):
        if axis is None or self.ndim == 1:
            return any(bool(x) for x in self.reshape(-1))
        return np.any(conc(self), axis=axis, **k)

    def all(self, axis=None, out=None, **k):
        if axis is None or self.ndim == 1:
            return all(bool(x) for x in self.reshape(-1))
        return np.all(conc(self), axis=axis, **k)

    def sum(self, axis=None, **k):
        return np.sum(conc(self), axis=axis, **k)

    def nonzero(self):
        return np.nonzero(conc(self))

    def astype(self, dtype, *a, **k):
        return conc(self).astype(dtype)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        return bool(conc(self))

    def __iter__(self):
        return iter(conc(self))


def dtype_of(x):
    """x.dtype in the code under test."""
    if isinstance(x, SBArr):
        return np.dtype(bool)
    if isinstance(x, SArr) and x.dtype == object:
        return INT if x._int else np.dtype(float)
    return x.dtype


def int_array(x):
    """Array of integers."""
    r = _trunc_all(x).view(SArr)
    r._int = True
    return r


def _lazy(x):
    """bool, or a SymBool whose outcome is not known yet."""
    if isinstance(x, SymBool):
        st = C.E().static(x.c)
        return x if st is None else st
    return bool(x)


def _sb(r):
    """Object array of lazy booleans -> bool array if all are known."""
    if r.ndim == 0:
        x = r[()]
        return x if isinstance(x, SymBool) else np.bool_(x)
    if any(isinstance(x, SymBool) for x in r.reshape(-1)):
        return r.view(SBArr)
    return r.astype(bool).view(SArr)


def conc(x):
    """Decides every element (forking)."""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SBArr):
        r = np.empty(x.shape, dtype=bool)
        rf = r.reshape(-1)
        for i, v in enumerate(np.asarray(x).reshape(-1)):
            rf[i] = bool(v)
        return r.view(SArr)
    return x


def _conc_index(k):
    if isinstance(k, (SBArr, SymBool)):
        return conc(k)
    if isinstance(k, tuple) and any(isinstance(x, (SBArr, SymBool))
                                    for x in k):
        return tuple(conc(x) for x in k)
    return k


def _lz_and(*xs):
    e = C.E()
    out = []
    for x in xs:
        st = e.static(x) if e is not None else None
        if st is False:
            return C.FALSE
        if st is None:
            out.append(x)
    return C.c_and(*out)


def _logic(f, *args):
    lazy = any(isinstance(a, (SBArr, SymBool)) for a in args)
    arrs = []
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype == object \
                and not isinstance(a, SBArr) and a.size \
                and isinstance(a.reshape(-1)[0], Sym):
            raise Unsupported('logical operation on numbers')
        arrs.append(_obj0(a))
    bs = np.broadcast_arrays(*arrs)
    r = np.empty(bs[0].shape, dtype=object)
    rf = r.reshape(-1)
    fl = [b.reshape(-1) for b in bs]
    for i in range(rf.size):
        cs = [C._cond(b[i]) for b in fl]
        if f is C.c_and:
            c = _lz_and(*cs)
        elif f is C.c_or:
            c = C.c_not(_lz_and(*[C.c_not(x) for x in cs]))
        else:
            c = f(*cs)
        rf[i] = _lazy(SymBool(c))
    return _sb(r)


def _islazy(x):
    return isinstance(x, (SBArr, SymBool)) or has_sym(x)


def logical_and(a, b, *o, **k):
    if not _islazy(a) and not _islazy(b):
        return np.logical_and(a, b, *o, **k)
    return _where_kw(_logic(C.c_and, a, b), k)


def logical_or(a, b, *o, **k):
    if not _islazy(a) and not _islazy(b):
        return np.logical_or(a, b, *o, **k)
    return _where_kw(_logic(C.c_or, a, b), k)


def logical_not(a, *o, **k):
    if not _islazy(a):
        return np.logical_not(a, *o, **k)
    return _where_kw(_logic(lambda x: C.c_not(x), a), k)


def logical_xor(a, b, **k):
    return np.logical_xor(conc(a), conc(b), **k)


def npany(a, axis=None, **k):
    if isinstance(a, (SBArr, SymBool)):
        return a.any(axis=axis) if isinstance(a, SBArr) else bool(a)
    if isinstance(a, (list, tuple)):
        a = [conc(x) for x in a]
    return np.any(a, axis=axis, **k)


def npall(a, axis=None, **k):
    if isinstance(a, (SBArr, SymBool)):
        return a.all(axis=axis) if isinstance(a, SBArr) else bool(a)
    if isinstance(a, (list, tuple)):
        a = [conc(x) for x in a]
    return np.all(a, axis=axis, **k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return lift(x.reshape(-1)[0])
        return float(x)

    def __eq__(cls, o):
        return o is float or o is FloatProxy

    def __hash__(cls):
        return hash(float)


class FloatProxy(metaclass=_FloatMeta):
    fromhex = float.fromhex


def _is_num(dtype):
    if dtype is None or isinstance(dtype, IntDtype):
        return False
    if dtype is FloatProxy:
        return True
    try:
        dt = np.dtype(dtype)
    except TypeError:
        return False
    return dt.kind in 'fO'


def _dt(dtype):
    """dtype request -> (real dtype, symbolic?)"""
    if dtype is None or _is_num(dtype):
        return object, True
    return np.dtype(dtype), False


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def sarr(x):
    a = np.asarray(x, dtype=object)
    if a.size and any(not isinstance(v, Sym) for v in a.reshape(-1)):
        b = np.empty(a.shape, dtype=object)
        f = b.reshape(-1)
        for i, v in enumerate(a.reshape(-1)):
            if isinstance(v, (bool, np.bool_)):
                f[i] = v
            else:
                w = lift(v)
                f[i] = v if w is NotImplemented else w
        a = b
    return a.view(SArr)


def _new(shape, dtype, fill):
    if isinstance(dtype, IntDtype):
        r = _new(shape, float, fill)
        r._int = True
        return r
    dt, sym = _dt(dtype)
    if not sym:
        return None
    a = np.empty(shape, dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = fill()
    return a.view(SArr)


def empty(shape, dtype=float, order='C', **k):
    a = _new(shape, dtype, C.garbage if C.E() is not None
             else (lambda: C.bad('nan')))
    return np.zeros(shape, dtype=dtype).view(SArr) if a is None else a


def zeros(shape, dtype=float, order='C', **k):
    a = _new(shape, dtype, lambda: Sym({}))
    return np.zeros(shape, dtype=dtype).view(SArr) if a is None else a


def ones(shape, dtype=float, order='C', **k):
    a = _new(shape, dtype, lambda: Sym(C.ONE))
    return np.ones(shape, dtype=dtype).view(SArr) if a is None else a


def full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None:
        if isinstance(fill_value, (bool, np.bool_)):
            return np.full(shape, fill_value).view(SArr)
        dtype = float
    if isinstance(dtype, IntDtype):
        r = zeros(shape, dtype=dtype)
        r[...] = fill_value
        return r
    if not _is_num(dtype) and not has_sym(fill_value):
        return np.full(shape, conc(fill_value), dtype=dtype).view(SArr)
    a = np.empty(shape, dtype=object)
    a[...] = fill_value if isinstance(fill_value, np.ndarray) \
        else (lift(fill_value) if not isinstance(fill_value, (list, tuple))
              else sarr(fill_value))
    return sarr(a)


def _like(fn):
    def f(a, *args, dtype=None, shape=None, **k):
        if isinstance(a, (Sym, float, int)):
            a = np.empty((), dtype=object)
        if dtype is None and getattr(a, '_int', False):
            dtype = INT
        a = np.asarray(a)
        dt = a.dtype if dtype is None else dtype
        if a.dtype.kind == 'b' and dtype is None:
            dt = np.bool_
        return fn(a.shape if shape is None else shape, *args, dtype=dt)
    return f


empty_like = _like(empty)
zeros_like = _like(zeros)
ones_like = _like(ones)
full_like = _like(full)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    k.pop('order', None)
    k.pop('subok', None)
    if isinstance(x, SBArr):
        x = conc(x)
    if has_sym(x) and (isinstance(dtype, IntDtype) or (
            dtype is None and getattr(x, '_int', False))):
        return int_array(np.array(x, dtype=object))
    if has_sym(x) or (dtype is not None and _is_num(dtype)):
        if dtype is not None and not _is_num(dtype):
            if np.dtype(dtype).kind == 'b':
                return np.array(x, dtype=bool)
            raise Unsupported(f'array of symbolic values as {dtype}')
        a = sarr(np.array(x, dtype=object))
        while a.ndim < ndmin:
            a = a[None]
        return a
    r = np.array(x, dtype=dtype, ndmin=ndmin, **k)
    if r.dtype.kind == 'f':
        return sarr(r)
    return r.view(SArr)


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and (dtype is None or (
            x.dtype == object and _is_num(dtype))):
        if dtype is not None and getattr(x, '_int', False):
            return x.astype(float)
        return x
    return array(x, dtype=dtype)


def copy(a, **k):
    return np.array(a, dtype=np.asarray(a).dtype, subok=True)


def atleast_1d(*xs):
    r = []
    for x in xs:
        x = asarray(x)
        r.append(x.reshape(1) if x.ndim == 0 else x)
    return r[0] if len(r) == 1 else r


def atleast_2d(*xs):
    r = []
    for x in xs:
        x = asarray(x)
        r.append(x.reshape(1, 1) if x.ndim == 0
                 else (x[None, :] if x.ndim == 1 else x))
    return r[0] if len(r) == 1 else r


# ------------------------------------------------------------ elementwise ops
def _where_kw(res, k):
    out, where = k.get('out'), k.get('where', True)
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        if where is not True:
            raise Unsupported('where= without out=')
        return res
    if where is True:
        out[...] = res
    else:
        w = np.broadcast_to(np.asarray(conc(where), dtype=bool), out.shape)
        out[w] = np.broadcast_to(np.asarray(res, dtype=object), out.shape)[w]
    return out


def _masked(f, args, k):
    """Elementwise f honouring where= (elements outside are not evaluated)."""
    out, where = k.get('out'), k.get('where', True)
    if isinstance(out, tuple):
        out = out[0]
    arrs = [np.asarray(a, dtype=object) if isinstance(a, (np.ndarray, list,
                                                          tuple))
            else a for a in args]
    if where is True and not any(isinstance(a, np.ndarray) for a in arrs):
        r = f(*[lift(a) for a in arrs])
        return _where_kw(r, k)
    bs = np.broadcast_arrays(*[_obj0(a) for a in arrs])
    shape = bs[0].shape
    if where is not True:
        w = np.broadcast_to(np.asarray(conc(where), dtype=bool), shape)
        if out is None:
            out = empty(shape)
    else:
        w = None
    res = np.empty(shape, dtype=object)
    rf = res.reshape(-1)
    fl = [b.reshape(-1) for b in bs]
    for i in range(rf.size):
        if w is not None and not w.reshape(-1)[i]:
            rf[i] = out.reshape(-1)[i]
        else:
            rf[i] = f(*[lift(b[i]) for b in fl])
    if out is not None:
        out[...] = res
        return out
    if res.ndim == 0:
        return res[()]
    return res.view(SArr)


def _obj0(a):
    if isinstance(a, np.ndarray):
        return a
    b = np.empty((), dtype=object)
    b[()] = a
    return b


def _u(f, real):
    def g(x, *args, **k):
        if not has_sym(x) and not has_sym(k.get('out')) and C.E() is None:
            return real(x, *args, **k)
        if args:
            k = dict(k, out=args[0])
        return _masked(f, (x,), k)
    g.__name__ = real.__name__
    return g


def _b(f, real):
    def g(x, y, *args, **k):
        if not has_sym(x) and not has_sym(y) and not has_sym(k.get('out')):
            return real(x, y, *args, **k)
        if args:
            k = dict(k, out=args[0])
        return _masked(f, (x, y), k)
    g.__name__ = real.__name__
    return _ufunc(g)


class _reducer:
    """The methods of a binary ufunc."""

    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **k):
        if k:
            raise Unsupported('ufunc.reduce with keywords')
        a = np.asarray(a) if not isinstance(a, np.ndarray) else a
        if axis is None:
            axis = tuple(range(a.ndim))
        if not isinstance(axis, tuple):
            axis = (axis,)
        axis = tuple(i % a.ndim for i in axis)
        b = np.moveaxis(a, axis, range(len(axis)))
        b = b.reshape((-1,) + b.shape[len(axis):])
        if not b.shape[0]:
            raise Unsupported('reduction of nothing')
        r = b[0]
        for i in range(1, b.shape[0]):
            r = self.f(r, b[i])
        if keepdims:
            sh = tuple(1 if i in axis else n for i, n in enumerate(a.shape))
            r = _obj0(r).reshape(sh).view(SArr)
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            out[...] = r
            return out
        return r

    def accumulate(self, a, axis=0, **k):
        a = np.asarray(a, dtype=object)
        b = np.moveaxis(a, axis, 0).copy()
        for i in range(1, b.shape[0]):
            b[i] = self.f(b[i - 1], b[i])
        return np.moveaxis(b, 0, axis).view(SArr)

    def outer(self, a, b, **k):
        a, b = np.asarray(a), np.asarray(b)
        return self.f(a.reshape(a.shape + (1,)*b.ndim), b, **k)


def _ufunc(g):
    return _reducer(g)


def _sign(x):
    if x.bad:
        return C.bad()
    return Sym(C.P.pconst(x.sgn()))


def _minimum(a, b):
    if a.bad or b.bad:
        return C.bad()
    return b if (b < a) else a


def _maximum(a, b):
    if a.bad or b.bad:
        return C.bad()
    return b if (b > a) else a


def _fmin(a, b):
    if a.bad:
        return b
    if b.bad:
        return a
    return _minimum(a, b)


def _fmax(a, b):
    if a.bad:
        return b
    if b.bad:
        return a
    return _maximum(a, b)


def _clip1(x, lo, hi):
    if x.bad:
        return x
    if lo is not None and x < lo:
        return lift(lo)
    if hi is not None and x > hi:
        return lift(hi)
    return x


def _clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get('min', lo)
    hi = k.get('max', hi)
    if not has_sym(a) and not has_sym(lo) and not has_sym(hi):
        return np.clip(a, lo, hi, out=out)
    args = [a]
    args.append(_NONE if lo is None else lo)
    args.append(_NONE if hi is None else hi)

    def f(x, l, h):
        return _clip1(x, None if l is _NONES else l, None if h is _NONES else h)
    if not isinstance(lo, np.ndarray) and not isinstance(hi, np.ndarray):
        return _masked(lambda x: _clip1(x, lo, hi), (a,), dict(out=out))
    return _masked(lambda x, l, h: _clip1(x, l, h),
                   (a, -_BIG if lo is None else lo,
                    _BIG if hi is None else hi), dict(out=out))


_NONE = None
_NONES = object()
_BIG = 10**400


def _hypot(a, b):
    if C.RND is not None:
        a, b = lift(a), lift(b)
        return C.bad() if a.bad or b.bad else C.RND.hypot(a, b)
    return C.sqrt(a*a + b*b)


def _copysign(a, b):
    aa = abs(a)
    return aa if b.sgn() >= 0 else -aa


def _isnan1(x):
    x = lift(x) if not isinstance(x, Sym) else x
    return x.bad == 'nan'


def _pred(f, real):
    def g(x, *a, **k):
        if not has_sym(x):
            return real(x)
        if isinstance(x, Sym):
            return f(x)
        x = np.asarray(x, dtype=object)
        r = np.empty(x.shape, dtype=bool)
        rf = r.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            rf[i] = f(lift(v))
        r = r if r.ndim else r[()]
        return _where_kw(r, k)
    return g


def _sub_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """|a - b| <= atol + rtol*|b| as one condition."""
    if a.bad or b.bad:
        return bool(a.bad and b.bad and a.bad == b.bad and (
            equal_nan or a.bad != 'nan'))
    d = a - b
    t, r = lift(atol), lift(rtol)*b

    def le(x, y):
        return C._cond(x <= y)
    st = C.E().static(C._cond(b >= 0)) if C.E() is not None else None
    if st is True:
        c = C.c_and(le(d, t + r), le(-d, t + r))
    elif st is False:
        c = C.c_and(le(d, t - r), le(-d, t - r))
    else:
        c = C.c_and(C.c_or(le(d, t + r), le(d, t - r)),
                    C.c_or(le(-d, t + r), le(-d, t - r)))
    return _lazy(SymBool(c))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return np.isclose(a, b, rtol, atol, equal_nan)
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return _sub_isclose(lift(a), lift(b), rtol, atol, equal_nan)
    bs = np.broadcast_arrays(_obj0(a), _obj0(b))
    r = np.empty(bs[0].shape, dtype=object)
    rf = r.reshape(-1)
    for i, (x, y) in enumerate(zip(bs[0].reshape(-1), bs[1].reshape(-1))):
        rf[i] = _sub_isclose(lift(x), lift(y), rtol, atol, equal_nan)
    return _sb(r)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return np.allclose(a, b, rtol, atol, equal_nan)
    bs = np.broadcast_arrays(_obj0(a), _obj0(b))
    cs = [C._cond(_sub_isclose(lift(x), lift(y), rtol, atol, equal_nan))
          for x, y in zip(bs[0].reshape(-1), bs[1].reshape(-1))]
    return bool(SymBool(_lz_and(*cs)))


def array_equal(a, b, equal_nan=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if equal_nan and _isnan1(x) and _isnan1(y):
            continue
        if not bool(x == y):
            return False
    return True


def where(c, *xy):
    c = conc(c)
    if has_sym(c):
        c = np.frompyfunc(bool, 1, 1)(c)
        c = np.asarray(c).astype(bool) if isinstance(c, np.ndarray) else bool(c)
    if not xy:
        return np.where(c)
    if not has_sym(xy[0]) and not has_sym(xy[1]):
        return np.where(c, *xy)
    r = np.where(c, _obj0(xy[0]), _obj0(xy[1]))
    return r[()] if r.ndim == 0 else sarr(r)


def select(conds, vals, default=0):
    shape = np.broadcast_shapes(*[np.shape(c) for c in conds])
    r = full(shape, default, dtype=float)
    done = np.zeros(shape, dtype=bool)
    for c, v in zip(conds, vals):
        m = np.broadcast_to(np.asarray(conc(c), dtype=bool), shape) & ~done
        r[m] = np.broadcast_to(_obj0(v), shape)[m]
        done |= m
    return r


def mod(x, m, *a, **k):
    if not has_sym(x) and not has_sym(m):
        return np.mod(x, m, *a, **k)
    if a:
        k = dict(k, out=a[0])
    return _masked(C.mod, (x, m), k)


def _fmod(x, m):
    if x.bad or m.bad:
        return C.bad()
    if x.sgn() >= 0:
        return C.mod(x, m)
    return -C.mod(-x, m)


def _amin(a, axis=None, **k):
    return _reduce(_minimum, a, axis)


def _amax(a, axis=None, **k):
    return _reduce(_maximum, a, axis)


def _reduce(f, a, axis):
    if not has_sym(a):
        a = np.asarray(a)
    a = np.asarray(a, dtype=object)
    if axis is None:
        it = [lift(v) for v in a.reshape(-1)]
        r = it[0]
        for v in it[1:]:
            r = f(r, v)
        return r
    a = np.moveaxis(a, axis, 0)
    r = a[0]
    for b in a[1:]:
        r = _masked(f, (r, b), {})
    return r


def npsum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = conc(a)
    if not has_sym(a):
        return np.sum(a, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **k)
    a = np.asarray(a, dtype=object)
    r = np.add.reduce(a, axis=axis if axis is not None
                      else tuple(range(a.ndim)), keepdims=keepdims)
    if isinstance(r, np.ndarray):
        r = sarr(r)
    else:
        r = lift(r)
    if out is not None:
        out[...] = r
        return out
    return r


# --------------------------------------------------------------------- linalg
def norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(x, ord, axis, keepdims)
    if ord not in (None, 2):
        raise Unsupported(f'norm ord={ord}')
    x = np.asarray(x, dtype=object)
    s = npsum(x*x, axis=axis, keepdims=keepdims)
    return _masked(C.sqrt, (s,), {})


def det(a):
    a = np.asarray(a, dtype=object)
    if a.shape == (2, 2):
        return a[0, 0]*a[1, 1] - a[0, 1]*a[1, 0]
    if a.shape == (3, 3):
        return (a[0, 0]*(a[1, 1]*a[2, 2] - a[1, 2]*a[2, 1])
                - a[0, 1]*(a[1, 0]*a[2, 2] - a[1, 2]*a[2, 0])
                + a[0, 2]*(a[1, 0]*a[2, 1] - a[1, 1]*a[2, 0]))
    raise Unsupported('det')


def inv(a):
    a = np.asarray(a, dtype=object)
    n = a.shape[-1]
    if a.shape not in ((2, 2), (3, 3)):
        raise Unsupported('inv')
    d = det(a)
    if d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, i, 0), j, 1)
            r[j, i] = (-1)**(i + j)*(m[0, 0] if n == 2 else det(m))/d
    return r.view(SArr)


def solve(a, b):
    return inv(a) @ np.asarray(b, dtype=object).view(SArr)


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if not has_sym(a) and not has_sym(b):
        return np.cross(a, b, axisa, axisb, axisc, axis)
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(np.asarray(a, dtype=object), axisa, 0)
    b = np.moveaxis(np.asarray(b, dtype=object), axisb, 0)
    if a.shape[0] != 3 or b.shape[0] != 3:
        raise Unsupported('cross of non 3-vectors')
    r = [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]]
    r = [np.asarray(v, dtype=object) if isinstance(v, np.ndarray) else _obj0(v)
         for v in r]
    res = np.empty((3,) + r[0].shape, dtype=object)
    for i in range(3):
        res[i] = r[i] if r[i].ndim else r[i][()]
    if res.ndim > 1:
        res = np.moveaxis(res, 0, axisc)
    return sarr(res)


def einsum(spec, *ops, **k):
    if not any(has_sym(o) for o in ops):
        return np.einsum(spec, *ops, **k)
    k.pop('optimize', None)
    r = np.einsum(spec, *[np.asarray(o, dtype=object) for o in ops],
                  optimize=False, **k)
    return sarr(r) if isinstance(r, np.ndarray) and r.ndim else lift(r)


class nditer:
    """One-operand (or tuple) iteration over 0-d views."""

    def __init__(self, op, flags=(), op_flags=(), op_dtypes=None, order='K',
                 casting='safe', **k):
        self.multi = isinstance(op, (list, tuple))
        ops = list(op) if self.multi else [op]
        ops = [zeros(np.shape(ops[0])) if o is None else np.asarray(o)
               if not isinstance(o, np.ndarray) else o for o in ops]
        shape = np.broadcast_shapes(*[o.shape for o in ops])
        self.operands = tuple(ops)
        self.ops = [o if o.shape == shape else np.broadcast_to(o, shape)
                    for o in ops]
        self.shape = shape
        # numpy visits the entries in the order of the memory layout
        it = np.nditer([o.view(np.ndarray) for o in ops],
                       flags=['multi_index', 'refs_ok', 'zerosize_ok'],
                       op_flags=[['readonly']]*len(ops), order=order)
        self.idx = []
        while not it.finished:
            self.idx.append(it.multi_index)
            it.iternext()
        self.k = 0
        self.itersize = len(self.idx)

    def _view(self, o, ix):
        return o[tuple(slice(i, i + 1) for i in ix)].reshape(())

    def __iter__(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def reset(self):
        self.k = 0

    def _cur(self, k):
        vs = tuple(self._view(o, self.idx[k]) for o in self.ops)
        return vs if self.multi else vs[0]

    def __next__(self):
        if self.k >= len(self.idx):
            raise StopIteration
        r = self._cur(self.k)
        self.k += 1
        return r

    @property
    def finished(self):
        return self.k >= len(self.idx)

    def iternext(self):
        self.k += 1
        return self.k < len(self.idx)

    @property
    def value(self):
        return self._cur(self.k)

    def __getitem__(self, i):
        return self._view(self.ops[i], self.idx[self.k])

    def __setitem__(self, i, v):
        self._view(self.ops[i], self.idx[self.k])[...] = v

    @property
    def multi_index(self):
        return self.idx[self.k]

    @property
    def index(self):
        return self.k


class vectorize:
    def __init__(self, f, otypes=None, excluded=None, **k):
        self.f = f

    def __call__(self, *a, **k):
        if k:
            raise Unsupported('vectorize with keywords')
        return _masked(self.f, a, {})


def isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def iscomplexobj(x):
    return False


def nan_to_num(x, nan=0.0, **k):
    return _masked(lambda v: lift(nan) if v.bad else v, (x,), {})


def issubdtype(a, b):
    if a is FloatProxy:
        a = float
    if b is FloatProxy:
        b = float
    try:
        if np.dtype(a) == object and (b in (float, np.floating, np.inexact,
                                            np.number, np.float64)):
            return True
    except TypeError:
        pass
    return np.issubdtype(a, b)


class errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def floor_divide(a, b, **k):
    return _masked(lambda x, y: (x - C.mod(x, y))/y, (a, b), k)


def _power(a, b):
    return a**b


def polyval(p, x):
    r = 0
    for c in p:
        r = r*x + c
    return r


def piecewise(x, conds, funcs, *a, **k):
    out = zeros(np.shape(x))
    done = np.zeros(np.shape(x), dtype=bool)
    for i, f in enumerate(funcs):
        m = np.asarray(conc(conds[i]), dtype=bool) if i < len(conds) else ~done
        done |= m
        out[m] = f(x[m], *a, **k) if callable(f) else f
    return out


def put_along(*a, **k):
    raise Unsupported('put_along_axis')


_UN = dict(sin=C.sin, cos=C.cos, tan=C.tan, arcsin=C.arcsin, arccos=C.arccos,
           arctan=C.arctan, sinh=C.sinh, cosh=C.cosh, tanh=C.tanh,
           arctanh=C.arctanh, sqrt=C.sqrt, cbrt=C.cbrt, radians=C.radians,
           deg2rad=C.radians, degrees=C.degrees, rad2deg=C.degrees,
           exp=lambda x: x.exp(), log=lambda x: x.log(),
           square=lambda x: x*x, absolute=abs, fabs=abs, sign=_sign,
           negative=lambda x: -x, positive=lambda x: x,
           floor=C.floor, ceil=C.ceil, trunc=C.trunc, rint=C.rint,
           fix=C.trunc, reciprocal=lambda x: 1/x)
def _heaviside(x, h):
    if x.bad:
        return C.bad()
    s = x.sgn()
    return h if s == 0 else Sym(C.P.pconst(1 if s > 0 else 0))


_BI = dict(arctan2=C.arctan2, heaviside=_heaviside, hypot=_hypot, minimum=_minimum,
           maximum=_maximum, fmin=_fmin, fmax=_fmax, copysign=_copysign,
           power=_power, float_power=_power, fmod=_fmod,
           add=lambda a, b: a + b, subtract=lambda a, b: a - b,
           multiply=lambda a, b: a*b, divide=lambda a, b: a/b,
           true_divide=lambda a, b: a/b)

def _cmpf(op, real):
    def f(a, b, *o, **k):
        if not has_sym(a) and not has_sym(b):
            return real(a, b, *o, **k)
        if not isinstance(a, np.ndarray):
            a = _obj0(lift(a))
        r = np.asarray(a, dtype=object).view(SArr)._cmp(b, op)
        return _where_kw(r, k)
    return f


_OPAQUE = ('arcsinh', 'arccosh', 'log10', 'log2', 'log1p', 'expm1', 'exp2',
           'sinc', 'nextafter', 'spacing')


def _round(x, decimals=0, out=None):
    if not has_sym(x) and C.E() is None:
        return np.round(x, decimals, out)
    return _masked(C.rint if decimals == 0 else
                   lambda v: C.opaque('round', v, lift(decimals)), (x,),
                   {} if out is None else {'out': out})


def _plain(f, real):
    def g(*a):
        return (f if any(has_sym(x) for x in a) else real)(*a)
    return g


class _LinAlg:
    norm = staticmethod(norm)
    det = staticmethod(det)
    cross = staticmethod(cross)
    inv = staticmethod(_plain(inv, np.linalg.inv))
    solve = staticmethod(_plain(solve, np.linalg.solve))
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, k):
        def f(*a, **kw):
            if any(has_sym(x) for x in a):
                raise Unsupported(f'linalg.{k}')
            return getattr(np.linalg, k)(*a, **kw)
        return f


class Shim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        for n in ('empty', 'zeros', 'ones', 'full', 'empty_like', 'zeros_like',
                  'ones_like', 'full_like', 'array', 'asarray', 'copy',
                  'atleast_1d', 'atleast_2d', 'isclose', 'allclose',
                  'array_equal', 'where', 'select', 'mod', 'cross', 'einsum',
                  'nditer', 'vectorize', 'isscalar', 'iscomplexobj',
                  'nan_to_num', 'issubdtype', 'errstate', 'floor_divide',
                  'polyval', 'piecewise'):
            d[n] = globals()[n]
        d['asanyarray'] = asarray
        d['ascontiguousarray'] = asarray
        d['remainder'] = mod
        d['clip'] = _clip
        d['sum'] = npsum
        d['amin'] = d['min'] = _amin
        d['amax'] = d['max'] = _amax
        d['linalg'] = _LinAlg()
        d['isnan'] = _pred(_isnan1, np.isnan)
        d['isfinite'] = _pred(lambda x: not x.bad, np.isfinite)
        d['isinf'] = _pred(lambda x: x.bad == 'inf', np.isinf)
        d['signbit'] = _pred(lambda x: bool(x < 0), np.signbit)
        for n, f in _UN.items():
            d[n] = _u(f, getattr(np, n))
        d['abs'] = d['absolute']
        for n, f in _BI.items():
            d[n] = _b(f, getattr(np, n))
        d['round'] = d['around'] = _round
        d['divmod'] = lambda a, b: (d['floor_divide'](a, b), mod(a, b))
        for n in ('logical_and', 'logical_or', 'logical_xor'):
            d[n] = _ufunc(globals()[n])
        for n, op in (('less', '__lt__'), ('less_equal', '__le__'),
                      ('greater', '__gt__'), ('greater_equal', '__ge__'),
                      ('equal', '__eq__'), ('not_equal', '__ne__')):
            d[n] = _cmpf(op, getattr(np, n))
        d['bitwise_and'] = d['logical_and']
        d['bitwise_or'] = d['logical_or']
        d['logical_not'] = d['bitwise_not'] = d['invert'] = logical_not
        d['any'] = npany
        d['all'] = npall
        for a, b in (('atan2', 'arctan2'), ('acos', 'arccos'),
                     ('asin', 'arcsin'), ('atan', 'arctan'),
                     ('atanh', 'arctanh'), ('pow', 'power')):
            d[a] = d[b]

        def opaque(n):
            def f(x, *a, **k):
                if has_sym(x) or C.E() is not None:
                    return _masked(lambda v: C.opaque(n, v), (x,), k)
                return getattr(np, n)(x, *a, **k)
            return f
        for n in _OPAQUE:
            d[n] = opaque(n)

    def __getattr__(self, k):
        f = getattr(np, k)
        if callable(f) and not isinstance(f, type):
            def g(*a, **kw):
                try:
                    r = f(*[_conc_arg(x) for x in a],
                          **{n: _conc_arg(x) for n, x in kw.items()})
                except TypeError as ex:
                    if ("dtype('O')" in str(ex) or 'ufunc' in str(ex)) and \
                            any(has_sym(x) for x in a):
                        raise Unsupported(f'np.{k}')
                    raise
                return r.view(SArr) if type(r) is np.ndarray and r.ndim \
                    and k not in ('shape',) else r
            g.__name__ = k
            return g
        return f


def _conc_arg(x):
    if isinstance(x, (SBArr, SymBool)):
        return conc(x)
    if isinstance(x, (list, tuple)) and any(isinstance(v, (SBArr, SymBool))
                                            for v in x):
        return type(x)(_conc_arg(v) for v in x)
    return x


shim = Shim()


# ----------------------------------------------------------------------- math
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        d = self.__dict__
        for n, f in dict(sin='sin', cos='cos', tan='tan', asin='arcsin',
                         acos='arccos', atan='arctan', sinh='sinh',
                         cosh='cosh', tanh='tanh', atanh='arctanh',
                         sqrt='sqrt', cbrt='cbrt', radians='radians',
                         degrees='degrees', exp='exp', log='log',
                         fabs='absolute', floor='floor', asinh='arcsinh',
                         acosh='arccosh', ceil='ceil', log10='log10').items():
            d[n] = getattr(shim, f)
        d['atan2'] = shim.arctan2
        d['hypot'] = shim.hypot
        d['fmod'] = shim.fmod
        d['pow'] = shim.power
        d['trunc'] = shim.trunc
        d['copysign'] = shim.copysign
        d['isnan'] = shim.isnan
        d['isfinite'] = shim.isfinite
        d['isinf'] = shim.isinf
        d['isclose'] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
            bool(abs(lift(a) - lift(b)) <= _maximum(
                lift(rel_tol)*_maximum(abs(lift(a)), abs(lift(b))),
                lift(abs_tol))))

    def __getattr__(self, k):
        return getattr(_math, k)


math_shim = MathShim()
