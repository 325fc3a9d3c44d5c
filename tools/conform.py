#!/usr/bin/env python3
"""Compares the array layer of the symbolic execution with numpy.

Every snippet is run with numpy on numbers and with the array layer on
constants of the symbolic domain; result, type class (array or number), shape
and the arguments afterwards have to agree.  A development aid, no check.
"""
import os
import sys

B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, B)
import numpy as np                                            # noqa: E402
from symx import core as C, loader, shim as S                 # noqa: E402

SNIPPETS = '''
a += x
a -= x
a *= x
a /= x
a += b
a[1:] *= x; a[0] /= x
c[1] += a
c[:, 1] -= x
c[0:2, :] *= a
c *= a; c += x; c -= a[None, :]
t = a; t += 1
t = a[:2]; t *= x
t = a[[0, 1]]; t *= x
t = c[1]; t -= x; t = t + 1
t = c.T; t[0, 1] = x
t = c.reshape(9); t[3] = x
t = c.copy(); t[0] = x
t = c.ravel(); t[0] = x
t = c.flatten(); t[0] = x
t = np.array(c); t[0] = x
t = np.asarray(c); t[0] = x
t = np.asanyarray(a); t[0] = x
t = np.array(a, copy=True); t[0] = x
t = np.copy(a); t[0] = x
t = np.squeeze(a[None, :]); t[0] = x
t = np.atleast_1d(x)
t = np.atleast_2d(a); t[0, 0] = 7
t = np.atleast_1d(a); t[0] = 7
t = np.ravel(c); t[1] = 5
t = np.reshape(a, (3, 1)); t[0, 0] = x
t = np.broadcast_to(x, (3,)); t = t + a
t = np.expand_dims(a, 0); t[0, 1] = x
t = a.view(); t[2] = x
t = np.where(a > 1, a, b)
t = np.where(a > 1, x, 0)
t = np.where(a > 1)[0]
t = a[a > 1]
a[a > 1] = x
a[a > 1] *= -1
a[np.logical_and(a > 1, b > 0)] = b[np.logical_and(a > 1, b > 0)]
c[:, a > 1] = x
c[1, a > 1] = b[a > 1]
c[:, a > 1] = c[:, a > 1]*x
t = np.maximum(a, x)
t = np.minimum(a, b)
t = np.clip(a, 0.5, 1.5)
np.clip(a, 0.5, 1.5, out=a)
t = a.clip(0.5, 1.5)
t = np.abs(-a)
np.abs(d, out=d)
np.multiply(a, x, out=a)
np.add(a, b, out=b)
np.subtract(a, b, out=a)
np.negative(a, out=a)
np.sqrt(a, out=a)
np.square(a, out=a)
np.divide(a, b, out=a, where=b > 1)
np.copyto(a, b)
np.copyto(a, x, where=b > 1)
np.putmask(a, b > 1, b)
np.place(a, a > 1, [x])
a.fill(x)
a[:] = x
a[...] = b
c[...] = a
c[:] = a[:, None]
t = np.sum(c, axis=0)
t = np.sum(c, axis=1)
t = np.sum(c)
t = c.sum(axis=0)
t = np.sum(a*b)
t = np.dot(a, b)
t = a @ b
t = c @ a
t = c.dot(a)
t = np.dot(c, a)
t = np.matmul(c, c)
t = c @ c.T
t = np.einsum('i,i->', a, b)
t = np.einsum('ij,j->i', c, a)
t = np.einsum('ij,ij->j', c, c)
t = np.einsum('ijk,jk->ik', np.stack([c, c], axis=2), c[:, :2])
t = np.inner(a, b)
t = np.outer(a, b)
t = np.cross(a, b)
t = np.cross(c, c[:, ::-1], axis=0)
t = np.cross(c, c[:, ::-1], axisa=0, axisb=0, axisc=0)
t = np.cross(a, c[:, ::-1].T)
t = np.linalg.norm(a)
t = np.linalg.norm(c, axis=0)
t = np.linalg.norm(c, axis=1)
t = np.hypot(a, b)
t = np.vdot(a, b)
t = np.prod(a)
t = np.cumsum(a)
t = np.mean(a)
t = np.mean(c, axis=0)
t = np.max(a)
t = np.min(c)
t = np.max(c, axis=0)
t = a.max()
t = c.min(axis=1)
t = np.argmax(a)
t = np.argmin(a)
t = np.argsort(a)
t = np.sort(d)
t = np.any(a > 1)
t = np.all(a > 1)
t = (a > 1).any()
t = np.any(c > 1, axis=0)
t = np.count_nonzero(a > 1)
t = np.sum(a > 1)
t = np.flatnonzero(a > 1)
t = np.nonzero(a > 1)
t = np.argwhere(a > 1)
t = ~(a > 1)
t = (a > 1) & (b > 0)
t = (a > 1) | (b < 0)
t = (a > 1) ^ (b > 0)
t = np.logical_not(a > 1)
t = np.isnan(a)
t = np.isfinite(a)
t = np.isclose(a, b)
t = np.allclose(a, a)
t = np.array_equal(a, b)
t = np.mod(d, x)
t = d % x
t = np.remainder(d, 2.0)
t = np.fmod(d, 2.0)
t = np.floor(d)
t = d // 2.0
t = np.divmod(d, 2.0)
t = np.sign(d)
t = np.copysign(a, d)
t = np.heaviside(d, 0.5)
t = np.zeros((2, 3)); t[0] = a
t = np.zeros(3, dtype=np.float64); t[1] = x
t = np.ones(3)*x
t = np.empty(3); t[:] = x
t = np.full(3, x)
t = np.full((3,), x, dtype=np.float64)
t = np.full_like(a, x)
t = np.zeros_like(a)
t = np.ones_like(c)*x
t = np.empty_like(a); t[:] = b
t = np.array([x, 1.0, 2])
t = np.array([a, b])
t = np.array([[x, 1], [2, x]])
t = np.stack([a, b])
t = np.stack([a, b], axis=1)
t = np.vstack([a, b])
t = np.hstack([a, b])
t = np.column_stack([a, b])
t = np.concatenate([a, b])
t = np.concatenate([c, a[:, None]], axis=1)
t = np.append(a, x)
t = np.append(c, c, axis=1)
t = np.delete(a, 1)
t = np.delete(c, [0, 2], axis=1)
t = np.insert(a, 1, x)
t = np.tile(a, 2)
t = np.repeat(a, 2)
t = np.roll(a, 1)
t = np.flip(a)
t = a[::-1]
t = np.moveaxis(np.stack([c, c]), 0, -1)
t = np.swapaxes(c, 0, 1)
t = np.transpose(c)
t = np.split(np.append(a, x), 2)
t = np.diag(c)
t = np.trace(c)
t = np.eye(3)*x
t = np.identity(3) @ c
t = np.take(a, [0, 2])
t = np.take(c, 1, axis=0)
t = np.choose([0, 1, 0], [a, b])
t = np.select([a > 2, a > 1], [a, b], default=0)
t = np.piecewise(a, [a > 1, a <= 1], [lambda v: v*2, lambda v: v + 1])
t = np.vectorize(lambda v: v*2)(a)
t = np.apply_along_axis(lambda v: v*2, 0, c)
t = np.diff(a)
t = np.polyval([1, 2, 3], x)
t = np.interp(0.5, [0.0, 1.0], [0.0, 2.0])
t = np.square(a)
t = np.power(a, 2)
t = a**2
t = a**3.0
t = a**-1
t = np.reciprocal(a)
t = np.cbrt(a*a*a)
t = x**2 + 2*x - 1
t = -a
t = +a
t = abs(d)
t = round(x)
t = np.round(d)
t = np.rint(d)
t = np.rint(d*2)
t = np.ceil(d)
t = np.trunc(d)
t = np.floor(d)
t = d.round()
t = np.fix(d)
t = np.minimum.reduce(c)
t = np.add.accumulate(c)
t = np.add.reduce(c, axis=None)
t = np.add.reduce(c, axis=1, keepdims=True)
t = np.maximum.accumulate(a)
t = np.multiply.reduce(a)
t = np.prod(a)
t = np.cumsum(a)
t = np.cumprod(a)
t = 2 % a
t = 7.5 // a
t = x // a
t = x % a
t = divmod(7.5, x)
t = divmod(x, 2)
t = np.ptp(a)
t = np.mean(c, axis=0)
t = np.average(a)
t = np.diff(a)
t = np.trace(c)
t = np.diag(c)
t = np.outer(a, b)
t = np.inner(a, b)
t = np.vdot(a, b)
t = np.tensordot(c, a, 1)
t = np.kron(a, b)
t = np.triu(c)
t = np.flip(a)
t = np.roll(a, 1)
t = np.tile(a, 2)
t = np.repeat(a, 2)
t = np.sort(b)
t = np.argsort(b)
t = np.argmax(b)
t = np.argmin(b)
t = b.argmin()
t = np.count_nonzero(b > 0)
t = np.flatnonzero(b > 0)
t = np.nonzero(b > 0)[0]
t = np.argwhere(b > 0)
t = np.interp(1.2, a, b)
t = np.searchsorted(a, 1.2)
t = np.unwrap(a)
t = np.nan_to_num(a)
t = np.nansum(a)
t = np.nanmax(a)
t = np.isin(a, [0.5])
t = np.in1d(a, [0.5]) if hasattr(np, 'in1d') else None
t = np.unique(b)
t = np.linalg.inv(c)
t = np.linalg.solve(c, a)
t = np.linalg.det(c)
t = np.swapaxes(c, 0, 1)
t = np.moveaxis(c, 0, 1)
t = np.rollaxis(c, 1)
t = np.column_stack([a, b])
t = np.row_stack([a, b]) if hasattr(np, 'row_stack') else None
t = np.dstack([a, b])
t = np.hstack([a, b])
t = np.block([[c, c]])
t = np.append(a, x)
t = np.insert(a, 1, x)
t = np.delete(a, 1)
t = np.delete(c, 1, axis=1)
t = np.resize(a, (2, 3))
t = np.pad(a, 1)
t = np.take(a, [2, 0])
np.put(a, [1], x)
np.copyto(a, b)
np.copyto(a, b, where=b > 0)
np.place(a, a > 1, [x])
np.putmask(a, a > 1, b)
t = np.choose([0, 1, 0], [a, b])
t = np.compress(a > 1, b)
t = np.extract(a > 1, b)
t = np.fromiter((v for v in a), dtype=float)
t = np.array([v for v in a], dtype=np.float64)
t = np.stack([a, b], axis=-1)
t = np.full(3, x)
t = np.full_like(a, x)
t = np.linspace(0, 1, 5)*x
t = np.arange(3)*x
t = np.eye(3)*x
t = np.identity(3) @ a
t = np.ones(3)*x
t = np.zeros_like(c) + a
t = np.empty_like(a); t[:] = x
t = np.array([x, 1.0, 2])
t = np.array([[x, 1.0], [2, 3]])
t = np.ndim(a)
t = np.shape(c)
t = np.size(c)
t = len(c)
t = a.tolist()
t = list(a)
t = [float(v) for v in a]
t = a.item(1)
t = a.take([0, 2])
t = a.dot(b)
t = c.diagonal()
t = c.trace()
t = c.sum(axis=1)
t = c.prod()
t = c.mean()
t = c.cumsum(axis=0)
t = (a > 1).astype(float)
t = (a > 1)*1.0
t = (a > 1).sum()
t = np.sum(a > 1)
t = ~(a > 1)
t = (a > 1) & (b > 0)
t = (a > 1) | (b > 0)
t = (a > 1) ^ (b > 0)
t = np.any(c > 4, axis=0)
t = np.all(c > -3)
t = bool((a > 1).any())
t = np.all(a == a)
t = np.array_equal(a, b)
t = np.allclose(a, a + 1e-12)
t = np.isclose(a, b)
t = max(a)
t = min(a)
t = sum(a)
t = sorted(b)[0]
t = abs(b)
t = -b
t = +b
t = b**2
t = a**0.5
t = a**-1
t = 1/a
t = x/a
t = a/x
t = x - a
t = x*c
t = c @ a
t = a @ c
t = c @ c
t = a @ b
t = x > a
t = a >= x
t = x == a
t = a != x
t = x in a
t = np.float64(x)
t = float(x)
t = np.float64(a[0])*2
t = int(x)
t = np.asarray(x); t = t + 1
t = np.asarray(a, dtype=float)*2
t = np.array(x)[()]
t = np.array(x).ndim
t = a[::-1]
t = a[[True, False, True]]
t = c[np.ix_([0, 1], [1, 2])]
t = c[[0, 1], [1, 2]]
t = c[..., 0]
t = c[-1]
t = a[None]
t = a[:, np.newaxis] * b
a[:] = 0
a[:] = b
a[0:2] = [x, 1]
c[:, 0] = a
c[...] = x
a[0], a[1] = a[1], a[0]
t = [u + v for u, v in zip(a, b)]
for i in range(3): a[i] += b[i]
for r in c: r += x
for r in c: r[0] = x
for v in np.nditer(a): t = v
for i, v in enumerate(a): b[i] = v
t = float(x)
t = np.float64(x)
t = np.float64(x) + a
t = a.tolist()
t = a.item(1)
t = a[1].item()
t = list(a)
t = [v*2 for v in a]
t = [v.sum() for v in c]
t = len(a), a.size, a.ndim, a.shape, c.shape
t = np.size(a), np.ndim(c), np.shape(c)
t = np.isscalar(x)
t = isinstance(a, np.ndarray), isinstance(x, np.ndarray)
t = a.astype(np.float64); t[0] = x
t = a.astype(float, copy=False)
t = np.nan_to_num(a)
t = np.broadcast_arrays(a, x)[1]
t = np.meshgrid(a, b)[0]
t = np.ix_([0, 1], [1, 2]); t = c[t]
t = c[[0, 1], [1, 2]]
t = c[:, [0, 2]]
t = c[np.array([True, False, True])]
t = c[..., 0]
t = c[1, ...]
t = c[:, None, :].shape
t = a[None] + b[:, None]
t = a[np.newaxis, :]*c
t = np.triu(c)
t = np.ptp(a)
t = np.allclose(np.asarray(a), b)
t = np.lexsort((a, b))
t = np.unique(a)
t = np.linalg.det(c)
t = np.outer(a, b)[0]
t = np.kron(a, b)
t = np.add.reduce(c)
t = np.multiply.outer(a, b)
t = np.logical_or(a > 1, b > 1)
t = np.logical_and.reduce([a > 1, b > 0])
t = np.not_equal(a, b)
t = np.equal(a, 1.5)
t = a == b
t = a != b
t = (a <= b).all()
t = max(x, 1.0)
t = min(a)
t = sum(a)
t = sorted(a)
t = x if x > 1 else -x
t = bool(a[0] > 1)
t = a[0] and b[0]
t = np.radians(a*0)
t = np.degrees(a*0)
t = np.sin(a*0)
t = np.cos(a*0)
t = np.arctan2(a*0, a)
t = np.exp(a*0)
t = np.log(a/a)
t = np.tan(a*0)
t = np.arccos(a/a)
t = np.sinh(a*0), np.cosh(a*0), np.tanh(a*0)
'''


def data(sym):
    def mk(v):
        v = np.array(v)
        if not sym:
            return v
        o = np.empty(v.shape, dtype=object)
        for k, z in enumerate(v.reshape(-1)):
            o.reshape(-1)[k] = C.lift(float(z))
        return o.view(S.SArr)
    d = dict(a=mk([0.5, 1.5, 2.5]), b=mk([2.0, -1.0, 3.0]),
             c=mk([[1., 2, 4], [0.5, -1, 3], [2, 2.5, 5]]),
             d=mk([-1.5, 0.25, 4.0]))
    d['x'] = C.lift(1.25) if sym else np.float64(1.25)
    return d


def norm(v):
    if isinstance(v, (tuple, list)):
        return type(v).__name__, [norm(z) for z in v]
    if isinstance(v, np.ndarray):
        return 'array', v.shape, [num(z) for z in
                                  np.asarray(v, dtype=object).reshape(-1)]
    return 'number', num(v)


def num(z):
    if isinstance(z, C.Sym):
        if z.bad:
            return 'bad'
        return round(float(C.Evalf(C.E(), {}).rat(z)), 9)
    if isinstance(z, (bool, np.bool_)):
        return bool(z)
    if isinstance(z, (int, float, np.number)):
        return round(float(z), 9)
    return bool(z)


def main():
    knp = loader._import('numpy') if hasattr(loader, '_import') else None
    bad = 0
    n = 0
    for line in SNIPPETS.strip().split('\n'):
        n += 1
        out = []
        for sym in (False, True):
            env = data(sym)
            ids = {k: env[k] for k in 'abcd'}
            ns = dict(env, np=knp if sym else np, t=None)
            if sym:
                ns['float'] = S.FloatProxy
                eng = C.Engine([])
                C._Cur.eng = eng
            try:
                exec(line, ns)
                r = norm(ns['t']), {k: norm(ids[k]) for k in 'abcd'}, \
                    {k: norm(ns[k]) for k in 'abcd'}
            except C.Unsupported as ex:
                print('   unsupported:', line)
                out[0:] = [0, 0]
                break
            except Exception as ex:
                r = f'{type(ex).__name__}: {ex}'[:150]
            out.append(r)
        if out[0] != out[1]:
            bad += 1
            print(f'-- {line}')
            if isinstance(out[1], str) or isinstance(out[0], str):
                print('   ', out[0] if isinstance(out[0], str) else 'fine',
                      '|', out[1] if isinstance(out[1], str) else 'fine')
            else:
                for p, q, w in zip(out[0], out[1], ('t', 'arg', 'name')):
                    if p != q:
                        print(f'    {w}: {p} | {q}')
    print(f'{n} snippets, {bad} differ')


if __name__ == '__main__':
    main()
