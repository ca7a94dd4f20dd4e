#!/usr/bin/env python3
"""Engine against CPython and numpy:  python3-vt tools/conform.py [filter]

Every program below is executed once by the engine over symbolic arrays, numbers
and lists of symbolic length; the resulting terms (one per path) are evaluated at
sampled values and compared with what CPython and numpy compute for these values:
value, shape, kind of the elements, exceptions and changes of the inputs.
Not part of any check; it tests the semantics the checks trust."""
import ast
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from pyvc import terms as T
from pyvc.values import *
from pyvc.loops import unl
from pyvc.numeric import Env, NoValue
from pyvc.terms import CTX
from pyvc.unit import U

HEAD = 'import numpy as np\nimport copy\n'
DIMS = dict(n=(1, 2, 3), m=(1, 2, 3), k=(1, 2), p=(0, 1, 3))

# inputs: name -> (kind of elements, dimensions); '' for a number, l for a list of numbers,
# L for a list of matrices, i for an integer in 0..2, x for indices below n
A = dict(a=('c', 'nm'), b=('c', 'mk'), s=('c', 'nn'), t=('c', 'nn'), v=('r', 'n'), w=('r', 'n'),
         r=('r', 'nm'), q=('r', 'nmk'), z=('c', ''), y=('r', ''), l=('l', 'n'), g=('L', 'pn'),
         x=('x', 'p'), e=('x2', 'p'), i=('i', ''), d=('r', 'p'), h=('L', 'pn'))
PROGRAMS = '''
a @ b
s.dot(t) + s @ t * 2
a.conj().T
np.conjugate(np.transpose(a))
np.trace(s) + s.trace()
np.kron(s, t)
np.kron(a, b)
np.einsum('ij,jk->ki', a, b)
np.einsum('ij,jk', a, b)
np.einsum('ijk,jk->ik', q, q[0])
np.einsum('i,ij->ij', v, r)
np.einsum('ab, a -> ab', r, v)
np.einsum('ii', s)
np.einsum('ii->i', s)
a.reshape(-1)
a.T.flatten()
a.T.reshape([a.size, 1])
q.reshape((q.shape[0], q.shape[1] * q.shape[2]))
q.transpose([1, 2, 0]).reshape((q.shape[1], q.shape[2] * q.shape[0]))
np.moveaxis(q, 0, 2).reshape((q.shape[1], -1))
v.reshape((1, -1)) * r.T
np.repeat(r, 3, axis=0)
np.repeat(v, 2)
np.repeat(v, 2) / 2
np.tile(v, 2)
np.tile(r, (2, 1))
np.concatenate((v, w))
np.concatenate((np.zeros((2, r.shape[1])), r, r), axis=0)
np.concatenate([r, r * 2], axis=1)
np.stack([v, w])
np.stack((v, w), axis=1)
np.vstack((v, w))
np.hstack((v, w))
np.outer(v, w)
np.diag(v)
np.diag(s)
np.eye(len(v))
np.identity(len(v)) * 2
np.ones_like(r) + np.zeros((r.shape))
np.zeros_like(s, dtype=float)
np.full((2, len(v)), 3.)
np.arange(len(v)) * v
np.arange(2, len(v) + 2)
np.linspace(0, 1, len(v) + 1)
np.sum(r)
np.sum(r, axis=0)
np.sum(q, axis=1)
np.sum(q, axis=(0, 2))
r.sum(axis=-1, keepdims=True)
np.mean(r, axis=1)
np.mean(q)
np.prod(v)
np.cumsum(v)
np.diff(np.cumsum(v)) if len(v) > 1 else v
np.max(v)
np.argmin(v)
np.abs(a)
np.abs(a) ** 2
a.real ** 2 + a.imag ** 2
np.angle(z)
np.exp(1j * v)
np.sqrt(np.abs(v))
np.linalg.norm(v)
np.linalg.norm(a)
np.linalg.norm(r, axis=1)
np.clip(r, -.3, .3)
np.where(r > 0, r, 2 * r)
np.minimum(v, w) + np.maximum(v, w)
np.all(v > -5)
np.any(v > 5)
np.isclose(v, v + 1e-12)
np.array_equal(v, w)
np.expand_dims(r, axis=1)
np.expand_dims(v, 0)
np.squeeze(np.expand_dims(v, 0))
np.atleast_1d(np.squeeze(v))
np.swapaxes(q, 0, 2)
np.flip(v)
v[::-1]
v[:-1]
v[1:]
v[-1] + v[0]
r[:, -1]
r[-1]
r[::-1, 0]
q[:, 0, :]
q[..., 0]
v[np.newaxis, :] * w[:, None]
s[np.ix_([0], [0])]
v[x]
r[x]
r[x, 0]
s[np.ix_(x, x)]
s[x][:, x]
r[:, [0, 0]]
np.trace(np.reshape(np.kron(s, t), (s.shape[0], t.shape[0]) * 2), axis1=0, axis2=2)
[u * 2 for u in l]
[u for u in l][::-1]
sum(l)
sum(u ** 2 for u in l)
[u for u in zip(l, v)]
[(k, u) for k, u in enumerate(l)]
len(l) * [1]
l + l
list(reversed(l))
l[-1]
l[1:]
max(len(l), 2)
np.asarray(l) + v
np.array([l, l])
np.array([u @ s for u in g]) if g else None
[u.conj().T for u in g]
g[0] if g else s
copy.deepcopy(g)
list(g)
i % 3 + i // 2
i if i > 1 else -i
(i == 0) + (i != 1)
z * 1j + y
abs(z) + abs(y)
z.conjugate() * z
complex(z).real
float(y) + int(2.7) + round(2.6)
y if y > 0 else -y
max(y, 0)
min(y, 1, i)
y / 3 + 1 / 4
y ** 2 + y ** -1
'%d' % i
isinstance(v, np.ndarray) and not isinstance(l, tuple)
a.shape + (a.size, a.ndim)
len(q) * q.shape[2]
np.ndim(q) + np.size(r)
np.std(v)
np.std(r, axis=0)
np.std(r, axis=1, ddof=1) if r.shape[1] > 1 else r
np.var(q, axis=(0, 1))
np.var(v, ddof=1) if len(v) > 1 else v
np.min(r, axis=0)
np.max(r)
np.argmax(v)
np.argmin(r)
np.allclose(v, v + 1e-12)
np.array_equal(v, v) and not np.array_equal(v, v + 1)
np.empty((0, 3))
np.empty_like(v).shape + np.ones_like(v).shape
np.full(v.shape, y) + v
np.full((2, 2), 1j)
np.cumsum(r, axis=1)
np.diff(r, axis=0)
np.diff(v, prepend=0)
np.diff(v, n=1)
np.concatenate((v[:1], v, v[-1:]))
np.concatenate([[1.], v, [2., 3.]])
np.concatenate(l and [v, v] or [w])
np.stack([r, r], axis=-1)
np.stack([u for u in g]) if len(g) else 0
np.concatenate([u for u in g]) if len(g) else 0
np.concatenate([u[:, None] for u in g], axis=1) if len(g) else 0
np.concatenate([u[:1] for u in g], axis=0) if len(g) else 0
np.concatenate([u for u in q], axis=-1)
np.hstack([u for u in r])
np.expand_dims(q, -1)
np.squeeze(q[:1], axis=0)
np.atleast_2d(v)
np.atleast_2d(v).T @ np.atleast_2d(w)
np.tile(r, 2)
np.tile(s, (2, 2))
np.matmul(q, q.transpose(0, 2, 1))
np.dot(v, w)
np.dot(s, t)
np.dot(r, r.T)
np.divide(v, 2)
np.divide(r, y)
np.where(v > 0, v, -w)
np.where(v > 0)[0].ndim
np.maximum(r, 0)
np.clip(v, None, 0.2)
np.reshape(r, (-1, 1))
np.reshape(q, (q.shape[0] * q.shape[1], -1))
np.transpose(q, (2, 0, 1))
np.transpose(q)
np.swapaxes(r, 0, 1)
np.moveaxis(q, [0, 1], [1, 2])
np.flip(r, axis=1)
np.flip(q)
np.trace(q[:, :q.shape[0], 0][:, :1]) if q.shape[0] else 0
np.trace(np.einsum('ij,kl->ijkl', s, t), axis1=0, axis2=1)
np.einsum('ijkl,kl->ij', np.einsum('ij,kl->ijkl', s, t), t)
np.einsum('ij,ij->', r, r)
np.einsum('ij->j', r)
np.einsum('ij->ji', r)
np.einsum('iij->j', np.einsum('ij,k->ijk', s, v))
np.einsum('...ij,jk->...ik', q, np.ones((q.shape[2], 2)))
np.tensordot(r, r, axes=([0], [0]))
np.tensordot(q, r, axes=1) if q.shape[2] == r.shape[0] else 0
np.linspace(0, 1, 5)
np.linspace(y, 2, len(v) + 1)
np.linspace(0, 1, len(v), endpoint=False)
np.linspace(-1, 1, 2 * len(v) + 1)[1:]
np.arange(3) + 1
np.arange(0, 6, 2)
np.arange(len(v))[::-1]
np.arange(len(v)) // 2
np.shape(r) + np.shape(q)
np.sort(v)[0] <= np.sort(v)[-1]
np.linalg.norm(r, axis=0)
np.linalg.norm(s, 'fro')
np.sum(np.abs(s) ** 2, axis=1)
np.fft.rfft(v)
np.fft.irfft(np.fft.rfft(v), len(v))
np.vectorize(lambda u: u * 2 + 1)(r)
np.sin(v) ** 2 + np.cos(v) ** 2
np.exp(y) * np.exp(-y)
np.exp(v) + np.exp(z)
np.sign(v)
np.real(a) + np.imag(a)
np.real(z) * 1
np.conj(z)
np.abs(z)
np.pi * y
np.round(y * 0)
np.square(v)
np.multiply(v, w)
np.add(v, w) - np.subtract(v, w)
np.negative(v)
np.isnan(v)
np.iscomplexobj(a), np.isscalar(y)
np.array([[1, 2], [3, 4]]) @ np.array([1, 2])
np.array(v, dtype=complex)
np.asarray([v, w]).T
np.array([y, 2])
np.array(g).shape
np.array([1, 2]).dtype == int
np.zeros(3, int)
np.ones((len(v), 2)) * v[:, None]
v.astype(int) * 0
v.tolist()
v.copy().sum()
r.mean(axis=0)
r.max(), r.min()
r.flatten()[::-1]
r.ravel()
q.squeeze().size
v.dot(w)
(v * w).sum() - v @ w
r.T.shape
r[1:, :-1]
r[:, ::-1]
q[:, :, 0].T
q[0, :, 0]
q[-1][..., None]
v[None]
r[None, :, None]
v[-len(v)]
v[:0]
v[len(v):]
v[-2:]
v[:-2]
r[:2]
v[np.arange(len(v))[::-1]]
r[np.array([0, 0]), np.array([0, 0])]
v[v > 0].sum() if 0 else 1
s - np.diag(np.diag(s))
s + s.conj().T - 2 * np.real(np.diag(s))
-s
s ** 2
s / 2 - s * .5
2 / (v ** 2 + 1)
v // 1 - v // 1
(v > 0) & (w > 0)
(v > 0) | (w > 0)
~(v > 0)
v > w
(v > 0) * 1
v @ r
r.T @ v
s @ v
1j * v
v == v
all(u > -9 for u in l)
any(u > 9 for u in l)
[u for u in l if 1]
{'a': l}['a']
[*l, 2.]
(1,) + (2, 3)
[1, 2] * 2
[l[j] for j in range(len(l))]
[l[j - 1] for j in range(len(l))]
[l[-j - 1] for j in range(len(l))]
[(u, 2) for u in l]
[u for u in reversed(l)]
list(range(len(l)))
list(range(2, 8, 3))
list(range(len(l), 0, -1))
[j for j in range(len(l) - 1, -1, -1)]
list(zip(l, range(2)))[:1]
list(enumerate(l, 1))
list(map(lambda u: u + 1, l))
dict(zip(['p', 'q'], [1, y]))['q']
tuple(l)
l == list(l)
l[:]
l[:-1]
l[1:-1]
l[::-1]
l[len(l) // 2:]
len(l[1:])
len(range(1, len(l)))
sum(range(len(l)))
max(1, len(l)) * 2
abs(i - 2)
i ** 2
-i // 2
-i % 3
i / 2
int(i / 2)
float(i)
bool(i)
i and 3
i or 4
not i
i in (0, 2)
1 < i <= 2
i is None
complex(0, y)
z ** 2
z.real + z.imag
pow(y, 2)
round(i)
isinstance(i, int)
isinstance(y, float)
isinstance(z, complex)
type(y) == float
'''
BLOCKS = {
    'matrix product by loops': ('ab', '''
    c = np.zeros((a.shape[0], b.shape[1]), dtype=complex)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            for k in range(b.shape[0]):
                c[i, j] += a[i, k] * b[k, j]
    return c'''),
    'products of a list': ('gs', '''
    out = [np.eye(s.shape[0])]
    for u in g:
        out.append(u @ out[-1])
    return out, out[-1] @ s, len(out)'''),
    'products backwards': ('gs', '''
    out = [s]
    for u in g[::-1]:
        out.append(out[-1] @ u)
    return out[::-1]'''),
    'in place sum': ('gs', '''
    c = s.copy()
    for u in g:
        c += 2 * u
    return c, s'''),
    'in place on the input': ('s', '''
    c = s
    c *= 2
    c -= np.eye(len(c))
    return c, s'''),
    'view': ('r', '''
    u = r[0]
    u[0] = 5
    r[-1, -1] += 1
    return u, r'''),
    'reshape is a view': ('r', '''
    u = r.reshape(-1)
    u[-1] = 7
    return r, u'''),
    'flatten is a copy': ('r', '''
    u = r.flatten()
    u[0] = 5
    return u, r'''),
    'aliased rows': ('v', '''
    rows = [v] * 3
    rows[0][0] = 4
    return rows'''),
    'list of lists': ('lv', '''
    out = [[None for _ in range(len(l))] for _ in range(2)]
    for i in range(2):
        for j, u in enumerate(v):
            out[i][j] = u + i
    return out'''),
    'nested lists by append': ('vw', '''
    out = []
    for u in v:
        out.append([])
        for z in w:
            out[-1].append(u * z)
    return out, len(out)'''),
    'zip of different lengths': ('vd', '''
    out = []
    for x, y in zip(v, d):
        out.append(x + y)
    return out'''),
    'carry': ('v', '''
    t, h = 0., 1.
    for u in v:
        t = t + u
        h = u
    return t, h'''),
    'recursion': ('v', '''
    t = 1.
    out = []
    for u in v:
        t = .5 * t + u
        out.append(t)
    return t, out'''),
    'maximum by loop': ('v', '''
    best = v[0]
    for u in v:
        if u > best:
            best = u
    return best >= v[0]'''),
    'conditional assignment': ('r', '''
    c = np.zeros(r.shape)
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            if i == j:
                c[i, j] = 1
            elif i < j:
                c[i, j] = r[i, j]
    return c'''),
    'mask': ('rv', '''
    m = r > .5
    r[m] = 0
    v[v < 0] = -1
    return r, m'''),
    'masked elements': ('vw', '''
    m = v > 0
    v[m] = w[m]
    return v'''),
    'scatter': ('xv', '''
    v[x] = 9.
    return v'''),
    'scatter of values': ('ev', '''
    v[e] = np.arange(len(e)) + 1.
    return v'''),
    'scatter in a matrix': ('es', '''
    s[np.ix_(e, e)] = 3.
    return s'''),
    'scatter of a block': ('est', '''
    s[np.ix_(e, e)] = t[np.ix_(np.arange(len(e)) % len(t), np.arange(len(e)) % len(t))]
    return s'''),
    'scatter rows': ('er', '''
    r[e] = 2.
    return r'''),
    'scatter diagonal': ('es', '''
    s[e, e] = 4.
    return s'''),
    'embedding by loops': ('est', '''
    c = np.zeros(s.shape, dtype=complex)
    for i, row in enumerate(e):
        for k, col in enumerate(e):
            c[row, col] = i + 2 * k + 1
    return c'''),
    'last write wins': ('v', '''
    c = np.zeros(2)
    for i, u in enumerate(v):
        c[i % 2] = u
    return c'''),
    'strided writes': ('v', '''
    c = np.zeros(2 * len(v))
    for i, u in enumerate(v):
        c[2 * i] = u
    c[1::2] = v * 3
    return c'''),
    'slices written in a loop': ('v', '''
    c = np.zeros(3 * len(v))
    for i, u in enumerate(v):
        c[3 * i:3 * (i + 1)] = u * np.ones(3)
    return c'''),
    'dictionary': ('vy', '''
    d = dict(a=1, b=y)
    d['c'] = v
    d.update({'a': 2})
    e = {k: d[k] for k in ('a', 'b')}
    return e['a'], e['b'], sorted(d), 'c' in d, d.get('q')'''),
    'deep and shallow copies': ('vl', '''
    o = [v, l]
    p, q = list(o), copy.deepcopy(o)
    v[0] = 3
    l.append(1.)
    return p, q, len(q[1])'''),
    'classes': ('y', '''
    class B:
        c = 2

        def __init__(self, y):
            self.y = y

        @property
        def twice(self):
            return 2 * self.y

        def f(self):
            return self.c

    class C(B):
        def f(self):
            return super().f() + self.twice

    o = C(y)
    u = o.f()
    o.c = 5
    return u, o.f(), isinstance(o, B), C.c, hasattr(o, 'z')'''),
    'exceptions': ('yv', '''
    try:
        if y > 0:
            raise ValueError('x')
        u = 1
    except ValueError:
        u = 2
    finally:
        z = 3
    if y > .7:
        raise TypeError('y')
    return u, z'''),
    'index error': ('v', '''
    return v[2]'''),
    'shape error': ('rv', '''
    return r + v'''),
    'matmul error': ('ab', '''
    return b @ a'''),
    'closures and defaults': ('y', '''
    fs = [lambda u, i=i: u * i + y for i in range(3)]
    def g(u, *a, k=2, **kw):
        return u + len(a) + k + kw.get('z', 0)
    return [f(2) for f in fs], g(1, 2, 3), g(1, k=4, z=5)'''),
    'while and break': ('i', '''
    n = 0
    while True:
        n += 1
        if n > i:
            break
    else:
        n = 77
    for j in range(4):
        if j == i:
            continue
        n += j
    return n'''),
    'unpacking': ('vr', '''
    a, *b = [1, 2, 3]
    (c, d), e = (4, 5), 6
    n, m = r.shape
    return a, b, c + d + e, n * m'''),
    'list methods': ('l', '''
    o = [3, 1, 2]
    o.insert(1, 7)
    u = o.pop()
    o.extend([4, 5])
    o.reverse()
    return o, u, o.index(7), sorted(o), o.count(4), l.copy()'''),
    'strings': ('i', '''
    s = 'Noise' + str(i)
    t = ['N%d' % k for k in range(3)] + ['{}-{}'.format(k, 'x') for k in range(2)]
    return t, f'{t[0]}!', t[1] == 'N1', ','.join(['a', 'b']), type(i) is int, type(t) is not list'''),
    'augmented list': ('lv', '''
    o = l
    o += [v[0]]
    return l, o is l'''),
    'nested comprehension': ('vw', '''
    return [[x * y for y in w] for x in v], [x + 1 for x in [u * 2 for u in v]]'''),
    'family of arrays': ('vr', '''
    c = np.zeros((len(v), r.shape[0], r.shape[1]))
    for j, u in enumerate(v):
        c[j] = u * r
    c[:, 0] *= 2
    return c, np.sum(c, axis=0)'''),
    'partial trace': ('s', '''
    d = s.shape[0]
    t = np.kron(s, np.eye(2)).reshape([d, 2, d, 2])
    return np.trace(t, axis1=1, axis2=3)'''),
    'integer division of indices': ('v', '''
    u = np.repeat(v, 3)
    return [u[j // 3 * 3] for j in range(3 * len(v))]'''),
    'running list of matrices': ('hg', '''
    out = []
    for u in h:
        out.append(u + u.T)
    out[0:0] = [np.eye(2)]
    return out'''),
    'numpy scalars': ('vi', '''
    u = np.zeros(3, dtype=int)
    u[i] = 2
    w = v.copy()
    w[0] = 3
    return u, u.dtype == int, w.dtype == float, (u / 2).dtype == float, (u * 1j).dtype == complex'''),
    'nested running state': ('vw', '''
    t = 1.
    for x in v:
        for y in w:
            t = .5 * t + x * y
    return t'''),
    'nested running state, reset': ('vw', '''
    out = []
    for x in v:
        t = x
        for y in w:
            t = .5 * t + y * t
        out.append(t)
    return out, t'''),
    'inner recursion with an outer number': ('vw', '''
    t, c = 1., 0.
    for x in v:
        c = c * x + 1
        for y in w:
            t = y * t + c
    return t, c'''),
    'three nested loops': ('vwd', '''
    t = 2.
    for x in v:
        for y in w:
            t = t * y + 1
            for z in d:
                t = x * t + z
    return t'''),
    'nested products of matrices': ('gsv', '''
    u = s
    for x in v:
        for y in g:
            u = y @ u * x
    return u'''),
    'nested products in rows': ('gsv', '''
    out = []
    for x in v:
        u = x * s
        for y in g:
            u = y @ u
        out.append(u)
    return out, u'''),
    'products between two indices': ('gs', '''
    out = []
    for i in range(len(g)):
        u = np.eye(len(s))
        for j in range(i, len(g)):
            u = g[j] @ u
        out.append(u)
    return out'''),
    'list of the outer loop in an inner recursion': ('vw', '''
    out = [1.]
    for x in v:
        t = 0.
        for y in w:
            t = t * y + out[-1]
        out.append(t)
    return out'''),
    'overlapping writes': ('v', '''
    c = np.zeros(len(v) + 2)
    for i, u in enumerate(v):
        c[i:i + 3] += u
        c[i] = 2 * c[i]
    return c'''),
    'writes of previous elements': ('v', '''
    c = np.ones(len(v) + 1)
    for i, u in enumerate(v):
        c[i + 1] = .5 * c[i] + u
    return c'''),
    'reversed recurrences': ('v', '''
    c = np.ones(len(v) + 1)
    for i in range(len(v) - 1, -1, -1):
        c[i] = .5 * c[i + 1] + v[i]
    return c'''),
    'conditional sum': ('v', '''
    t, n = 0., 0
    for i, u in enumerate(v):
        if u > 0:
            t += u
            n += 1
        elif i == 0:
            t -= 1
    return t, n'''),
    'conditional last': ('v', '''
    t = 0.
    for i, u in enumerate(v):
        if u > 0:
            t = u
        else:
            t = t / 2
    return t'''),
    'alternating': ('v', '''
    t = []
    for i, u in enumerate(v):
        if i % 2 == 0:
            t.append(u)
        else:
            t.append(-u)
    return t'''),
    'swap': ('v', '''
    a, b = 0., 1.
    for u in v:
        a, b = b, a + u
    return a, b'''),
    'objects in a list': ('v', '''
    class B:
        def __init__(self, y):
            self.y = y
            self.z = []

    o = [B(x) for x in v]
    t = B(0.)
    for b in o:
        t.y += b.y
        t.z.append(b.y)
    return t.y, t.z, [b.y for b in o]'''),
    'cache in an object': ('gv', '''
    class B:
        def __init__(self, n):
            self.u = [None] * n
            self.c = 0

        def get(self, i):
            if self.u[i] is None:
                self.c += 1
                self.u[i] = g[i] * 2
            return self.u[i]

    o = B(len(g))
    r = [o.get(i) for i in range(len(g))]
    q = [o.get(i) for i in range(len(g))]
    return r, q, o.c'''),
    'object replaced in a loop': ('v', '''
    class B:
        def __init__(self, y):
            self.y = y

        def plus(self, x):
            return B(self.y * .5 + x)

    o = B(1.)
    for x in v:
        o = o.plus(x)
    return o.y'''),
    'array replaced in a loop': ('vw', '''
    u = w
    for x in v:
        u = u * x + 1
    u[0] = 3
    return u, w'''),
    'array changed in a loop': ('vw', '''
    u = w.copy()
    rows = []
    for x in v:
        u *= x
        rows.append(u)
    return rows, w'''),
    'copies of a changed array': ('vw', '''
    u = w.copy()
    rows = []
    for x in v:
        u *= x
        rows.append(u.copy())
    return rows, u'''),
    'same list twice': ('v', '''
    r = [[]] * 2
    for x in v:
        r[0].append(x)
    return r, len(r[1])'''),
    'rows of different lists': ('vw', '''
    r = [[] for _ in range(len(w))]
    for x in v:
        for j, y in enumerate(w):
            r[j].append(x * y)
    return r'''),
    'transposed lists': ('gv', '''
    r = [[x * u for u in g] for x in v]
    return [[r[i][j] for i in range(len(v))] for j in range(len(g))]'''),
    'matrix of lists': ('gv', '''
    out = [[None] * len(v) for _ in range(len(g))]
    for i, u in enumerate(g):
        for j, x in enumerate(v):
            out[i][j] = x * u
    return out'''),
    'running trace': ('gs', '''
    c = np.zeros((len(g), len(g)), dtype=complex)
    for i in range(len(g)):
        for j in range(i + 1):
            c[i, j] = np.trace(g[i] @ s @ g[j])
    return c + c.conj().T'''),
    'block matrix': ('st', '''
    n = s.shape[0]
    c = np.zeros((2 * n, 2 * n), dtype=complex)
    c[:n, :n] = s
    c[n:, n:] = s
    c[:n, n:] = t
    return c, c[:n, n:] - t'''),
    'kron by loops': ('ab', '''
    c = np.zeros((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=complex)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            c[i * b.shape[0]:(i + 1) * b.shape[0], j * b.shape[1]:(j + 1) * b.shape[1]] = a[i, j] * b
    return c - np.kron(a, b), c'''),
    'mirror': ('v', '''
    c = np.zeros(len(v))
    for i in range(len(v)):
        c[-i - 1] = v[i]
        c[i] = c[i] + 1
    return c'''),
    'accumulate at an index array': ('xv', '''
    c = np.zeros(len(v))
    for i in x:
        c[i] += 1
    return c'''),
    'last of an index array': ('xv', '''
    c = np.zeros(len(v))
    for k, i in enumerate(x):
        c[i] = k + 1
    return c'''),
    'repeated and cropped': ('v', '''
    u = np.repeat(v, 4)
    w = np.concatenate((np.zeros(4), u, np.ones(2)))
    return w[2:-3], w[-1], w[:3]'''),
    'convolution by loops': ('vw', '''
    c = np.zeros(len(v) + len(w) - 1)
    for i in range(len(v)):
        for j in range(len(w)):
            c[i + j] += v[i] * w[j]
    return c'''),
    'default list': ('v', '''
    def g(x, o=[]):
        o.append(x)
        return o
    a = g(v[0])
    b = g(v[-1])
    return a, b'''),
    'generator': ('v', '''
    return sum(x * i for i, x in enumerate(v)), max(3, *[len(v)])'''),
    'implicit cast': ('v', '''
    u = np.arange(3)
    u[0] = 2.7
    return u'''),
    'complex into real': ('vs', '''
    u = np.zeros((2, 2))
    u[0, 0] = np.real(s[0, 0])
    return u.astype(complex) * 1j'''),
}
LO = dict(n=1, m=1, k=1, p=0)


class Case:
    def __init__(self, name, args, body):
        self.name, self.args = name, args
        self.src = HEAD + 'def f(%s):%s\n' % (', '.join(args), body)

    def symbolic(self, u):
        dv = {k: u.dim(k, LO[k]) for k in sorted({c for a in self.args for c in A[a][1]} |
                                                 ({'n'} if {'x', 'e'} & set(self.args) else set()))}
        out = []
        for a in self.args:
            kind, ds = A[a]
            sh = [dv[c] for c in ds]
            if kind == 'l':
                out.append(symlist(sh[0], lambda j, a=a: num(fn(a, j, sort='r'), 'float')))
            elif kind == 'L':
                out.append(u.list_of(sh[0], lambda j, a=a: symarr(
                    a, (sh[1], sh[1]), 'c', j)))
            elif kind in ('x', 'x2'):
                T.CTX.fbounds[a] = (ZERO, dv['n'])
                out.append(mkarr(sh, lambda j, a=a: fn(a, j, sort='i'), 'i'))
            elif kind == 'i':
                v = var(a)
                CTX.assume(ge(v))
                CTX.assume(ge(2 - v))
                out.append(num(v, 'int'))
            elif kind in 'cr' and not ds:
                out.append(Num(var(a, kind), 'complex' if kind == 'c' else 'float'))
            else:
                out.append(symarr(a, sh, 'c' if kind == 'c' else 'f'))
        return out

    def concrete(self, env, ints):
        out = []
        for a in self.args:
            kind, ds = A[a]
            sh = [ints[c] for c in ds]
            at = lambda sort, *j, a=a: env.poly(fn(a, *[const(int(q)) for q in j], sort=sort), {})
            if kind == 'l':
                out.append([at('r', j) for j in range(sh[0])])
            elif kind == 'L':
                out.append([np.array([[at('c', j, p, q) for q in range(sh[1])]
                                      for p in range(sh[1])]) for j in range(sh[0])])
            elif kind in ('x', 'x2'):
                out.append(np.array([at('i', j) for j in range(sh[0])], dtype=int))
            elif kind == 'i':
                out.append(ints['i'])
            elif not ds:
                out.append(env.poly(var(a, kind), {}))
            else:
                x = np.zeros(sh, dtype=complex if kind == 'c' else float)
                for j in np.ndindex(*sh):
                    x[j] = at(kind, *j)
                out.append(x)
        return out


def value(env, v):
    v = unl(v)
    if isinstance(v, Arr):
        sh = [env.int(env.poly(s, {})) for s in v.shape]
        x = np.zeros(sh, dtype={'c': complex, 'f': float, 'i': int, 'b': bool}[v.dtype])
        for j in np.ndindex(*sh):
            y = env.poly(v.el(*[const(q) for q in j]), {})
            x[j] = y if v.dtype == 'c' else env.real(y)
        return x
    if isinstance(v, Num):
        x = env.poly(v.p, {})
        if v.ty in ('int', 'bool', 'np.int64', 'np.bool_'):
            return env.int(x) if 'bool' not in v.ty else bool(x)
        return x
    if isinstance(v, (PList, Range)):
        u = CURRENT[0]
        s = u.I.seq(v)
        n = env.int(env.poly(s.n, {}))
        CTX.push()
        CTX.assume(eq0(s.n - n))
        try:
            r = [value(env, s.at(const(j))) for j in range(n)]
        finally:
            CTX.pop()
        return tuple(r) if isinstance(v, PList) and v.tup else r
    if v is None or isinstance(v, (bool, int, float, complex, str)):
        return v
    if hasattr(v, 'p') and isinstance(v.p, T.Poly):
        return env.poly(v.p, {})
    raise NoValue('value of kind %s' % type(v).__name__)


CURRENT = [None]


def same(x, y, path=''):
    """x of the engine, y of numpy"""
    if isinstance(y, np.ndarray):
        if not isinstance(x, np.ndarray):
            return '%s: %r is no array' % (path, x)
        if x.shape != y.shape:
            return '%s: shape %s, expected %s' % (path, x.shape, y.shape)
        if x.dtype.kind != y.dtype.kind:
            return '%s: elements %s, expected %s' % (path, x.dtype, y.dtype)
        return '' if np.allclose(x, y, atol=1e-9) else '%s: %s, expected %s' % (path, x, y)
    if isinstance(y, (list, tuple)):
        if not isinstance(x, (list, tuple)) or len(x) != len(y):
            return '%s: %r, expected %r' % (path, x, y)
        if isinstance(y, tuple) and not isinstance(x, tuple):
            return '%s: no tuple' % path
        for j, (p, q) in enumerate(zip(x, y)):
            r = same(p, q, '%s[%d]' % (path, j))
            if r:
                return r
        return ''
    if isinstance(y, (bool, np.bool_)):
        return '' if bool(x) == bool(y) else '%s: %r, expected %r' % (path, x, y)
    if isinstance(y, (int, float, complex, np.number)):
        if isinstance(x, (str, type(None), list, tuple, np.ndarray)):
            return '%s: %r, expected %r' % (path, x, y)
        return '' if abs(x - y) < 1e-9 * (1 + abs(y)) else '%s: %r, expected %r' % (path, x, y)
    return '' if type(x) is type(y) and x == y else '%s: %r, expected %r' % (path, x, y)


def run(case):
    envs = []
    names = sorted({c for a in case.args for c in A[a][1]} |
                   ({'n'} if {'x', 'e'} & set(case.args) else set()))
    for q, vals in enumerate(itertools.product(*[DIMS[c] for c in names])):
        ints = dict(zip(names, vals))
        if 'e' in case.args and ints['p'] > ints['n']:
            continue
        envs.append(ints)
    envs = envs[::max(1, len(envs) // 9)]
    envs = [dict(e, i=q % 3) if 'i' in case.args else e for q, e in enumerate(envs)] * 2
    if 'i' in case.args and len(envs) < 6:
        envs = envs * 6
        envs = [dict(e, i=q % 3) for q, e in enumerate(envs)]
    if not envs or len(envs) < 4:
        envs = (envs or [{}]) * 4
    u = U(case.name, '/repo', time.time() + 60)
    CURRENT[0] = u
    bad, hit, novalue = [], {}, []
    CTX.push()
    try:
        args = case.symbolic(u)
        key = {k: var(k).atom_key() if hasattr(var(k), 'atom_key') else next(iter(var(k).free)).key
               for k in list(DIMS) + ['i']}
        E = [(Env('e%d' % q, {key[k]: x for k, x in ints.items()}), ints)
             for q, ints in enumerate(envs)]
        if {'e', 'x'} & set(case.args):
            for env, ints in E:
                j = lambda s, x, ints=ints: (int(T_h(s, 0) * ints['n']) + s.int(x)) % ints['n']
                env.interp['e'] = j
        u.source('case', case.src)
        f = u.get_fn('case', 'f') if hasattr(u, 'get_fn') else u.mod('case').env.slots['f']

        def cap(kind, v, mark):
            for q, (env, ints) in enumerate(E):
                env.cache.clear()
                try:
                    ok = True
                    for c in CTX.polys:
                        if isinstance(c, tuple):
                            x = env.poly(c[0], {})
                            ok = 0 <= x < env.poly(c[1], {})
                        else:
                            ok = abs(env.poly(c, {}) - 1) < 1e-9
                        if not ok:
                            break
                    if not ok:
                        continue
                    got = ('ok', value(env, v)) if kind == 'ok' else (
                        'raise', getattr(v.cls, 'name', str(v.cls)))
                except (NoValue, ZeroDivisionError) as e:
                    novalue.append('%s: %s' % (ints, e))
                    continue
                hit.setdefault(q, []).append(got)
        u.I.explore(lambda: u.I.call(f, args, {}), cap)
        space = {}
        exec(case.src, space)
        for q, (env, ints) in enumerate(E):
            env.cache.clear()
            con = case.concrete(env, ints)
            try:
                with np.errstate(all='ignore'):
                    want = ('ok', space['f'](*con))
            except Exception as e:
                want = ('raise', type(e).__name__)
            for got in hit.get(q, []):
                if got[0] != want[0]:
                    bad.append('%s: %r, expected %r' % (ints, got, want))
                elif got[0] == 'raise':
                    if got[1] != want[1]:
                        bad.append('%s: raises %s, expected %s' % (ints, got[1], want[1]))
                else:
                    r = same(got[1], want[1])
                    if r:
                        bad.append('%s%s' % (ints, r))
            if len(hit.get(q, [])) > 1:
                bad.append('%s: %d paths' % (ints, len(hit[q])))
    finally:
        CTX.pop()
    return bad, len(hit), len(E), novalue


def T_h(env, q):
    from pyvc.numeric import _h
    return _h(env.seed, 'shift', q)[0]


def all_cases():
    cases = []
    for line in PROGRAMS.strip().splitlines():
        names = [x for x in ast.walk(ast.parse(line)) if isinstance(x, ast.Name)]
        free, bound = {x.id for x in names}, {x.id for x in names if isinstance(x.ctx, ast.Store)}
        cases.append(Case(line, sorted((free - bound) & set(A)), '\n    return ' + line))
    return cases + [Case(name, list(args), body) for name, (args, body) in BLOCKS.items()]


def main():
    cases = all_cases()
    n = wrong = unsup = 0
    for c in cases:
        if len(sys.argv) > 1 and sys.argv[1] not in c.name:
            continue
        n += 1
        try:
            bad, hit, total, nv = run(c)
        except Exception as e:
            if type(e).__name__ in ('Unsupported', 'Budget', 'NeedCarry'):
                unsup += 1
                print('NOT SUPPORTED %s: %s' % (c.name, e))
                continue
            wrong += 1
            print('FAILS %s: %s: %s' % (c.name, type(e).__name__, e))
            if len(sys.argv) > 1:
                raise
            continue
        if bad:
            wrong += 1
            print('DIFFERS %s\n    %s' % (c.name, '\n    '.join(bad[:3])))
        elif hit == 0 or hit < total - 3 * (len(nv) > 0) and hit < total / 2:
            print('FEW %s: %d of %d compared %s' % (c.name, hit, total, nv[:2]))
    print('%d programs, %d differ, %d not supported' % (n, wrong, unsup))
    return 1 if wrong else 0


if __name__ == '__main__':
    sys.exit(main())
