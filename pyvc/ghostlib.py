"""Library functions whose contract is a definition in the interpreted subset.

The text is executed by the interpreter like the code under verification; it
states the documented meaning of the functions for the argument types given."""

import itertools

from .terms import const
from .values import Grid, Native, Unsupported, plist

TEXT = r'''
import numpy as np


def functools_reduce(f, xs, *init):
    xs = list(xs)
    if init:
        value = init[0]
    else:
        if len(xs) == 0:
            raise TypeError('reduce() of empty iterable with no initial value')
        value = xs[0]
        xs = xs[1:]
    for x in xs:
        value = f(value, x)
    return value


def itertools_accumulate(xs, func=None, initial=None):
    xs = list(xs)
    out = []
    if initial is not None:
        value = initial
    else:
        if len(xs) == 0:
            return out
        value = xs[0]
        xs = xs[1:]
    out.append(value)
    for x in xs:
        value = value + x if func is None else func(value, x)
        out.append(value)
    return out


def itertools_chain(*iterables):
    out = []
    for it in iterables:
        out = out + list(it)
    return out


def itertools_chain_from_iterable(iterables):
    out = []
    for it in iterables:
        out.extend(it)
    return out


def itertools_product(*iterables):
    return grid(iterables)


def numpy_ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    return grid([range(n) for n in shape])


def itertools_starmap(f, xs):
    return [f(*x) for x in xs]


def itertools_repeat(x, n):
    return [x for _ in range(n)]


class functools_partial:
    def __init__(self, func, *args, **kwargs):
        self.func = func
        self.args = args
        self.keywords = kwargs

    def __call__(self, *args, **kwargs):
        return self.func(*self.args, *args, **self.keywords, **kwargs)


def operator_mul(a, b):
    return a * b


def operator_add(a, b):
    return a + b


def operator_sub(a, b):
    return a - b


def operator_matmul(a, b):
    return a @ b


def operator_truediv(a, b):
    return a / b


def operator_neg(a):
    return -a


def operator_eq(a, b):
    return a == b


def numpy_column_stack(tup):
    return np.concatenate([a[:, np.newaxis] if a.ndim == 1 else a for a in
                           [np.asarray(x) for x in tup]], axis=1)


def numpy_full_like(a, fill_value, dtype=None):
    out = np.zeros_like(a) if dtype is None else np.zeros_like(a, dtype=dtype)
    out[...] = fill_value
    return out


def numpy_vdot(a, b):
    return np.sum(np.conj(np.asarray(a).flatten()) * np.asarray(b).flatten())


def numpy_fliplr(a):
    return np.flip(a, 1)


def numpy_flipud(a):
    return np.flip(a, 0)


def numpy_negative(a):
    return -np.asarray(a)


def numpy_ravel(a):
    return np.asarray(a).ravel()


def numpy_split(ary, indices_or_sections, axis=0):
    ary = np.asarray(ary)
    n = ary.shape[axis]
    if isinstance(indices_or_sections, int):
        m = indices_or_sections
        if n % m:
            raise ValueError('array split does not result in an equal division')
        borders = [k * (n // m) for k in range(m)] + [n]
    else:
        borders = [0] + list(indices_or_sections) + [n]
    moved = np.moveaxis(ary, axis, 0)
    return [np.moveaxis(moved[lo:hi], 0, axis) for lo, hi in zip(borders[:-1], borders[1:])]


def numpy_take(a, indices, axis=None):
    a = np.asarray(a)
    if axis is None:
        return a.flatten()[indices]
    return np.moveaxis(np.moveaxis(a, axis, 0)[indices], 0, axis)


def numpy_average(a, axis=None, weights=None):
    if weights is None:
        return np.mean(a, axis=axis)
    if axis is not None or np.ndim(a) != 1:
        unsupported('numpy.average with weights')
    return np.sum(np.asarray(a) * np.asarray(weights)) / np.sum(weights)


def numpy_ptp(a, axis=None):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


def numpy_linalg_multi_dot(arrays):
    out = arrays[0]
    for a in arrays[1:]:
        out = out @ a
    return out


def numpy_linalg_matrix_power(a, n):
    if n < 0:
        unsupported('numpy.linalg.matrix_power')
    out = np.eye(a.shape[0], dtype=a.dtype)
    for _ in range(n):
        out = out @ a
    return out


def numpy_diagonal(a, offset=0, axis1=0, axis2=1):
    if offset != 0:
        unsupported('numpy.diagonal with an offset')
    b = np.moveaxis(np.asarray(a), (axis1, axis2), (-2, -1))
    return np.einsum('...ii->...i', b)


def numpy_fft_rfftfreq(n, d=1.0):
    return np.arange(n // 2 + 1) / (n * d)


def numpy_roll(a, shift, axis=None):
    a = np.asarray(a)
    if axis is None:
        if a.ndim != 1:
            unsupported('numpy.roll of the flattened array')
        axis = 0
    b = np.moveaxis(a, axis, 0)
    n = b.shape[0]
    k = shift % n
    return np.moveaxis(np.concatenate([b[n - k:], b[:n - k]]), 0, axis)
'''

NAMES = {}
for _line in TEXT.splitlines():
    if _line.startswith(('def ', 'class ')):
        _n = _line.split()[1].split('(')[0].rstrip(':')
        _p = _n
        for _m in ('functools', 'itertools', 'operator', 'numpy_linalg', 'numpy_fft', 'numpy'):
            if _n.startswith(_m + '_'):
                _p = _m.replace('_', '.') + '.' + _n[len(_m) + 1:]
                break
        NAMES[_p.replace('chain_from', 'chain.from')] = _n


def refuse(I, a, kw):
    raise Unsupported(a[0])


def grid(I, a, kw):
    seqs = [I.seq(x) for x in I.concrete(a[0])]
    if not seqs:
        return plist([plist([], True)])
    ns = [s.n.cint for s in seqs]
    if all(n is not None for n in ns):
        return plist([plist(list(t), True) for t in itertools.product(
            *[[s.at(const(i)) for i in range(s.n.cint)] for s in seqs])])
    return Grid(seqs)


def register(stubs):
    for path, name in NAMES.items():
        if path in stubs:
            continue

        def f(I, a, kw, name=name):
            if 'pyvc.ghostlib' not in I.mods:
                I.text_module('pyvc.ghostlib', TEXT)
                I.mods['pyvc.ghostlib'].env.slots['unsupported'] = Native('unsupported', refuse)
                I.mods['pyvc.ghostlib'].env.slots['grid'] = Native('grid', grid)
            return I.call(I.mods['pyvc.ghostlib'].env.slots[name], list(iter(a)), dict(kw.items()))
        stubs[path] = f
