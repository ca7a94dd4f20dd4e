"""Contracts of the package filter_functions as far as qopt uses it.

PulseSequence is defined in the interpreted subset after the documentation of
the package: operators, coefficients and identifiers are kept sorted by
identifier.  numeric.diagonalize is a function of the Hamiltonians and
durations; numeric.infidelity and gradient.infidelity_derivative are recorded."""

from .npstub import STUBS, lamfun
from .values import *
from .terms import Lam, ONE
from . import terms as T

TEXT = r'''
import numpy as np


def matrix_of(oper):
    if isinstance(oper, np.ndarray):
        return oper
    return oper.data


def parse(H, n_dt):
    opers = [matrix_of(term[0]) for term in H]
    coeffs = [np.asarray(term[1]) for term in H]
    identifiers = [term[2] for term in H]
    for c in coeffs:
        if len(c) != n_dt:
            raise ValueError('Expected all coefficients to be of len(dt)')
    if len(set(identifiers)) != len(identifiers):
        raise ValueError('identifiers should be unique')
    names = sorted(identifiers)
    order = [identifiers.index(name) for name in names]
    return (np.array([opers[i] for i in order]), names, np.array([coeffs[i] for i in order]))


class PulseSequence:
    def __init__(self, H_c, H_n, dt, basis=None):
        self.dt = np.asarray(dt)
        self.c_opers, self.c_oper_identifiers, self.c_coeffs = parse(H_c, len(self.dt))
        self.n_opers, self.n_oper_identifiers, self.n_coeffs = parse(H_n, len(self.dt))
        self.d = self.c_opers.shape[-1]
        self.basis = basis
        self.eigvals = None
        self.eigvecs = None
        self.propagators = None
        self.total_propagator = None

    def cleanup(self, method='conservative'):
        self.eigvals = None
        self.eigvecs = None
        self.propagators = None
        if method != 'conservative':
            self.total_propagator = None
'''


def module(I):
    if 'pyvc.ffstub' not in I.mods:
        I.text_module('pyvc.ffstub', TEXT)
    return I.mods['pyvc.ffstub'].env.slots


def pulse_sequence(I, a, kw):
    return I.call(module(I)['PulseSequence'], list(iter(a)), dict(kw.items()))


def lams(H, dt):
    l, i, j, t = T.temp(), T.temp(), T.temp(), T.temp()
    n, d = H.shape[0], H.shape[1]
    with CTX.ranges([l, i, j], [n, d, d]):
        L = Lam([n, d, d], [l, i, j], H.el(P(l), P(i), P(j)))
    with CTX.ranges([t], [dt.shape[0]]):
        return [L, Lam([dt.shape[0]], [t], dt.el(P(t)))]


def diagonalize(I, a, kw):
    if kw or len(a) != 2:
        raise Unsupported('diagonalize')
    H, dt = I.unlazy(a[0]), I.unlazy(a[1])
    if not isinstance(dt, Arr):
        dt = STUBS['numpy.asarray'](I, [dt], {})
    if not (isinstance(H, Arr) and H.ndim == 3 and isinstance(dt, Arr) and dt.ndim == 1):
        raise Unsupported('diagonalize')
    if I.branch(ONE - eq0(H.shape[0] - dt.shape[0])):
        I.raise_('ValueError', 'operands could not be broadcast together')
    L = lams(H, dt)
    n, d = H.shape[0], H.shape[1]
    return plist([
        mkarr((n, d), lambda t, i: lamfun('ff_eigvals', 'r', L, t, i), 'f'),
        mkarr((n, d, d), lambda t, i, j: lamfun('ff_eigvecs', 'c', L, t, i, j), 'c'),
        mkarr((n + 1, d, d), lambda t, i, j: lamfun('ff_propagators', 'c', L, t, i, j), 'c'),
    ], True)


STUBS['filter_functions.pulse_sequence.PulseSequence'] = pulse_sequence
STUBS['filter_functions.numeric.diagonalize'] = diagonalize
