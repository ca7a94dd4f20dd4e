"""Concrete oracle of C32: distances of operators up to a global phase."""
import numpy as np
import scipy.linalg as la

from oracle.frame import case
from oracle.lib import *

PAULI = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]


class Fixed:
    """A solver with a given final propagator."""

    def __init__(self, u):
        self.forward_propagators = [DO(np.eye(len(u))), DO(np.array(u))]
        self.propagators = self.forward_propagators[1:]
        self.h_ctrl = [DO(np.eye(len(u)))]


def some_unitary(rng, d):
    k = rng.integers(7)
    if k == 6 and d == 2:       # small rotations
        n = rng.normal(size=3)
        n *= 10 ** rng.uniform(-5.8, -.3) / np.linalg.norm(n)
        return np.exp(1j * rng.uniform(0, 7)) * la.expm(
            -.5j * sum(x * p for x, p in zip(n, PAULI)))
    if k == 0:
        return np.exp(1j * rng.uniform(0, 7)) * np.eye(d)
    if k == 1 and d == 2:
        return la.expm(-1j * rng.choice([.5, 1, 1e-4]) * np.pi * PAULI[rng.integers(3)])
    return unitary(rng, d)


@case('C32', quick=120, thorough=1500)
def distances(rng):
    d = int(rng.integers(2, 6))
    u = some_unitary(rng, d) if rng.integers(2) else cmat(rng, d)
    t = np.exp(1j * rng.uniform(0, 7)) * u if rng.integers(3) == 0 else cmat(rng, d)
    mode = ['scalar', 'vector'][rng.integers(2)]
    c = cf.OperatorMatrixNorm(Fixed(u), DO(t.copy()), mode=mode)
    desc = 'mode %s, dimension %d, final %s' % (mode, d, show(u))
    if abs(u[0, 0]) < 1e-6:
        raises(c.costs, desc)
        return desc
    diff = u * np.exp(-1j * np.angle(u[0, 0])) - t
    want = np.sum(np.abs(diff)) if mode == 'scalar' else np.concatenate(
        [diff.real.ravel(), diff.imag.ravel()])
    for _ in range(2):
        eq(c.costs(), want, desc)
    c2 = cf.OperatorMatrixNorm(Fixed(np.exp(1j * rng.uniform(0, 7)) * u), DO(t.copy()), mode=mode)
    eq(c2.costs(), want, 'other global phase, ' + desc)
    if mode == 'vector':
        lab = [p + 'du%d%d' % (i + 1, j + 1) for p in ('re', 'im') for i in range(d)
               for j in range(d)]
        true(c.label == lab, 'labels %s' % c.label)
    return desc


@case('C32', quick=120, thorough=1500)
def rotations(rng):
    u = some_unitary(rng, 2)
    r = cf.angle_axis_representation(DO(u.copy()) if rng.integers(2) else u.copy())
    b, n = float(r[0]), np.asarray(r[1], dtype=float)
    desc = 'angle and axis (%s, %s) of %s' % (b, n, show(u))
    true(-1e-9 <= b <= np.pi + 1e-9 and abs(np.linalg.norm(n) - 1) < 1e-5, desc)
    v = np.cos(b / 2) * np.eye(2) + 1j * np.sin(b / 2) * sum(x * p for x, p in zip(n, PAULI))
    tr = np.trace(v.conj().T @ u)
    # rotations by less than 2e-6 may be returned as none
    true(abs(abs(tr) - 2) < 1e-6 and np.max(np.abs(v * tr / abs(tr) - u)) < 4e-6,
         desc + ' describe another rotation')
    w = cmat(rng, 2)
    raises(lambda: cf.angle_axis_representation(w), 'matrix that is not unitary')
    t = some_unitary(rng, 2)
    c = cf.OperatorMatrixNorm(Fixed(u), DO(t.copy()), mode='rotation_axis')
    q = cf.angle_axis_representation(t)
    eq(c.costs(), q[0] * np.asarray(q[1]) - b * n, 'difference of the rotations, ' + desc)
    return desc


@case('C32', quick=60, thorough=800)
def average_gate_fidelity(rng):
    u = some_unitary(rng, 2)
    t = some_unitary(rng, 2) if rng.integers(2) else np.exp(1j * rng.uniform(0, 7)) * u
    uo, to = DO(u.copy()), DO(t.copy())
    want = (abs(np.trace(u.conj().T @ t)) ** 2 + 2) / 6
    for _ in range(2):
        eq(cf.averge_gate_fidelity(uo, to), want, 'average gate fidelity of %s' % show(u))
    eq(uo, u, 'first argument')
    eq(to, t, 'second argument')
    return show(u)
