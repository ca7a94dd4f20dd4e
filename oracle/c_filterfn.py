"""Concrete oracle of C31: pulse sequences and infidelities of the filter function package."""
import numpy as np

from filter_functions import PulseSequence, numeric
from filter_functions.gradient import infidelity_derivative
from filter_functions.basis import Basis

from oracle.frame import case
from oracle.lib import *

NAMES = ['Z', 'A', 'M', 'Noise2', 'b']


def noise_terms(rng, s, as_op):
    n = int(rng.integers(1, 4))
    names = [str(x) for x in rng.permutation(NAMES)[:n]]
    out = []
    for x in names:
        h = herm(rng, s.d)
        h = h - np.trace(h) / s.d * np.eye(s.d)
        out.append((h, rng.uniform(.5, 2, size=s.nx), x))
    return names, out, [[DO(np.array(h)) if as_op else np.array(h), c.copy(), x]
                        for h, c, x in out]


def reference(s, u, tau, terms):
    """The pulse sequence written down from the definition of the Hamiltonian."""
    h_c = [[s.h_ctrl[k], u[:, k], 'Control%d' % k] for k in range(s.nc)]
    ps = PulseSequence(h_c, [[h, c, x] for h, c, x in terms], tau)
    h = np.array([s.h_drift[t] + sum(u[t, k] * s.h_ctrl[k] for k in range(s.nc))
                  for t in range(len(tau))])
    ps.eigvals, ps.eigvecs, ps.propagators = numeric.diagonalize(h, tau)
    ps.total_propagator = ps.propagators[-1]
    return ps, h


def compare(got, want, h, desc):
    for a in ('c_oper_identifiers', 'n_oper_identifiers'):
        true(list(getattr(got, a)) == list(getattr(want, a)),
             '%s of %s: %s' % (a, desc, getattr(got, a)))
    for a in ('c_opers', 'c_coeffs', 'n_opers', 'dt', 'propagators', 'total_propagator',
              'eigvals'):
        eq(getattr(got, a), getattr(want, a), a + ' of ' + desc)
    if want.n_coeffs is not None:
        eq(got.n_coeffs, want.n_coeffs, 'n_coeffs of ' + desc)
    v = got.eigvecs
    eq(np.einsum('tij,tj,tkj->tik', v, got.eigvals, v.conj()), h, 'diagonalisation of ' + desc)


@case('C31', quick=60, thorough=800)
def pulse_sequence(rng):
    s = System(rng, n_ctrl=int(rng.choice([1, 2, 3, 11])), d=int(rng.integers(2, 4)),
               tf_kinds=('identity', 'over', 'custom'), init='none')
    kind = ['schroedinger', 'mc', 'lindblad'][rng.integers(3)]
    how = ['none', 'list', 'call', 'old'][rng.integers(4)]
    as_op = bool(rng.integers(2))
    names, terms, arg = noise_terms(rng, s, as_op)
    kw = {}
    if how == 'list':
        kw['filter_function_h_n'] = arg
    elif how == 'call':
        kw['filter_function_h_n'] = lambda y, x, u: arg
    elif how == 'old':
        kw['filter_function_h_n'] = lambda u: arg
    args = s.op_args()
    args.update(tau=np.array(s.tau), transfer_function=s.rtf.tf, amplitude_function=s.amp.amp,
                **kw)
    if kind == 'schroedinger':
        sol = sa.SchroedingerSolver(**args)
    elif kind == 'lindblad':
        sol = sa.LindbladSolver(lindblad_operators=[DO(herm(rng, s.d))], **args)
    else:
        nn = int(rng.integers(1, 3))
        hn = [herm(rng, s.d) for _ in range(nn)]
        sol = sa.SchroedingerSMonteCarlo(
            h_noise=dense_ops(hn), processes=1,
            noise_trace_generator=FixedNoise(rng.normal(size=(nn, 2, s.nx))), **args)
        if how == 'none':
            terms = [(h, np.ones(s.nx), 'Noise%d' % k) for k, h in enumerate(hn)]
            names = [x[2] for x in terms]
    if how == 'none' and kind != 'mc':
        terms = [(np.zeros((s.d, s.d)), np.zeros(s.nx), 'No Noise')]
        names = ['No Noise']
    desc = '%s solver, noise operators %s %s, %s' % (kind, how, names, s.desc())
    n = int(rng.integers(1, 4))
    for k in range(n):
        y = rng.normal(size=s.y.shape)
        if rng.integers(2):
            sol.set_optimization_parameters(y)
            if rng.integers(2):
                sol.forward_propagators
            sol.create_pulse_sequence()
        else:
            sol.create_pulse_sequence(y)
        ps = sol.pulse_sequence
        want, h = reference(s, s.u(y), s.xt, terms)
        if how == 'none' and kind != 'mc':
            want.n_coeffs = None
        compare(ps, want, h, 'call %d, %s' % (k, desc))
        true(list(sol.filter_function_n_oper_identifiers) == names,
             'identifiers %s of %s' % (sol.filter_function_n_oper_identifiers, desc))
    return desc


@case('C31', quick=40, thorough=500)
def infidelity(rng):
    s = System(rng, n_ctrl=int(rng.choice([1, 2, 3, 11])), d=2, tf_kinds=('identity',),
               amp_kinds=('identity',), init='none', drift_mode='list1')
    for k in range(s.nc):
        s.h_ctrl[k] -= np.trace(s.h_ctrl[k]) / 2 * np.eye(2)
    names, terms, arg = noise_terms(rng, s, True)
    d = rng.normal(size=(len(names), s.nc, s.nx))
    own = bool(rng.integers(2))
    kw = dict(filter_function_n_coeffs_deriv=lambda y, x, u: d.copy()) if own else {}
    sol = s.solver(filter_function_h_n=arg, **kw)
    w = np.sort(rng.uniform(.1, 20, size=30))
    c = cf.OperatorFilterFunctionInfidelity(sol, lambda x: 1 / x, omega=w)
    desc = 'noise operators %s, derivatives %s, %s' % (names, own, s.desc())
    for k in range(int(rng.integers(1, 4))):
        y = rng.normal(size=s.y.shape)
        sol.set_optimization_parameters(y)
        ref, _ = reference(s, s.u(y), s.xt, terms)
        for what in rng.permutation(['costs', 'grad'])[:int(rng.integers(1, 3))]:
            if what == 'costs':
                eq(c.costs(), numeric.infidelity(ref, 1 / w, w, n_oper_identifiers=names),
                   'pulse %d, costs, %s' % (k, desc))
            else:
                ids = ['Control%d' % q for q in range(s.nc)]
                want = infidelity_derivative(ref, 1 / w, w, control_identifiers=ids,
                                             n_oper_identifiers=names,
                                             n_coeffs_deriv=d.copy() if own else None)
                want = np.transpose(want, (1, 0, 2))
                eq(c.grad(), want, 'pulse %d, gradient, %s' % (k, desc))
    return desc
