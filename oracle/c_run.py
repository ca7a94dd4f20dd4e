"""Concrete contracts of simulator, optimisers, annealing, parallel runs
(C24-C26, C29, C30)."""
import copy
import time

import numpy as np

from oracle.frame import case
from oracle.lib import *
from qopt import simulator as qsim
from qopt import optimize as qopt_opt
from qopt import parallel as qpar
from qopt.optimize import (LeastSquaresOptimizer, ScalarMinimizingOptimizer,
                           SimulatedAnnealing, PulseAnnealer)

SIMPLE = ('identity', 'over', 'overM', 'exp', 'custom', 'concat')


class Recorder(sa.SchroedingerSolver):
    """Remembers the pulses it was given."""

    def set_optimization_parameters(self, y):
        self.seen = getattr(self, 'seen', [])
        self.seen.append(np.array(y))
        return super().set_optimization_parameters(y)


class PolyCost(cf.CostFunction):
    """Smooth cost of the control amplitudes of its solver, counting calls."""

    def __init__(self, solver, ref, a, b, shape, label, sleep=None):
        super().__init__(solver=solver, label=label)
        self.ref, self.a, self.b, self.shape = ref, a, b, shape
        self.log = []
        self.sleep = sleep

    def value(self, y):
        u = self.ref.u(y)
        v = np.einsum('ftk,tk->f', self.a, np.sin(u)) \
            + self.b * np.sum(u) ** 2 + .3
        return v

    def deriv(self, y):
        """[t, f, k] by the amplitudes"""
        u = self.ref.u(y)
        return np.einsum('ftk,tk->tfk', self.a, np.cos(u)) \
            + 2 * np.sum(u) * self.b[None, :, None] * np.ones(u.shape)[:, None, :]

    def costs(self):
        y = self.solver.seen[-1]
        v = self.value(y)
        self.log.append((np.array(y), v))
        if self.sleep is not None and len(self.log) == self.sleep[0]:
            time.sleep(self.sleep[1])
        if self.shape == 'float':
            return float(v[0])
        if self.shape == 'np':
            return v[0]
        if self.shape == '0d':
            return np.array(v[0])
        if self.shape == '2d':
            return v.reshape(1, -1)
        return v

    def grad(self):
        g = self.deriv(self.solver.seen[-1])
        if g.shape[1] == 1 and self.shape != 'keep':
            return g[:, 0, :]
        return g


def setup(rng, n_solver=None, max_n=5, kinds=SIMPLE, sleep=None, simple=False):
    """(simulator, pulse, systems, costs). All solvers share the pulse layout."""
    n_par, n_y = int(rng.integers(1, 4)), int(rng.integers(1, max_n))
    systems, sols = [], []
    want = int(rng.integers(1, 4)) if n_solver is None else n_solver
    tries = 0
    while len(systems) < want:
        tries += 1
        if tries > 60:
            raise Skip()
        s = System(rng, d=2, n_y=n_y, n_ctrl=n_par if simple or rng.integers(2) else None,
                   tf_kinds=kinds, init='none',
                   amp_kinds=('identity',) if simple else ('identity', 'unary', 'custom'))
        if s.amp.n_par != n_par or s.nx > 20:
            continue
        systems.append(s)
        sols.append(Recorder(tau=np.array(s.tau), transfer_function=s.rtf.tf,
                             amplitude_function=s.amp.amp, **s.op_args()))
    costs = []
    for i in range(int(rng.integers(1, 4))):
        j = int(rng.integers(len(systems))) if i or len(systems) == 1 else 0
        s = systems[j]
        shape = ['float', 'np', '0d', 'vec', '2d', 'keep'][rng.integers(6)]
        nf = 1 if shape in ('float', 'np', '0d') else int(rng.integers(1, 4))
        a = rng.normal(size=(nf, s.nx, s.nc))
        b = .1 * rng.uniform(.5, 1, size=nf)
        costs.append(PolyCost(sols[j], s, a, b, shape,
                              ['cost%d.%d' % (i, f) for f in range(nf)],
                              sleep if i == 0 else None))
    sim = qsim.Simulator(solvers=sols, cost_funcs=costs,
                         record_performance_statistics=bool(rng.integers(2)))
    return sim, rng.normal(size=(n_y, n_par)), systems, costs


def ref_costs(costs, y):
    return np.concatenate([c.value(y) for c in costs])


def ref_jac(costs, y):
    """[t, f, k]"""
    out = []
    for c in costs:
        s = c.ref
        dx = np.einsum('tmj,tfj->tfm', s.amp.deriv(s.x(y)), c.deriv(y))
        out.append(np.einsum('iljk,ifl->jfk', s.rtf.matrix(s.tau), dx))
    return np.concatenate(out, axis=1)


def describe(sim, y, costs):
    return 'solvers=%d pulse=%s costs=%s stats=%s' % (
        len(sim.solvers), y.shape, [c.shape + str(len(c.b)) for c in costs],
        sim.stats is not None)


# -------------------------------------------------------------------- C24
@case('C24', quick=120, thorough=1500)
def costs_and_jacobian(rng):
    sim, y, systems, costs = setup(rng)
    desc = describe(sim, y, costs)
    ncalls = [0, 0]
    for _ in range(int(rng.integers(2, 5))):
        fz = Frozen(pulse=y)
        arg = y if rng.integers(2) else None
        if arg is None:
            sim.pulse = y
        if rng.integers(2):
            got = sim.wrapped_cost_functions(arg)
            ncalls[0] += 1
            eq(got, ref_costs(costs, y), 'cost vector, ' + desc)
        else:
            got = sim.wrapped_jac_function(arg)
            ncalls[1] += 1
            eq(got, ref_jac(costs, y), 'jacobian, ' + desc)
        fz.check('the simulator')
        for s in sim.solvers:
            true(np.array_equal(s.seen[-1], y), 'a solver did not get the pulse, ' + desc)
        if sim.stats is not None:
            for t, n in ((sim.stats.cost_func_eval_times, ncalls[0]),
                         (sim.stats.grad_func_eval_times, ncalls[1])):
                true(len(t) == n and all(len(e) == len(costs) for e in t),
                     'statistics: %s entries for %d calls of %d functions, %s'
                     % ([len(e) for e in t], n, len(costs), desc))
                true(all(v >= 0 for e in t for v in e), 'negative evaluation time')
        y = rng.normal(size=y.shape)
    true(list(sim.cost_indices) == [l for c in costs for l in c.label],
         'cost indices %s' % (sim.cost_indices,))
    return desc


@case('C24', quick=60, thorough=600)
def numeric_gradients(rng):
    sim, y, systems, costs = setup(rng, max_n=4)
    desc = describe(sim, y, costs)
    if rng.integers(2) and all(type(s.transfer_function).__name__ == 'IdentityTF'
                               for s in sim.solvers):
        # pulses of integers are only accepted without transfer
        y = rng.integers(-3, 4, size=y.shape)
        desc += ' (pulse of integers)'
    eps = float(10 ** rng.uniform(-4, -2))
    sym = bool(rng.integers(2))
    fz = Frozen(pulse=y)
    got = sim.numeric_gradient(pulse=y, delta_eps=eps, symmetric=sym)
    want = np.zeros((y.shape[0], len(ref_costs(costs, y)), y.shape[1]))
    for i in range(y.shape[0]):
        for j in range(y.shape[1]):
            d = np.zeros(y.shape)
            d[i, j] = eps
            if sym:
                q = (ref_costs(costs, y + d) - ref_costs(costs, y - d)) / 2 / eps
            else:
                q = (ref_costs(costs, y + d) - ref_costs(costs, y)) / eps
            want[i, :, j] = q
    eq(got, want, 'numeric gradient symmetric=%s, %s' % (sym, desc), 1e-7)
    fz.check('numeric_gradient')
    eq(sim.numeric_gradient(pulse=y, delta_eps=1e-5, symmetric=True), ref_jac(costs, y),
       'numeric against exact gradient', 1e-5)
    sim.numeric_jacobian = True
    eq(sim.wrapped_jac_function(y), ref_jac(costs, y), 'numeric jacobian ' + desc, 1e-4)
    sim.numeric_jacobian = False
    sim.pulse = y
    if np.linalg.norm(ref_jac(costs, y)) > .05:
        a, b = sim.compare_numeric_to_analytic_gradient(delta_eps=1e-6)
        true(b < 1e-3, 'numeric and analytic gradient differ by %g, %g' % (a, b))
    return desc


@case('C24', quick=40, thorough=400)
def physical_costs(rng):
    """Real cost functions against finite differences of the cost vector."""
    n_y, k = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    sols = []
    while len(sols) < 2:
        s = System(rng, n_y=n_y, n_ctrl=k, tf_kinds=SIMPLE, init='none',
                   amp_kinds=('identity', 'unary'))
        if s.nx <= 14:
            sols.append((s, s.solver()))
    fs = []
    for s, sol in sols:
        fs.append(cf.OperationInfidelity(sol, DO(unitary(rng, s.d))))
        if s.d > 2:
            fs.append(cf.LeakageError(sol, [0, 1]))
    fs = [fs[i] for i in rng.permutation(len(fs))]
    sim = qsim.Simulator(solvers=[s for _, s in sols], cost_funcs=fs)
    y = .6 * rng.normal(size=(n_y, k))
    jac = sim.wrapped_jac_function(y)
    eq(jac, sim.numeric_gradient(y, 1e-5, symmetric=True), 'jacobian against differences',
       1e-6)
    return 'costs=%s' % [type(f).__name__ for f in fs]


@case('C24', quick=30, thorough=200)
def pulse_setter(rng):
    sim, y, systems, costs = setup(rng, 1)
    sim.pulse = y
    true(sim.pulse is y or np.array_equal(sim.pulse, y), 'stored pulse')
    y2 = rng.normal(size=y.shape)
    sim.pulse = y2
    eq(sim.wrapped_cost_functions(), ref_costs(costs, y2), 'costs of the stored pulse')
    y3 = rng.normal(size=y.shape)
    eq(sim.wrapped_cost_functions(y3), ref_costs(costs, y3), 'costs of a given pulse')
    eq(sim.wrapped_cost_functions(), ref_costs(costs, y2), 'stored pulse is kept')
    return 'pulse=%s' % (y.shape,)


# -------------------------------------------------------------------- C25
def weights(rng, n):
    return None if rng.integers(3) == 0 else rng.uniform(.1, 3, size=n)


@case('C25', quick=150, thorough=1500)
def wrappers(rng):
    sim, y, systems, costs = setup(rng, max_n=5)
    n = len(ref_costs(costs, y))
    w = weights(rng, n)
    save = bool(rng.integers(2))
    scalar = bool(rng.integers(2))
    cls = ScalarMinimizingOptimizer if scalar else LeastSquaresOptimizer
    warg = None if w is None else [w, list(w), w.reshape(-1, 1), w.reshape(1, -1)][rng.integers(4)]
    fz = Frozen(weights=warg)
    opt = cls(sim, cost_func_weights=warg, save_intermediary_steps=save)
    ww = np.ones(n) if w is None else w
    desc = '%s weights=%s save=%s %s' % (cls.__name__, w is not None, save,
                                         describe(sim, y, costs))
    fz0 = Frozen(pulse=y)
    opt.prepare_optimization(y)
    if save:
        s0 = opt.optim_iter_summary
        true(list(s0.indices) == list(sim.cost_indices), 'labels of the summary')
    hist = []
    x = np.zeros(y.size)        # one buffer, as the scipy algorithms use
    jacs = []
    for step in range(int(rng.integers(1, 6))):
        p = rng.normal(size=y.shape) if step else y
        x[:] = np.concatenate([p[:, k] for k in range(p.shape[1])])
        before = x.copy()
        order = rng.integers(3)
        if order != 1:
            got = opt.cost_func_wrapper(x)
            want = ref_costs(costs, p) * ww
            eq(got, np.sum(want) if scalar else want, 'costs handed to the algorithm, ' + desc)
            for s in sim.solvers:
                eq(s.seen[-1], p, 'pulse read control by control, ' + desc)
            hist.append(p)
        if order != 0:
            j = opt.cost_jacobian_wrapper(x)
            jac = ref_jac(costs, p)
            want = np.concatenate([jac[:, :, k].T for k in range(p.shape[1])], axis=1)
            want = want * ww[:, None]
            eq(j, want.sum(axis=0) if scalar else want, 'jacobian handed to the algorithm, ' + desc)
            jacs.append(jac)
        true(np.array_equal(before, x), 'parameters were modified, ' + desc)
    fz.check('the optimizer')
    fz0.check('the optimizer')
    if save:
        s0 = opt.optim_iter_summary
        true(len(s0.costs) == len(s0.parameters) == len(hist), 'number of saved steps: '
             '%d, %d of %d, %s' % (len(s0.costs), len(s0.parameters), len(hist), desc))
        true(s0.iter_num == len(hist), 'number of iterations %s of %d' % (s0.iter_num, len(hist)))
        for i, p in enumerate(hist):
            eq(s0.parameters[i], p, 'saved parameters %d, %s' % (i, desc))
            if not (w is None and not scalar):
                eq(s0.costs[i], ref_costs(costs, p), 'saved costs %d, %s' % (i, desc))
        true(len(s0.gradients) == len(jacs), 'number of saved gradients')
        for i, jac in enumerate(jacs):
            eq(s0.gradients[i], jac, 'saved gradient %d, %s' % (i, desc))
    if hist:
        res = opt.write_state_to_result()
        norms = [np.linalg.norm(ref_costs(costs, p)) for p in hist]
        eq(res.final_parameters, hist[int(np.argmin(norms))], 'best evaluation, ' + desc)
        if not (w is None and not scalar):
            eq(np.linalg.norm(res.final_cost), min(norms), 'costs of the best evaluation, ' + desc)
    return desc


@case('C25', quick=60, thorough=600)
def saved_costs_stay(rng):
    """Saved values of earlier evaluations under weights."""
    sim, y, systems, costs = setup(rng, max_n=4)
    n = len(ref_costs(costs, y))
    w = rng.uniform(.1, 3, size=n)
    opt = LeastSquaresOptimizer(sim, cost_func_weights=w)
    opt.prepare_optimization(y)
    hist = []
    for _ in range(4):
        p = rng.normal(size=y.shape)
        opt.cost_func_wrapper(p.T.flatten())
        opt.cost_jacobian_wrapper(p.T.flatten())
        hist.append(p)
        for i, q in enumerate(hist):
            eq(opt.optim_iter_summary.costs[i], ref_costs(costs, q), 'saved costs')
            eq(opt.optim_iter_summary.parameters[i], q, 'saved parameters')
            eq(opt.optim_iter_summary.gradients[i], ref_jac(costs, q), 'saved gradients')
    opt.prepare_optimization(y)
    true(len(opt.optim_iter_summary.costs) == 0, 'steps of an earlier run are kept')
    return 'pulse=%s n=%d' % (y.shape, n)


@case('C25', quick=40, thorough=400)
def runs(rng):
    """Saved steps of whole runs."""
    sim, y, systems, costs = setup(rng, n_solver=1, max_n=4, simple=True)
    n = len(ref_costs(costs, y))
    w = weights(rng, n)
    ww = np.ones(n) if w is None else w
    scalar = bool(rng.integers(2))
    cls = ScalarMinimizingOptimizer if scalar else LeastSquaresOptimizer
    opt = cls(sim, cost_func_weights=w, termination_cond=dict(max_iterations=6),
              use_jacobian_function=bool(rng.integers(2)))
    fz = Frozen(pulse=y)
    res = opt.run_optimization(y)
    fz.check('run_optimization')
    ref = np.linalg.norm
    summ = res.optim_summary
    true(len(summ.costs) == len(summ.parameters) >= 1, 'saved steps')
    eq(summ.parameters[0], y, 'first evaluated pulse')
    for c, p in zip(summ.costs, summ.parameters):
        eq(c, ref_costs(costs, p), 'saved costs belong to the saved parameters')
    c = ref_costs(costs, res.final_parameters) * ww
    eq(res.final_cost, np.sum(c) if scalar else c, 'final cost of the final pulse')
    return '%s %s' % (cls.__name__, describe(sim, y, costs))


# -------------------------------------------------------------------- C26
METHODS_S = ['L-BFGS-B', 'Nelder-Mead', 'Powell', 'COBYLA', 'TNC']


def make_opt(rng, sim, n, w, **kw):
    if rng.integers(2):
        m = ['trf', 'dogbox'][rng.integers(2)]
        return LeastSquaresOptimizer(sim, method=m, cost_func_weights=w, **kw), 'ls ' + m, False
    m = METHODS_S[rng.integers(len(METHODS_S))]
    return ScalarMinimizingOptimizer(sim, method=m, cost_func_weights=w, **kw), m, True


@case('C26', quick=60, thorough=500)
def results(rng):
    sim, y, systems, costs = setup(rng, n_solver=1, max_n=4, simple=True)
    n = len(ref_costs(costs, y))
    w = weights(rng, n)
    ww = np.ones(n) if w is None else w
    store = bool(rng.integers(2))
    opt, name, scalar = make_opt(rng, sim, n, w, store_optimizer=store,
                                 termination_cond=dict(max_iterations=15),
                                 save_intermediary_steps=bool(rng.integers(2)),
                                 use_jacobian_function=bool(rng.integers(2)))
    desc = '%s weights=%s store=%s %s' % (name, w is not None, store, describe(sim, y, costs))
    fz = Frozen(pulse=y)
    t0 = time.time()
    for run in range(2):
        arg = y if run == 0 else np.asfortranarray(rng.normal(size=y.shape))
        res = opt.run_optimization(arg)
        true(res.final_parameters.shape == y.shape, 'layout of the final pulse %s, %s'
             % (res.final_parameters.shape, desc))
        c = ref_costs(costs, res.final_parameters) * ww
        eq(res.final_cost, np.sum(c) if scalar else c, 'final costs, ' + desc)
        true(list(res.indices) == list(sim.cost_indices), 'labels, ' + desc)
        true(res.status is not None and res.termination_reason not in
             (None, 'not started yet'), 'status and reason, ' + desc)
        true((res.optimizer is opt) if store else res.optimizer is None,
             'stored optimizer, ' + desc)
        true(res.status != 5 and 'Wall' not in str(res.termination_reason),
             'wall time reported, ' + desc)
        if sim.stats is not None:
            st = res.optimization_stats
            true(st is not None and t0 - 1 <= st.start_t_opt <= st.end_t_opt
                 <= time.time() + 1, 'start and end time, ' + desc)
    fz.check('run_optimization')
    return desc


@case('C26', quick=25, thorough=150)
def wall_time(rng):
    limit = .12
    stop = int(rng.integers(1, 7))
    sim, y, systems, costs = setup(rng, n_solver=1, max_n=4, simple=True,
                                   sleep=(stop, limit + .06))
    n = len(ref_costs(costs, y))
    w = weights(rng, n)
    opt, name, scalar = make_opt(
        rng, sim, n, w, termination_cond=dict(max_wall_time=limit, max_iterations=10000,
                                              min_cost_gain=1e-15, min_gradient_norm=1e-15,
                                              min_amplitude_change=1e-15),
        save_intermediary_steps=bool(rng.integers(2)),
        use_jacobian_function=bool(rng.integers(2)))
    desc = '%s stop=%d weights=%s %s' % (name, stop, w is not None, describe(sim, y, costs))
    if rng.integers(2):
        # the optimiser was in use before
        desc = 'used before, ' + desc
        sleep, costs[0].sleep = costs[0].sleep, None
        opt.prepare_optimization(y)
        for _ in range(6):
            opt.cost_func_wrapper(rng.normal(size=y.size) * 2)
        costs[0].sleep = sleep
        costs[0].log.clear()
    res = opt.run_optimization(y)
    log = costs[0].log
    if len(log) < stop or res.status != 5:
        raise Skip()            # converged earlier
    ev = [p for p, _ in log]
    norms = [np.linalg.norm(ref_costs(costs, p)) for p in ev]
    best = [p for p, v in zip(ev, norms) if v <= min(norms) * (1 + 1e-12)]
    true(res.final_parameters is not None and res.final_parameters.shape == y.shape,
         'layout of the best pulse, ' + desc)
    true(any(np.allclose(res.final_parameters, p) for p in best),
         'not the best evaluated pulse, ' + desc)
    eq(np.ravel(res.final_cost), ref_costs(costs, res.final_parameters),
       'costs of the best pulse, ' + desc)
    true('Wall Time' in res.termination_reason, 'termination reason, ' + desc)
    return desc


@case('C26', quick=40, thorough=400)
def termination_conditions(rng):
    sim, y, systems, costs = setup(rng, n_solver=1, max_n=3, simple=True)
    keys = list(qopt_opt.default_termination_conditions)
    default = dict(qopt_opt.default_termination_conditions)
    expect = []
    for _ in range(4):
        sel = [k for k in keys if rng.integers(2)]
        cond = {k: float(rng.uniform(1, 9)) for k in sel}
        given = None if not rng.integers(3) else cond
        fz = Frozen(cond=given)
        cls = [LeastSquaresOptimizer, ScalarMinimizingOptimizer][rng.integers(2)]
        o = cls(sim, termination_cond=given)
        fz.check('the optimizer')
        want = dict(default)
        want.update(given or {})
        expect.append((o, want))
        if given:
            given['max_iterations'] = -1
        if rng.integers(4) == 0:
            SimulatedAnnealing(sim, bounds=np.array([np.full(y.shape, -3), np.full(y.shape, 3)]))
        for q, e in expect:
            true(dict(q.termination_conditions) == e, 'termination conditions %s, expected %s'
                 % (q.termination_conditions, e))
    true(dict(qopt_opt.default_termination_conditions) == default,
         'default termination conditions were changed')
    return 'four optimizers'


@case('C26', quick=30, thorough=300)
def bounded_runs(rng):
    sim, y, systems, costs = setup(rng, n_solver=1, max_n=4, simple=True)
    n = len(ref_costs(costs, y))
    lo = rng.uniform(-2, -1, size=y.shape)
    hi = rng.uniform(1, 2, size=y.shape)
    y = np.clip(y, -.9, .9)
    if rng.integers(2):
        opt = LeastSquaresOptimizer(sim, bounds=[lo.T.flatten(), hi.T.flatten()],
                                    termination_cond=dict(max_iterations=20))
    else:
        opt = ScalarMinimizingOptimizer(
            sim, bounds=np.stack((lo.T.flatten(), hi.T.flatten()), axis=1),
            method=['L-BFGS-B', 'Nelder-Mead'][rng.integers(2)],
            termination_cond=dict(max_iterations=20))
    res = opt.run_optimization(y)
    p = res.final_parameters
    true(np.all(p >= lo - 1e-9) and np.all(p <= hi + 1e-9), 'final pulse exceeds its bounds')
    return describe(sim, y, costs)


# -------------------------------------------------------------------- C29
@case('C29', quick=150, thorough=2000)
def moves(rng):
    shape = (int(rng.integers(1, 7)), int(rng.integers(1, 5)))
    lo = rng.integers(-9, 1, size=shape)
    hi = lo + rng.integers(0, 15, size=shape)
    kind = [int, float][rng.integers(2)]
    bounds = [np.array([lo, hi]).astype(kind), [lo.astype(kind), hi.astype(kind)]][rng.integers(2)]
    size = int(rng.integers(1, 8))
    ratio = float(rng.choice([0., .3, .7, 1.]))
    start = rng.integers(lo, hi + 1).astype(kind)
    seen = []
    w = rng.normal(size=start.size)

    def energy(x):
        seen.append(np.array(x))
        return np.array([x @ w, 1.])
    ann = PulseAnnealer(initial_state=0, bounds=bounds, energy_function=energy,
                        step_size=size, step_ratio=ratio, Tmax=1., Tmin=.1, steps=10,
                        updates=0)
    ann.state = start
    desc = 'shape=%s step=%d ratio=%g' % (shape, size, ratio)
    fz = Frozen(bounds=bounds)
    for _ in range(6):
        prev = ann.state
        snap_prev = prev.copy()
        ann.move()
        new = ann.state
        true(np.array_equal(prev, snap_prev), 'previous state was modified, ' + desc)
        true(new.shape == shape, 'shape of the state, ' + desc)
        diff = new - snap_prev
        true(np.array_equal(diff, np.round(diff)), 'step is not an integer, ' + desc)
        true(np.all(np.abs(diff) <= size), 'step exceeds the step size, ' + desc)
        true(np.all(new >= lo) and np.all(new <= hi), 'bounds exceeded, ' + desc)
        if ratio == 0:
            true(not np.any(diff), 'entries moved with step ratio 0, ' + desc)
        e = ann.energy()
        flat = np.concatenate([new[:, k] for k in range(shape[1])])
        eq(seen[-1], flat, 'parameters of the energy, ' + desc)
        eq(e, np.linalg.norm([flat @ w, 1.]), 'energy of the state, ' + desc)
    fz.check('the annealer')
    return desc


@case('C29', quick=20, thorough=100)
def invalid_steps(rng):
    for bad in (0, 1.5, .0):
        a = PulseAnnealer(0, np.array([[[-3]], [[3]]]), lambda x: x, bad, 1., 1., .1, 3, 0)
        a.state = np.array([[0]])
        raises(a.move, 'step size %r' % bad)
    return 'step sizes'


@case('C29', quick=10, thorough=80)
def annealing(rng):
    sim, y, systems, costs = setup(rng, n_solver=1, max_n=4, simple=True)
    lo, hi = np.full(y.shape, -4.), np.full(y.shape, 5.)
    start = rng.integers(-4, 6, size=y.shape).astype(float)
    opt = SimulatedAnnealing(sim, bounds=np.array([lo, hi]), step_size=int(rng.integers(1, 4)),
                             step_ratio=float(rng.uniform(.2, 1)), steps=40, updates=0)
    fz = Frozen(start=start)
    res = opt.run_optimization(start)
    fz.check('annealing')
    p = res.final_parameters
    true(p.shape == y.shape, 'layout of the final pulse')
    true(np.all(p >= lo) and np.all(p <= hi), 'final pulse exceeds the bounds')
    eq(res.final_cost, np.linalg.norm(ref_costs(costs, p)), 'final energy')
    ev = [q for q, _ in costs[0].log]
    norms = [np.linalg.norm(ref_costs(costs, q)) for q in ev]
    true(res.final_cost <= min(norms) * (1 + 1e-9), 'not the best state')
    for q in ev:
        true(np.all(q >= lo) and np.all(q <= hi), 'an evaluated pulse exceeds the bounds')
    eq(ev[0], start, 'first evaluated pulse')
    return describe(sim, y, costs)


# -------------------------------------------------------------------- C30
class PlainCost(cf.CostFunction):
    """Picklable smooth cost of the pulse."""

    def __init__(self, solver, a, b, label, slow=0.):
        super().__init__(solver=solver, label=label)
        self.a, self.b, self.slow, self.calls = a, b, slow, 0

    def costs(self):
        self.calls += 1
        y = self.solver.plain_seen
        if self.slow:
            # earlier pulses take longer, so runs complete in another order
            time.sleep(self.slow * max(0., 3 - abs(y.flat[0])))
        return np.einsum('ftk,tk->f', self.a, np.sin(y)) + self.b * np.sum(y) ** 2 + .3

    def grad(self):
        y = self.solver.plain_seen
        return np.einsum('ftk,tk->tfk', self.a, np.cos(y)) \
            + 2 * np.sum(y) * self.b[None, :, None] * np.ones(y.shape)[:, None, :]


class PlainSolver(sa.SchroedingerSolver):
    def set_optimization_parameters(self, y):
        self.plain_seen = np.array(y)
        return super().set_optimization_parameters(y)


def plain(rng, slow=0.):
    n_y, k, nf = [int(rng.integers(1, 4)) for _ in range(3)]
    sol = PlainSolver(h_drift=[DO(herm(rng, 2))], h_ctrl=[DO(herm(rng, 2)) for _ in range(k)],
                      tau=rng.uniform(.1, .4, size=n_y))
    c = PlainCost(sol, rng.normal(size=(nf, n_y, k)), .1 * rng.uniform(.5, 1, size=nf),
                  ['c%d' % f for f in range(nf)], slow)
    fs = [c, cf.OperationInfidelity(sol, DO(unitary(rng, 2)), label=['infid'])]
    return qsim.Simulator(solvers=[sol], cost_funcs=fs), (n_y, k), nf + 1, c


@case('C30', quick=4, thorough=30)
def parallel_runs(rng):
    sim, shape, n, c = plain(rng)
    w = weights(rng, n)
    kw = dict(termination_cond=dict(max_iterations=int(rng.integers(2, 12))),
              save_intermediary_steps=bool(rng.integers(2)))
    if rng.integers(2):
        opt = LeastSquaresOptimizer(sim, cost_func_weights=w, **kw)
    else:
        opt = ScalarMinimizingOptimizer(sim, cost_func_weights=w, **kw)
    pulses = [rng.normal(size=shape) for _ in range(int(rng.integers(1, 6)))]
    if rng.integers(2):
        pulses = np.array(pulses)
    procs = [1, 2, 3, None][rng.integers(4)]
    fz = Frozen(pulses=list(pulses))
    ref_opts = [copy.deepcopy(opt) for _ in pulses]
    data = qpar.run_optimization_parallel(opt, pulses, processes=procs)
    fz.check('run_optimization_parallel')
    desc = 'runs=%d processes=%s pulse=%s costs=%d' % (len(pulses), procs, shape, n)
    true(len(data) == len(pulses) == len(data.final_costs), 'number of results, ' + desc)
    true(c.calls == 0 and opt.optim_iter_summary is None,
         'the given optimizer was changed, ' + desc)
    for i, p in enumerate(pulses):
        res = ref_opts[i].run_optimization(p)
        eq(data.final_costs[i], res.final_cost, 'final cost of run %d, %s' % (i, desc))
        eq(data.final_parameters[i], res.final_parameters, 'final pulse of run %d, %s' % (i, desc))
        true(data.status[i] == res.status, 'status of run %d' % i)
        if kw['save_intermediary_steps']:
            eq(np.array(data.parameters[i]), np.array(res.optim_summary.parameters),
               'steps of run %d, %s' % (i, desc))
            eq(np.array(data.costs[i]), np.array(res.optim_summary.costs),
               'costs of run %d, %s' % (i, desc))
    true(list(data.indices) == list(sim.cost_indices), 'labels')
    return desc


class Remembering(PlainCost):
    """Costs depend on what the object was used for before."""

    def costs(self):
        return super().costs() * (1 + .1 * self.calls)


@case('C30', quick=2, thorough=10)
def independent_runs(rng):
    # more pulses than fit into one task per process: several runs form a chunk
    sim, shape, n, c = plain(rng)
    c.__class__ = Remembering
    opt = ScalarMinimizingOptimizer(sim, termination_cond=dict(max_iterations=1),
                                    use_jacobian_function=False)
    procs = int(rng.integers(1, 3))
    pulses = [rng.normal(size=shape) for _ in range(8 * procs + int(rng.integers(1, 4)))]
    data = qpar.run_optimization_parallel(opt, pulses, processes=procs)
    for i in (0, 1, 2, 3, len(pulses) - 1):
        res = copy.deepcopy(opt).run_optimization(pulses[i])
        eq(np.array(data.costs[i]), np.array(res.optim_summary.costs),
           'costs of run %d of %d with %d processes' % (i, len(pulses), procs))
    true(c.calls == 0, 'the given optimizer was changed')
    return 'runs=%d processes=%d' % (len(pulses), procs)


@case('C30', quick=1, thorough=4)
def completion_order(rng):
    sim, shape, n, c = plain(rng, .02)
    opt = ScalarMinimizingOptimizer(sim, termination_cond=dict(max_iterations=2),
                                    use_jacobian_function=False)
    pulses = []
    for i in range(4):
        p = rng.normal(size=shape) * .1
        p.flat[0] = float(i)
        pulses.append(p)
    data = qpar.run_optimization_parallel(opt, pulses, processes=4)
    for i, p in enumerate(pulses):
        eq(data.parameters[i][0], p, 'result %d belongs to another pulse' % i)
    return 'four runs'
