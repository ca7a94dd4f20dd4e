"""Concrete contracts of result containers and analysis (C27, C28)."""
import copy
import os
import shutil
import tempfile

import numpy as np

from oracle.frame import case
from oracle.lib import *
from qopt.data_container import DataContainer
from qopt.optimization_data import OptimizationResult, OptimizationSummary
from qopt.performance_statistics import PerformanceStatistics
from qopt.analyser import Analyser

FIELDS = ('final_costs', 'indices', 'init_parameters', 'final_parameters', 'costs',
          'parameters', 'status', 'optimization_statistics', 'storage_path', 'file_name',
          'append_time_to_path')
RFIELDS = ('final_cost', 'indices', 'final_parameters', 'final_grad_norm', 'init_parameters',
           'num_iter', 'termination_reason', 'status', 'optimizer', 'optimization_stats',
           'optim_summary')


def stats(rng, k, n):
    s = PerformanceStatistics()
    s.start_t_opt = float(rng.uniform(0, 5))
    s.end_t_opt = s.start_t_opt + float(rng.uniform(.1, 9))
    s.indices = ['c%d' % i for i in range(k)]
    for _ in range(n):
        s.cost_func_eval_times.append(list(rng.uniform(0, 1, size=k)))
    for _ in range(int(rng.integers(1, 5))):
        s.grad_func_eval_times.append(list(rng.uniform(0, 1, size=k)))
    return s


def result(rng, labels, n=None, summary=None, scalar=None):
    k = len(labels)
    shape = (int(rng.integers(1, 4)), int(rng.integers(1, 3)))
    n = int(rng.integers(0, 6)) if n is None else n
    summary = bool(rng.integers(4)) if summary is None else summary
    scalar = bool(rng.integers(3) == 0) if scalar is None else scalar
    summ = OptimizationSummary(
        indices=list(labels), iter_num=n, costs=[rng.normal(size=k) for _ in range(n)],
        gradients=[rng.normal(size=(shape[0], k, shape[1])) for _ in range(n)],
        parameters=[rng.normal(size=shape) for _ in range(n)]) if summary else None
    return OptimizationResult(
        final_cost=float(rng.normal()) if scalar else rng.normal(size=k),
        indices=list(labels), final_parameters=rng.normal(size=shape),
        final_grad_norm=float(rng.uniform()), init_parameters=rng.normal(size=shape),
        num_iter=int(rng.integers(50)), termination_reason='reason %d' % rng.integers(9),
        status=int(rng.integers(-1, 5)), optimizer='opt' if rng.integers(2) else None,
        optimization_stats=stats(rng, k, int(rng.integers(1, 6))) if rng.integers(2) else None,
        optim_summary=summ)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    if hasattr(a, '__dict__'):
        return type(a) is type(b) and same(vars(a), vars(b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    return type(a) is type(b) and a == b


def shared(a, b, path='container'):
    """Path of a mutable object reachable in both, or None."""
    def walk(o, p, out):
        if isinstance(o, (list, np.ndarray, dict)) or hasattr(o, '__dict__'):
            out[id(o)] = (o, p)
        if isinstance(o, (list, tuple)):
            for i, v in enumerate(o):
                walk(v, '%s[%d]' % (p, i), out)
        elif isinstance(o, dict):
            for k, v in o.items():
                walk(v, '%s.%s' % (p, k), out)
        elif hasattr(o, '__dict__'):
            walk(vars(o), p, out)
        return out
    wa, wb = walk(a, path, {}), walk(b, path, {})
    for i in wa:
        if i in wb:
            return wa[i][1]
    return None


def container(rng, labels, n_runs, **kw):
    d = DataContainer(storage_path='somewhere', file_name='name%d' % rng.integers(9),
                      append_time_to_path=bool(rng.integers(2)))
    rs = [result(rng, labels, **kw) for _ in range(n_runs)]
    for r in rs:
        d.append_optim_result(r)
    return d, rs


@case('C27', quick=60, thorough=800)
def appending(rng):
    labels = ['c%d' % i for i in range(rng.integers(1, 4))]
    n = int(rng.integers(0, 6))
    d = DataContainer()
    rs = []
    for i in range(n):
        r = result(rng, labels)
        snap = copy.deepcopy(r)
        d.append_optim_result(r)
        true(same(r, snap), 'the appended result was changed')
        rs.append(r)
        if rng.integers(2):
            kinds = [labels[:-1] + ['other'], labels + ['more'], labels[::-1]]
            bad = result(rng, kinds[rng.integers(3 if len(labels) > 1 else 2)])
            before = copy.deepcopy(d)
            raises(lambda: d.append_optim_result(bad), 'appending other labels')
            true(same(d, before), 'a refused result changed the container')
    true(len(d) == n, 'length %d of %d' % (len(d), n))
    for name, want in (
            ('final_costs', [r.final_cost for r in rs]),
            ('init_parameters', [r.init_parameters for r in rs]),
            ('final_parameters', [r.final_parameters for r in rs]),
            ('status', [r.status for r in rs]),
            ('optimization_statistics', [r.optimization_stats for r in rs]),
            ('costs', [r.optim_summary.costs if r.optim_summary else [] for r in rs]),
            ('parameters', [r.optim_summary.parameters if r.optim_summary else [] for r in rs])):
        true(same(getattr(d, name), want), 'field %s after %d appends' % (name, n))
    if n:
        true(d.indices == labels, 'labels of the container')
    e = DataContainer()
    true(len(e) == 0 and e.final_costs == [] and e.status == [], 'containers share state')
    return 'runs=%d labels=%d' % (n, len(labels))


@case('C27', quick=60, thorough=800)
def dictionaries(rng):
    r = result(rng, ['c%d' % i for i in range(rng.integers(1, 4))])
    snap = copy.deepcopy(r)
    q = OptimizationResult.from_dict(r.to_dict())
    for f in RFIELDS:
        true(same(getattr(q, f), getattr(snap, f)), 'field %s after conversion' % f)
    true(same(r, snap), 'the conversion changed the result')
    true(same(vars(q), vars(snap)), 'fields after conversion')
    return 'summary=%s' % (r.optim_summary is not None)


@case('C27', quick=30, thorough=300)
def files(rng):
    d, rs = container(rng, ['c%d' % i for i in range(rng.integers(1, 4))],
                      int(rng.integers(0, 5)))
    if rng.integers(3) == 0:
        d = copy.deepcopy(d)
    tmp = tempfile.mkdtemp(prefix='qopt_c27_')
    try:
        if rng.integers(2):
            d.storage_path = tmp
            if rng.integers(2):
                path = os.path.join(tmp, d.file_name)
            else:
                d.file_name = None
                d.storage_path = path = os.path.join(tmp, 'single')
            snap = copy.deepcopy(d)
            d.to_pickle()
        else:
            path = os.path.join(tmp, 'file')
            snap = copy.deepcopy(d)
            d.to_pickle(path)
        q = DataContainer.from_pickle(path)
    finally:
        shutil.rmtree(tmp)
    for f in FIELDS:
        true(same(getattr(q, f), getattr(snap, f)), 'field %s after reading the file' % f)
        true(same(getattr(d, f), getattr(snap, f)), 'field %s after writing' % f)
    return 'runs=%d' % len(d)


@case('C27', quick=60, thorough=800)
def copies(rng):
    d, rs = container(rng, ['c%d' % i for i in range(rng.integers(1, 4))],
                      int(rng.integers(0, 5)))
    fields = {f: getattr(d, f) for f in FIELDS}
    q = copy.deepcopy(d)
    for f in FIELDS:
        true(same(getattr(q, f), getattr(d, f)), 'field %s of the copy' % f)
        true(getattr(d, f) is fields[f], 'field %s of the original was replaced' % f)
    s = shared(d, q)
    true(s is None, 'the copy shares %s' % s)
    before = copy.deepcopy(rs)
    n = len(d)
    q.append_optim_result(result(rng, q.indices or ['c0']))
    true(len(d) == n and len(q) == n + 1, 'appending to the copy changed the original')
    true(same(rs, before), 'results changed')
    return 'runs=%d' % n


# -------------------------------------------------------------------- C28
def runs_container(rng):
    labels = ['c%d' % i for i in range(rng.integers(1, 5))]
    d = DataContainer()
    scalar = bool(rng.integers(3) == 0)
    for _ in range(int(rng.integers(1, 6))):
        r = result(rng, labels, n=int(rng.integers(1, 7)), summary=True, scalar=scalar)
        r.optimization_stats = stats(rng, len(labels), int(rng.integers(1, 6)))
        d.append_optim_result(r)
    return d, labels, scalar


@case('C28', quick=100, thorough=1500)
def aggregates(rng):
    d, labels, scalar = runs_container(rng)
    snap = copy.deepcopy(d)
    a = Analyser(d)
    desc = 'runs=%d labels=%d scalar=%s steps=%s' % (len(d), len(labels), scalar,
                                                     [len(c) for c in d.costs])
    sq = [np.sum(np.array(c) ** 2) for c in d.final_costs]
    n = a.n_least_square
    true(isinstance(n, int), 'type of the index of the best run')
    eq(sq[n], min(sq), 'best run, ' + desc)
    true(n == int(np.argmin(sq)), 'best run')
    ac = a.absolute_costs()
    m = max(len(c) for c in d.costs)
    true(ac.shape == (len(d), m), 'shape of the absolute costs %s, %s' % (ac.shape, desc))
    for i, run in enumerate(d.costs):
        for j in range(m):
            if j < len(run):
                eq(ac[i, j], np.sqrt(np.sum(run[j] ** 2)), 'absolute costs, ' + desc)
            else:
                true(np.isnan(ac[i, j]), 'costs after the end of run %d, %s' % (i, desc))
    st = d.optimization_statistics
    tc, tg, tt = 0., 0., 0.
    times = a.opt_times()
    true(len(times) == len(d), 'number of times')
    for i, s in enumerate(st):
        c = [sum(e[k] for e in s.cost_func_eval_times) for k in range(len(labels))]
        g = [sum(e[k] for e in s.grad_func_eval_times) for k in range(len(labels))]
        eq(a.integral_cost_fkt_times(i), np.array(c), 'cost function times, ' + desc)
        eq(a.integral_grad_fkt_times(i), np.array(g), 'gradient times, ' + desc)
        eq(times[i], s.end_t_opt - s.start_t_opt, 'optimisation time, ' + desc)
        tc, tg, tt = tc + sum(c), tg + sum(g), tt + s.end_t_opt - s.start_t_opt
    eq(a.total_cost_fkt_time(), tc, 'total cost function time, ' + desc)
    eq(a.total_grad_fkt_time(), tg, 'total gradient time, ' + desc)
    eq(a.time_share_cost_fkt(), tc / tt, 'time share, ' + desc)
    eq(a.time_share_grad_fkt(), tg / tt, 'gradient time share, ' + desc)
    true(same(d, snap), 'the analysis changed the data')
    return desc
