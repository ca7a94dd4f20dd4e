"""Concrete contracts of transfer and amplitude functions (C14-C18)."""
import copy

import numpy as np

from oracle.frame import case
from oracle.lib import (eq, eq_bound, magnitudes, true, raises, Frozen, Skip, fail, rand_tf, make_tf,
                        rand_times, rand_amp, tfm, am, TF_KINDS, ref_times,
                        rand_bound, pads, exp_matrix, rep_matrix)


def dims(rng, hi=6):
    return int(rng.integers(1, 4)), int(rng.integers(1, hi))


def any_tf(rng, kinds=TF_KINDS, hi=6):
    k, n = dims(rng, hi)
    r, t = rand_tf(rng, k, n, kinds)
    return r, t, k, n


def prepared(rng, kinds=TF_KINDS, hi=6):
    """A transfer function, possibly used with other times before."""
    r, t, k, n = any_tf(rng, kinds, hi)
    hist = ''
    if rng.random() < 0.5:
        n0 = r.n_y if r.n_y else int(rng.integers(1, hi))
        t0 = rand_times(rng, n0, uniform=getattr(r, 'uniform', False))
        try:
            r.tf.set_times(t0.copy())
            r.tf(rng.normal(size=(n0, k)))
            hist = ' after %d other steps' % n0
        except Skip:
            pass
    form = rng.integers(4)
    if form == 0:
        r.tf.set_times(list(map(float, t)))
    elif form == 1:
        r.tf.set_times(t.copy()[:, None])
    else:
        r.tf.set_times(t.copy())
    return r, t, k, n, '%s n=%d k=%d%s' % (r.desc, n, k, hist)


# ----------------------------------------------------------------- C14
@case('C14', quick=150, thorough=3000)
def magnitudes_of_derivatives(rng):
    """Derivatives and pulses in arbitrary units, different for every control."""
    r, t, k, n, desc = prepared(rng)
    f = int(rng.integers(1, 3))
    s = magnitudes(rng, f, k)
    g = rng.normal(size=(len(r.times(t)), f, k)) * s
    got = np.asarray(r.tf.gradient_chain_rule(g.copy()))
    m = r.matrix(t)
    mix = any(np.any(m[:, a, :, b]) for a in range(k) for b in range(k) if a != b)
    want = np.einsum('iljk,ifl->jfk', m, g)
    bound = np.einsum('iljk,ifl->jfk', np.abs(m), np.abs(g))
    eq_bound(got, want, 'converted derivatives of ' + desc,
             1e-8 * (bound + np.max(bound, axis=0, keepdims=True)
                     + np.max(np.abs(g), axis=(0, 2) if mix else 0, keepdims=True)))
    return '%s %s' % (desc, mix)


@case('C14', quick=600, thorough=20000)
def gradient_is_transpose(rng):
    r, t, k, n, desc = prepared(rng)
    nx = len(r.times(t))
    f = int(rng.integers(1, 4))
    g = rng.normal(size=(nx, f, k))
    fz = Frozen(derivs=g)
    if rng.random() < 0.5:
        r.tf(rng.normal(size=(n, k)))
    got = r.tf.gradient_chain_rule(g)
    want = np.einsum('iljk,ifl->jfk', r.matrix(t), g)
    eq(got, want, 'converted derivatives of ' + desc)
    fz.check('gradient_chain_rule')
    # the same statement with the function's own values
    y = rng.normal(size=(n, k))
    dy = rng.normal(size=(n, k))
    dx = r.tf(y + dy) - r.tf(y)
    lhs = np.einsum('ifl,il->f', g, dx)
    rhs = np.einsum('jfk,jk->f', np.asarray(got), dy)
    eq(lhs, rhs, 'pairing of values and converted derivatives of ' + desc)
    return desc


@case('C14', quick=200, thorough=4000)
def derivatives_changed_in_place(rng):
    r, t, k, n, desc = prepared(rng)
    g = rng.normal(size=(len(r.times(t)), int(rng.integers(1, 4)), k))
    for q in range(3):
        eq(r.tf.gradient_chain_rule(g), np.einsum('iljk,ifl->jfk', r.matrix(t), g),
           'converted derivatives after %d changes in place, %s' % (q, desc))
        g += rng.normal(size=g.shape)
    return desc


@case('C14', quick=150, thorough=4000)
def affine(rng):
    r, t, k, n, desc = prepared(rng)
    a, b = rng.normal(size=(2, n, k))
    z = np.zeros((n, k))
    s = float(rng.normal())
    base = r.tf(z).copy()
    eq(r.tf(a + s * b), r.tf(a).copy() + s * (r.tf(b) - base),
       'affine transfer ' + desc)
    return desc


@case('C14', quick=150, thorough=4000)
def controls_and_costs_separate(rng):
    r, t, k, n, desc = prepared(rng)
    nx = len(r.times(t))
    f = int(rng.integers(1, 4))
    g = np.zeros((nx, f, k))
    i, j, l = rng.integers(nx), rng.integers(f), rng.integers(k)
    g[i, j, l] = 1.5
    got = np.asarray(r.tf.gradient_chain_rule(g))
    true(got.shape == (n, f, k), 'layout of converted derivatives %s: %s'
         % (desc, got.shape))
    mask = np.ones((n, f, k), bool)
    mask[:, j, l] = False
    eq(got[mask], np.zeros(mask.sum()), 'derivatives leak to other controls or '
       'costs in ' + desc)
    eq(got[:, j, l], 1.5 * r.matrix(t)[i, l, :, l], 'row of the transfer ' + desc)
    return desc


@case('C14', quick=60, thorough=1500)
def wrong_shapes_rejected(rng):
    r, t, k, n, desc = prepared(rng, ('over', 'overM', 'conv', 'gauss', 'custom'))
    nx = len(r.times(t))
    for shp in ((nx + 1, 1, k), (nx, 1, k + 1), (nx, k)):
        raises(lambda: r.tf.gradient_chain_rule(rng.normal(size=shp)),
               'derivatives of shape %s for (%d, f, %d) in %s' % (shp, nx, k, desc))
    return desc


# ----------------------------------------------------------------- C15
@case('C15', quick=500, thorough=15000)
def time_grids(rng):
    r, t, k, n, desc = prepared(rng)
    want = r.times(t)
    eq(r.tf.x_times, want, 'transferred durations of ' + desc)
    true(r.tf.num_x == len(want), 'num_x of %s: %s, expected %d'
         % (desc, r.tf.num_x, len(want)))
    x = r.tf(rng.normal(size=(n, k)))
    true(x.shape == (len(want), k), 'shape of the transferred pulse of %s: %s'
         % (desc, x.shape))
    return desc


@case('C15', quick=120, thorough=3000)
def padding_and_duration(rng):
    kind = ['over', 'overM', 'exp', 'custom'][rng.integers(4)]
    k, n = dims(rng)
    o, bd = int(rng.integers(1, 6)), rand_bound(rng)
    if kind == 'custom':
        a, b = pads(bd, o)
        tf = tfm.CustomMTF(rng.normal(size=(a + b + n * o, n, k)), bound_type=bd,
                           num_ctrls=k)
    else:
        cls = dict(over=tfm.OversamplingTF, overM=tfm.OversamplingMTF)
        tf = cls[kind](num_ctrls=k, bound_type=bd, oversampling=o) \
            if kind != 'exp' else tfm.ExponentialMTF(
                .3, num_ctrls=k, bound_type=bd, oversampling=o)
    t = rng.uniform(.1, 2., size=n)
    if kind == 'exp':
        t[:] = t[0]
    fz = Frozen(times=t)
    tf.set_times(t)
    a, b = pads(bd, o)
    desc = '%s over=%d bound=%s n=%d' % (kind, o, bd, n)
    true(tuple(tf.num_padding_elements) == (a, b), 'padding %s of %s, expected %s'
         % (tf.num_padding_elements, desc, (a, b)))
    xt = np.asarray(tf.x_times)
    true(len(xt) == tf.num_x == a + b + n * o, 'length of the grid of ' + desc)
    for s in range(n):
        part = xt[a + s * o:a + (s + 1) * o]
        eq(part, np.full(o, t[s] / o), 'sub steps of step %d of %s' % (s, desc))
        eq(part.sum(), t[s], 'duration of step %d of %s' % (s, desc))
    eq(xt[:a], np.full(a, t[0] / o), 'leading padding of ' + desc)
    eq(xt[len(xt) - b:], np.full(b, t[-1] / o), 'trailing padding of ' + desc)
    fz.check('set_times')
    return desc


@case('C15', quick=100, thorough=2000)
def absolute_times(rng):
    kinds = [s for s in TF_KINDS if s not in ('custom',)]
    r, t, k, n = any_tf(rng, kinds)
    if r.n_y or getattr(r, 'uniform', False) or n < 1:
        raise Skip()
    ab = np.concatenate(([rng.normal()], t)).cumsum()
    r.tf.set_absolute_times(list(ab) if rng.integers(2) else ab.copy())
    eq(r.tf.x_times, r.times(np.diff(ab)), 'grid from absolute times of ' + r.desc)
    if n >= 2:
        bad = ab.copy()
        bad[1], bad[2] = bad[2], bad[1]
        raises(lambda: r.tf.set_absolute_times(bad), 'unsorted times ' + r.desc)
        bad = ab[::-1].copy()
        raises(lambda: r.tf.set_absolute_times(bad), 'reversed times ' + r.desc)
    return r.desc + ' n=%d' % n


@case('C15', quick=40, thorough=400)
def invalid_times(rng):
    r, t, k, n = any_tf(rng, ('over', 'overM', 'identity', 'conv', 'gauss'))
    raises(lambda: r.tf.set_times(rng.uniform(.1, 1, size=(2, 3))), 'two dimensional '
           'times')
    raises(lambda: r.tf.set_times('abc'), 'times of a wrong type')
    bad = tfm.OversamplingTF(num_ctrls=1, bound_type=('q', 1), oversampling=2)
    raises(lambda: bad.set_times(np.ones(3)), 'unknown bound type')
    raises(lambda: bad.num_padding_elements, 'padding of an unknown bound type')
    return r.desc


@case('C15', quick=60, thorough=1000)
def repeated_set_times(rng):
    r, t, k, n = any_tf(rng)
    for _ in range(3):
        m = r.n_y or int(rng.integers(1, 6))
        t = rand_times(rng, m, uniform=getattr(r, 'uniform', False))
        r.tf.set_times(t.copy())
        eq(r.tf.x_times, r.times(t), 'grid after repeated setting of ' + r.desc)
        true(r.tf.num_x == len(r.times(t)), 'num_x after repeated setting')
    return r.desc


# ----------------------------------------------------------------- C16
@case('C16', quick=600, thorough=20000)
def values(rng):
    kinds = [s for s in TF_KINDS if 'concat' not in s and 'parallel' not in s]
    r, t, k, n, desc = prepared(rng, kinds)
    for _ in range(2):
        y = rng.normal(size=(n, k))
        if rng.random() < .2:
            y = y.astype(np.float32)
        fz = Frozen(pulse=y)
        got = r.tf(y)
        eq(got, r.value(t, y.astype(float)), 'transferred pulse of ' + desc,
           tol=1e-8 if y.dtype == np.float64 else 1e-5)
        fz.check('the transfer function')
    return desc


@case('C16', quick=150, thorough=3000)
def magnitudes_of_pulses(rng):
    # a composition may cancel the offset of its first part
    r, t, k, n, desc = prepared(rng, [x for x in TF_KINDS if 'concat' not in x])
    y = rng.normal(size=(n, k)) * (magnitudes(rng, k) if rng.integers(2)
                                   else magnitudes(rng, n, k))
    want = r.value(t, y)
    bound = np.max(np.abs(y), axis=0) + np.max(np.abs(want), axis=0)
    eq_bound(np.asarray(r.tf(y.copy())), want, 'transferred pulse of ' + desc,
             1e-8 * bound + 0 * want)
    return desc


@case('C16', quick=200, thorough=4000)
def pulse_changed_in_place(rng):
    r, t, k, n, desc = prepared(rng)
    y = rng.normal(size=(n, k))
    for q in range(3):
        eq(r.tf(y), r.value(t, y), 'transferred pulse after %d changes in place, %s' % (q, desc))
        y += rng.normal(size=y.shape)
    return desc


@case('C16', quick=200, thorough=4000)
def exponential_rule(rng):
    k, n = dims(rng)
    o, bd = int(rng.integers(1, 6)), rand_bound(rng, allow_none=bool(rng.integers(2)))
    rise, tau = float(rng.uniform(.05, 3)), float(rng.uniform(.1, 2))
    off = [None, 0., .8][rng.integers(3)]
    tf = tfm.ExponentialMTF(rise, oversampling=o, bound_type=bd, num_ctrls=k,
                            offset=off)
    tf.set_times(np.full(n, tau))
    y = rng.normal(size=(n, k))
    a, b = pads(bd, o)
    got = tf(y) - (off or 0)
    want = np.zeros((a + b + n * o, k))
    prev = np.zeros(k)
    for s in range(n):
        for j in range(o):
            tt = (j + 1) * tau / o
            want[a + s * o + j] = prev + (y[s] - prev) * (1 - np.exp(-tt / rise))
        prev = y[s]
    for i in range(b):
        want[a + n * o + i] = prev * np.exp(-(i + 1) * tau / o / rise)
    desc = 'exponential over=%d bound=%s rise=%.3g n=%d' % (o, bd, rise, n)
    eq(got, want, 'exponential saturation, ' + desc)
    m = np.asarray(tf.transfer_matrix)
    eq(np.einsum('ijk,jk->ik', m, y), want, 'transfer matrix of ' + desc)
    return desc


@case('C16', quick=60, thorough=1500)
def transfer_matrix(rng):
    r, t, k, n, desc = prepared(rng, ('overM', 'custom', 'exp', 'concatM',
                                      'parallelM'))
    m = np.asarray(r.tf.transfer_matrix)
    full = r.matrix(t)
    want = np.stack([full[:, c, :, c] for c in range(k)], axis=2)
    eq(m, want, 'transfer matrix of ' + desc)
    return desc


@case('C16', quick=150, thorough=2000)
def rejected(rng):
    k, n = dims(rng)
    kinds = ['over', 'overM', 'conv', 'gauss', 'exp', 'custom', 'concat',
             'concatM', 'parallel', 'parallelM']
    r, t = rand_tf(rng, k, n, kinds)
    fresh = not rng.integers(4)
    if fresh and r.n_y is None and ('parallel' not in r.desc) and 'concat' not in r.desc:
        raises(lambda: r.tf(rng.normal(size=(n, k))), 'pulse before the times are '
               'set in ' + r.desc)
    r.tf.set_times(t.copy())
    y = rng.normal(size=(n, k))
    for bad, what in ((rng.normal(size=(n + 1, k)), 'too many time steps'),
                      (rng.normal(size=(n, k + 1)), 'too many controls'),
                      (rng.normal(size=n), 'one dimension'),
                      (rng.normal(size=(n, k, 1)), 'three dimensions'),
                      (y.astype(complex), 'complex'), (y.astype(int), 'integer'),
                      (y.astype(object), 'objects')):
        raises(lambda: r.tf(bad), 'pulse with %s accepted by %s' % (what, r.desc))
    if n > 1:
        raises(lambda: r.tf(y[:-1]), 'too few time steps accepted by ' + r.desc)
    if k > 1:
        raises(lambda: r.tf(y[:, :-1]), 'too few controls accepted by ' + r.desc)
    eq(r.tf(y), r.value(t, y), 'value after rejected pulses, ' + r.desc)
    return r.desc + ' n=%d k=%d' % (n, k)


# ----------------------------------------------------------------- C17
COMP = ('concat', 'concatM', 'parallel', 'parallelM')


@case('C17', quick=700, thorough=20000)
def composed_values(rng):
    r, t, k, n, desc = prepared(rng, COMP)
    y = rng.normal(size=(n, k))
    for _ in range(2):
        eq(r.tf(y), r.value(t, y), 'composed pulse of ' + desc)
        y = rng.normal(size=(n, k))
    eq(r.tf.x_times, r.times(t), 'composed grid of ' + desc)
    true(r.tf.num_x == len(r.times(t)), 'composed number of steps of ' + desc)
    f = int(rng.integers(1, 4))
    g = rng.normal(size=(len(r.times(t)), f, k))
    eq(r.tf.gradient_chain_rule(g), np.einsum('iljk,ifl->jfk', r.matrix(t), g),
       'composed gradient of ' + desc)
    return desc


@case('C17', quick=200, thorough=4000)
def against_parts(rng):
    r, t, k, n, desc = prepared(rng, COMP)
    if not hasattr(r, 'parts'):
        raise Skip()
    r1, r2 = r.parts
    t1, t2 = copy.deepcopy(r1.tf), copy.deepcopy(r2.tf)
    t1.set_times(t.copy())
    y = rng.normal(size=(n, k))
    ser = 'concat' in desc.split('[')[0]
    t2.set_times(np.array(t1.x_times) if ser else t.copy())
    if ser:
        want = t2(np.array(t1(y)))
    else:
        k1 = t1.num_ctrls
        want = np.concatenate((t1(y[:, :k1].copy()), t2(y[:, k1:].copy())), axis=1)
    eq(r.tf(y), want, 'composition differs from its parts ' + desc)
    return desc


@case('C17', quick=150, thorough=3000)
def parts_prepared_before(rng):
    r, t, k, n, desc = prepared(rng, COMP)
    if not hasattr(r, 'parts'):
        raise Skip()
    # a new composition of the parts, which already have their times
    tf = type(r.tf)(r.tf.tf1, r.tf.tf2)
    y = rng.normal(size=(n, k))
    m = len(r.times(t))
    true(tf.num_x == m and len(tf.x_times) == m and tf.num_ctrls == k,
         'sizes of a composition of prepared parts ' + desc)
    eq(tf.x_times, r.times(t), 'grid of a composition of prepared parts ' + desc)
    eq(tf(y), r.value(t, y), 'pulse of a composition of prepared parts ' + desc)
    g = rng.normal(size=(m, 2, k))
    eq(tf.gradient_chain_rule(g), np.einsum('iljk,ifl->jfk', r.matrix(t), g),
       'gradient of a composition of prepared parts ' + desc)
    return desc


@case('C17', quick=40, thorough=300)
def incompatible(rng):
    cls = [tfm.ParallelTF, tfm.ParallelMTF][rng.integers(2)]
    a = tfm.OversamplingMTF(oversampling=2, num_ctrls=1)
    b = tfm.OversamplingMTF(oversampling=3, num_ctrls=2)
    a.set_times(np.ones(3))
    b.set_times(np.ones(3))
    raises(lambda: cls(a, b), 'parallel functions of different grids')
    c = tfm.OversamplingMTF(oversampling=2, num_ctrls=1)
    c.set_times(np.ones(4))
    raises(lambda: cls(a, c), 'parallel functions of different step numbers')
    return cls.__name__


# ----------------------------------------------------------------- C18
@case('C18', quick=400, thorough=10000)
def chain_rule(rng):
    n, f = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    r = rand_amp(rng, int(rng.integers(1, 4)))
    x = rng.normal(size=(n, r.n_par))
    g = rng.normal(size=(n, f, r.n_amp))
    fz = Frozen(x=x, g=g)
    eq(r.amp(x), r.value(x), 'amplitudes of ' + r.desc)
    got = r.amp.derivative_by_chain_rule(g, x)
    want = np.einsum('tmj,tfj->tfm', r.deriv(x), g)
    eq(got, want, 'converted derivatives of ' + r.desc)
    fz.check('the amplitude function')
    return '%s n=%d f=%d' % (r.desc, n, f)


@case('C18', quick=150, thorough=3000)
def magnitudes_of_parameters(rng):
    """Parameters in units in which they are tiny."""
    n, k, f = (int(rng.integers(1, 5)) for _ in range(3))
    x = rng.normal(size=(n, k)) * magnitudes(rng, n, k)
    g = rng.normal(size=(n, f, k)) * magnitudes(rng, n, f, k)
    c, p = 10. ** rng.uniform(-3, 20), int(rng.integers(1, 4))
    amp = am.UnaryAnalyticAmpFunc(lambda v: c * v + v ** p, lambda v: c + p * v ** (p - 1))
    want, der = c * x + x ** p, c + p * x ** (p - 1)
    eq_bound(amp(x), want, 'unary values', 1e-13 * (np.abs(c * x) + np.abs(x ** p)))
    w = der[:, None, :] * g
    eq_bound(amp.derivative_by_chain_rule(g, x), w, 'unary derivatives',
             1e-13 * (c + np.abs(p * x ** (p - 1)))[:, None, :] * np.abs(g))
    a = am.IdentityAmpFunc()
    eq_bound(a(x), x, 'identity', 0)
    eq_bound(a.derivative_by_chain_rule(g, x), g, 'identity derivatives', 0)
    q = rng.normal(size=(k, 2)) * magnitudes(rng, k, 2)
    h = rng.normal(size=(n, f, 2)) * magnitudes(rng, n, f, 2)
    b = am.CustomAmpFunc(lambda v: v @ q, lambda v: np.repeat(q[None], len(v), axis=0))
    eq_bound(b(x), x @ q, 'custom values', 1e-13 * np.abs(x) @ np.abs(q))
    eq_bound(b.derivative_by_chain_rule(h, x), np.einsum('mj,tfj->tfm', q, h),
             'custom derivatives', 1e-13 * np.einsum('mj,tfj->tfm', np.abs(q), np.abs(h)))
    return 'n=%d k=%d p=%d c=%.2g' % (n, k, p, c)


@case('C18', quick=150, thorough=3000)
def reused(rng):
    """The arrays of earlier calls are changed in place and handed over again."""
    n, f = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    r = rand_amp(rng, int(rng.integers(1, 4)))
    x = rng.normal(size=(n, r.n_par))
    g = rng.normal(size=(n, f, r.n_amp))
    for q in range(3):
        if rng.integers(2):
            eq(r.amp(x), r.value(x), 'amplitudes after %d changes of %s' % (q, r.desc))
        eq(r.amp.derivative_by_chain_rule(g, x), np.einsum('tmj,tfj->tfm', r.deriv(x), g),
           'converted derivatives after %d changes of %s' % (q, r.desc))
        if rng.integers(3):
            x += rng.normal(size=x.shape)
        else:
            x = rng.normal(size=(int(rng.integers(1, 5)), r.n_par))
            g = rng.normal(size=(len(x), f, r.n_amp))
        if rng.integers(2):
            g *= 2
    return r.desc


@case('C18', quick=300, thorough=6000)
def random_jacobian(rng):
    n, f = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    m, j = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    a = rng.normal(size=(m, j))
    q = rng.normal(size=(m, j))
    amp = am.CustomAmpFunc(lambda x: x @ a + x ** 2 @ q,
                           lambda x: a[None] + 2 * x[:, :, None] * q[None])
    x = rng.normal(size=(n, m))
    g = rng.normal(size=(n, f, j))
    eq(amp(x), x @ a + x ** 2 @ q, 'values of a custom function')
    eq(amp.derivative_by_chain_rule(g, x),
       np.einsum('tmj,tfj->tfm', a[None] + 2 * x[:, :, None] * q[None], g),
       'derivatives of a custom function with %d parameters, %d amplitudes' % (m, j))
    # as directional derivatives of the values themselves
    dx = rng.normal(size=(n, m))
    h = 1e-6
    du = (amp(x + h * dx) - amp(x - h * dx)) / 2 / h
    eq(np.einsum('tfj,tj->tf', g, du),
       np.einsum('tfm,tm->tf', amp.derivative_by_chain_rule(g, x), dx),
       'pairing of derivatives and variations', tol=1e-5)
    return 'n=%d f=%d m=%d j=%d' % (n, f, m, j)


@case('C18', quick=150, thorough=3000)
def unary(rng):
    n, f, k = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 5))
    p = int(rng.integers(1, 4))
    kind = rng.integers(3)
    if kind == 0:
        v, d = (lambda x: x ** p), (lambda x: p * x ** (p - 1))
    elif kind == 1:
        v, d = (lambda x: 1 if x < 0 else 1 + x ** 2), (lambda x: 0 if x < 0 else 2 * x)
    else:
        v, d = np.sin, np.cos
    amp = am.UnaryAnalyticAmpFunc(v, d)
    x = rng.normal(size=(n, k))
    if rng.integers(2):
        x[0, 0] = -abs(x[0, 0])
    g = rng.normal(size=(n, f, k))
    val = np.array([[v(e) for e in row] for row in x], float)
    der = np.array([[d(e) for e in row] for row in x], float)
    eq(amp(x), val, 'unary values')
    eq(amp.derivative_by_chain_rule(g, x), der[:, None, :] * g, 'unary derivatives')
    i = am.IdentityAmpFunc()
    eq(i(x), x, 'identity values')
    eq(i.derivative_by_chain_rule(g, x), g, 'identity derivatives')
    return 'kind %d n=%d f=%d k=%d' % (kind, n, f, k)


# ----------------------------------------------------------------- C08
@case('C08', quick=150, thorough=3000)
def conversion_inputs(rng):
    """Transfer and amplitude functions keep pulses, times and derivatives."""
    r, t, k, n = any_tf(rng)
    y, f = rng.normal(size=(n, k)), int(rng.integers(1, 4))
    given = {'times': np.array(t), 'pulse': y}
    fz = Frozen(**given)
    r.tf.set_times(given['times'])
    x = r.tf(y)
    fz.check('the transfer of ' + r.desc)
    g = rng.normal(size=(len(x), f, k))
    fz = Frozen(derivatives=g, **given)
    r.tf.gradient_chain_rule(g)
    r.tf(y)
    fz.check('the gradient conversion of ' + r.desc)
    a = rand_amp(rng, int(rng.integers(1, 4)))
    x = rng.normal(size=(n, a.n_par))
    fz = Frozen(parameters=x)
    u = a.amp(x)
    g = rng.normal(size=(n, f, np.shape(u)[1]))
    fz2 = Frozen(derivatives=g)
    a.amp.derivative_by_chain_rule(g, x)
    a.amp(x)
    fz.check('the amplitude function')
    fz2.check('the chain rule of the amplitude function')
    return r.desc
