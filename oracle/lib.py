"""Shared helpers of the concrete contract oracles.

Everything here is written from the documented semantics, with plain numpy and
scipy, independently of the code in qopt.
"""
import copy
import numpy as np
import scipy.linalg as la
import scipy.ndimage as ndi

from qopt import matrix as qm
from qopt import solver_algorithms as sa
from qopt import transfer_function as tfm
from qopt import amplitude_functions as am
from qopt import noise as qnoise
from qopt import cost_functions as cf
from qopt.matrix import DenseOperator as DO


class Violation(Exception):
    """A contract of the property does not hold on a concrete input."""


class Skip(Exception):
    """The case does not apply (precondition not met)."""


def fail(msg):
    raise Violation(msg)


def arr(x):
    if isinstance(x, DO):
        return np.asarray(x.data)
    return np.asarray(x)


def ops(x):
    """Nested lists of operators to nested numpy array."""
    if isinstance(x, (list, tuple)):
        return np.array([ops(e) for e in x])
    return arr(x)


def show(x):
    with np.printoptions(precision=6, threshold=60, suppress=True):
        return str(np.asarray(x))


def eq(got, want, msg, tol=1e-8):
    got, want = arr(got), arr(want)
    if got.shape != want.shape:
        fail('%s: shape %s, expected %s' % (msg, got.shape, want.shape))
    if got.dtype == object or want.dtype == object:
        if not np.all(got == want):
            fail('%s: got %s expected %s' % (msg, got, want))
        return
    if got.size == 0:
        return
    scale = 1. + np.max(np.abs(want))
    with np.errstate(invalid='ignore'):
        err = np.abs(got - want)
    bad = ~(err <= tol * scale)
    both_nan = np.isnan(np.real(got)) & np.isnan(np.real(want))
    bad &= ~both_nan
    if np.any(bad):
        idx = tuple(int(i) for i in np.argwhere(bad)[0]) if got.ndim else ()
        fail('%s: differs at index %s: got %s, expected %s (max deviation %.3g)'
             % (msg, idx, got[idx], want[idx], np.nanmax(err) if err.size else 0))


def eq_bound(got, want, msg, bound):
    """Every entry within its own bound (entries of very different size)."""
    got, want = arr(got), arr(want)
    if got.shape != want.shape:
        fail('%s: shape %s, expected %s' % (msg, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= bound)
    if np.any(bad):
        idx = tuple(int(i) for i in np.argwhere(bad)[0])
        fail('%s: differs at index %s: got %s, expected %s' % (msg, idx, got[idx], want[idx]))


def magnitudes(rng, *shape):
    """Factors of very different size (values in arbitrary units)."""
    k = rng.integers(3)
    if k == 0:
        return np.full(shape, 10. ** rng.uniform(-30, 12))
    if k == 1:
        return 10. ** rng.uniform(-20, 6, size=shape)
    return 10. ** rng.choice([-16., -11., -8., -5., 0.], size=shape)


def true(cond, msg):
    if not cond:
        fail(msg)


def raises(fn, msg, exc=Exception):
    try:
        fn()
    except exc:
        return
    fail('%s: no exception was raised' % msg)


# --------------------------------------------------------------------------
# snapshots of caller owned data
# --------------------------------------------------------------------------
def snap(x, memo=None):
    """Plain deep value of nested containers / arrays / operators."""
    if isinstance(x, DO):
        return ('op', x.data.shape, x.data.copy())
    if isinstance(x, np.ndarray):
        return ('arr', x.shape, str(x.dtype), x.copy())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(e) for e in x])
    if isinstance(x, dict):
        return ('dict', {k: snap(v) for k, v in x.items()})
    return ('val', x)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b)
    except Exception:
        return a is b


class Frozen:
    """Remembers values and checks that they did not change."""

    def __init__(self, **kw):
        self.objs = kw
        self.snaps = {k: snap(v) for k, v in kw.items()}

    def check(self, when):
        for k, v in self.objs.items():
            if not same(self.snaps[k], snap(v)):
                fail('%s was modified by %s' % (k, when))


# --------------------------------------------------------------------------
# random data
# --------------------------------------------------------------------------
def cmat(rng, n, m=None):
    m = n if m is None else m
    return rng.normal(size=(n, m)) + 1j * rng.normal(size=(n, m))


def herm(rng, d):
    a = cmat(rng, d)
    return (a + a.conj().T) / 2


def unitary(rng, d):
    q, r = np.linalg.qr(cmat(rng, d))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def ket(rng, d):
    k = cmat(rng, d, 1)
    return k / np.linalg.norm(k)


def dense_ops(mats):
    """Operators of a list of matrices; the same matrix object gives the same operator."""
    ops = {}
    for m in mats:
        if id(m) not in ops:
            ops[id(m)] = DO(np.array(m, dtype=complex))
    return [ops[id(m)] for m in mats]


def recurring(rng, items, p=.3):
    """The same list or one in which earlier items recur."""
    items = list(items)
    if len(items) > 1 and rng.random() < p:
        if rng.random() < .5:
            items[-1] = items[0]
        else:
            two = [items[0], items[-1]]
            items = [two[rng.integers(2)] for _ in items]
    return items


# --------------------------------------------------------------------------
# exponentials
# --------------------------------------------------------------------------
EXACT = ('spectral', 'Frechet')
TAYLOR = {'first_order': 1, 'second_order': 2, 'third_order': 3}
METHODS = ('spectral', 'Frechet', 'approx', 'first_order', 'second_order',
           'third_order')


def expm(a):
    return la.expm(a)


def taylor(a, n):
    out = np.eye(a.shape[0], dtype=complex)
    term = np.eye(a.shape[0], dtype=complex)
    for k in range(1, n + 1):
        term = term @ a / k
        out = out + term
    return out


def frechet(a, e):
    """Exact derivative of expm at a in direction e (block triangular)."""
    d = a.shape[0]
    big = np.zeros((2 * d, 2 * d), dtype=complex)
    big[:d, :d] = a
    big[d:, d:] = a
    big[:d, d:] = e
    return la.expm(big)[:d, d:]


def dtaylor(a, e, n):
    d = a.shape[0]
    big = np.zeros((2 * d, 2 * d), dtype=complex)
    big[:d, :d] = a
    big[d:, d:] = a
    big[:d, d:] = e
    return taylor(big, n)[:d, d:]


def ref_exp(a, method):
    if method in TAYLOR:
        return taylor(a, TAYLOR[method])
    return expm(a)


def ref_dexp(a, e, method):
    if method in TAYLOR:
        return dtaylor(a, e, TAYLOR[method])
    return frechet(a, e)


# --------------------------------------------------------------------------
# transfer functions: random instances with an independent reference
# --------------------------------------------------------------------------
class RefTF:
    """tf: qopt instance; times(y_times) -> x_times; value(y) -> x;
    matrix: linear map as array [i, l, j, k]; offset array [i, l]."""

    def __init__(self, tf, num_ctrls, times, linear, offset, desc, n_y=None):
        self.tf, self.k = tf, num_ctrls
        self.times, self._linear, self._offset = times, linear, offset
        self.desc = desc
        self.n_y = n_y   # fixed number of steps (custom matrices)

    def matrix(self, y_times):
        return self._linear(np.asarray(y_times, dtype=float))

    def offset(self, y_times):
        return self._offset(np.asarray(y_times, dtype=float))

    def value(self, y_times, y):
        return np.einsum('iljk,jk->il', self.matrix(y_times), y) \
            + self.offset(y_times)


def pads(bound, over):
    if bound is None:
        return 0, 0
    kind, p = bound
    return {'n': (p, p), 'x': (p * over, p * over), 'right_n': (0, p)}[kind]


def ref_times(y_times, over, bound):
    a, b = pads(bound, over)
    out = [y_times[0] / over] * a
    for t in y_times:
        out += [t / over] * over
    out += [y_times[-1] / over] * b
    return np.array(out)


def diag_ctrl(t2, k):
    """[i, j] -> [i, l, j, k] diagonal in the controls."""
    out = np.zeros((t2.shape[0], k, t2.shape[1], k))
    for c in range(k):
        out[:, c, :, c] = t2
    return out


def rep_matrix(n, over, bound):
    a, b = pads(bound, over)
    t = np.zeros((a + n * over + b, n))
    for i in range(n * over):
        t[a + i, i // over] = 1
    return t


def exp_matrix(y_times, over, bound, rise):
    n = len(y_times)
    a, b = pads(bound, over)
    tau = y_times[0]
    t = np.zeros((a + n * over + b, n))
    for s in range(n):
        for j in range(over):
            e = np.exp(-(j + 1) * tau / over / rise)
            row = a + s * over + j
            t[row, s] += 1 - e
            if s > 0:
                t[row, s - 1] += e
    for i in range(b):
        t[a + n * over + i, n - 1] = np.exp(-(i + 1) * tau / over / rise)
    return t


def rand_bound(rng, allow_none=True):
    opts = [None] if allow_none else []
    opts += [('n', int(rng.integers(0, 4))), ('x', int(rng.integers(0, 3))),
             ('right_n', int(rng.integers(0, 4)))]
    return opts[rng.integers(len(opts))]


TF_KINDS = ('identity', 'over', 'overM', 'conv', 'gauss', 'custom', 'exp',
            'concat', 'concatM', 'parallel', 'parallelM')


def make_tf(rng, kind, k, n_y, depth=0, over=None, bound='rand'):
    """Random transfer function for k controls and n_y steps."""
    o = int(rng.integers(1, 5)) if over is None else over
    bd = rand_bound(rng) if bound == 'rand' else bound
    zero = lambda nx: np.zeros((nx, k))
    if kind == 'identity':
        return RefTF(tfm.IdentityTF(num_ctrls=k), k, lambda t: np.array(t, float),
                     lambda t: diag_ctrl(np.eye(len(t)), k),
                     lambda t: zero(len(t)), 'identity')
    if kind == 'over':
        return RefTF(tfm.OversamplingTF(num_ctrls=k, bound_type=bd, oversampling=o),
                     k, lambda t: ref_times(t, o, bd),
                     lambda t: diag_ctrl(rep_matrix(len(t), o, bd), k),
                     lambda t: zero(len(ref_times(t, o, bd))),
                     'OversamplingTF(%s,%s)' % (o, bd))
    if kind == 'overM':
        off = float(rng.choice([0., 0.7, -1.3]))
        return RefTF(tfm.OversamplingMTF(num_ctrls=k, bound_type=bd,
                                         oversampling=o, offset=off),
                     k, lambda t: ref_times(t, o, bd),
                     lambda t: diag_ctrl(rep_matrix(len(t), o, bd), k),
                     lambda t: zero(len(ref_times(t, o, bd))) + off,
                     'OversamplingMTF(%s,%s,%s)' % (o, bd, off))
    if kind == 'conv':
        ker = rng.normal(size=int(rng.integers(1, 6)))
        mode = ['nearest', 'reflect', 'constant', 'mirror', 'wrap'][rng.integers(5)]
        cval = float(rng.choice([0., 0.6]))

        def lin(t):
            n = len(t)
            m = np.zeros((n, n))
            for j in range(n):
                e = np.zeros(n)
                e[j] = 1
                m[:, j] = ndi.convolve(e, ker, mode=mode, cval=0.)
            return diag_ctrl(m, k)

        def off(t):
            v = ndi.convolve(np.zeros(len(t)), ker, mode=mode, cval=cval)
            return np.repeat(v[:, None], k, axis=1)
        return RefTF(tfm.ConvolutionTF(ker.copy(), mode=mode, num_ctrls=k, cval=cval),
                     k, lambda t: np.array(t, float), lin, off,
                     'ConvolutionTF(%s,%s,%s)' % (ker.tolist(), mode, cval))
    if kind == 'gauss':
        sig = float(rng.choice([0.4, 1., 2.3]))
        order = int(rng.choice([0, 0, 1, 2]))
        mode = ['nearest', 'reflect', 'constant', 'mirror', 'wrap'][rng.integers(5)]
        trunc = float(rng.choice([4., 2.]))

        def lin(t):
            n = len(t)
            m = np.zeros((n, n))
            for j in range(n):
                e = np.zeros(n)
                e[j] = 1
                m[:, j] = ndi.gaussian_filter1d(e, sig, order=order, mode=mode,
                                                truncate=trunc)
            return diag_ctrl(m, k)
        return RefTF(tfm.GaussianConvolution(sig, num_ctrls=k, order=order,
                                             mode=mode, truncate=trunc),
                     k, lambda t: np.array(t, float), lin,
                     lambda t: zero(len(t)),
                     'GaussianConvolution(%s,%s,%s,%s)' % (sig, order, mode, trunc))
    if kind == 'custom':
        a, b = pads(bd, o)
        nx = a + b + o * n_y
        mat = rng.normal(size=(nx, n_y, k))
        special = rng.integers(8)
        if special == 0:        # equal for all controls in one step only
            i = [0, -1][rng.integers(2)]
            mat[i] = mat[i, :, :1]
        elif special == 1:
            i = [0, -1][rng.integers(2)]
            mat[:, i] = mat[:, i, :1]
        elif special == 2:
            mat[:, :, -1] = mat[:, :, 0]
        elif special == 3:
            mat[rng.random(mat.shape) < .6] = 0
        off = [None, 0.4][rng.integers(2)]
        use_x = bool(rng.integers(2)) and bd is None
        xt = np.abs(rng.normal(size=nx)) + 0.1 if use_x else None

        def lin(t):
            out = np.zeros((nx, k, n_y, k))
            for c in range(k):
                out[:, c, :, c] = mat[:, :, c]
            return out
        tf = tfm.CustomMTF(mat.copy(), x_times=None if xt is None else xt.copy(),
                           bound_type=bd, oversampling=o, offset=off, num_ctrls=k)
        return RefTF(tf, k,
                     (lambda t: xt) if use_x else (lambda t: ref_times(t, o, bd)),
                     lin, lambda t: zero(nx) + (0 if off is None else off),
                     'CustomMTF(%s,%s,%s,x=%s)' % (o, bd, off, use_x), n_y=n_y)
    if kind == 'exp':
        rise = float(rng.choice([0.05, 0.4, 3.]))
        off = [None, 0.3][rng.integers(2)]
        r = RefTF(tfm.ExponentialMTF(rise, oversampling=o, bound_type=bd,
                                     offset=off, num_ctrls=k),
                  k, lambda t: ref_times(t, o, bd),
                  lambda t: diag_ctrl(exp_matrix(t, o, bd, rise), k),
                  lambda t: zero(len(ref_times(t, o, bd))) + (0 if off is None else off),
                  'ExponentialMTF(%s,%s,%s,%s)' % (rise, o, bd, off))
        r.uniform = True
        return r
    if kind in ('concat', 'concatM'):
        k1s = ['overM', 'exp', 'custom'] if kind == 'concatM' else \
            ['identity', 'over', 'overM', 'conv', 'gauss', 'exp']
        if depth < 1:
            k1s = k1s + [kind]
        k1 = k1s[rng.integers(len(k1s))]
        r1 = make_tf(rng, k1, k, n_y, depth + 1)
        # the second one sees the (possibly non uniform) grid of the first
        probe = r1.times(np.ones(n_y))
        k2s = [s for s in k1s if s not in ('custom', 'exp')] + ['overM']
        k2 = k2s[rng.integers(len(k2s))]
        r2 = make_tf(rng, k2, k, len(probe), depth + 1)
        cls = tfm.ConcatenateMTF if kind == 'concatM' else tfm.ConcatenateTF

        def lin(t):
            m1, m2 = r1.matrix(t), r2.matrix(r1.times(t))
            return np.einsum('abil,iljk->abjk', m2, m1)

        def off(t):
            return np.einsum('abil,il->ab', r2.matrix(r1.times(t)), r1.offset(t)) \
                + r2.offset(r1.times(t))
        r = RefTF(cls(r1.tf, r2.tf), k, lambda t: r2.times(r1.times(t)), lin, off,
                  '%s[%s,%s]' % (kind, r1.desc, r2.desc),
                  n_y=n_y if (r1.n_y or r2.n_y) else None)
        r.parts = (r1, r2)
        r.uniform = getattr(r1, 'uniform', False) or getattr(r2, 'uniform', False)
        return r
    if kind in ('parallel', 'parallelM'):
        if k < 2:
            return make_tf(rng, 'overM', k, n_y, depth, over=o, bound=bd)
        ka = int(rng.integers(1, k))
        base = ['overM', 'exp', 'custom'] if kind == 'parallelM' else \
            ['over', 'overM', 'exp', 'custom']
        if kind == 'parallel' and o == 1 and bd is None:
            base = base + ['conv', 'gauss', 'identity']
        r1 = make_tf(rng, base[rng.integers(len(base))], ka, n_y, depth + 1,
                     over=o, bound=bd)
        r2 = make_tf(rng, base[rng.integers(len(base))], k - ka, n_y, depth + 1,
                     over=o, bound=bd)
        # parallel functions have to share their time frame
        ones = np.ones(n_y)
        if not np.allclose(r1.times(ones), r2.times(ones)):
            return make_tf(rng, 'overM', k, n_y, depth, over=o, bound=bd)
        r1.tf.set_times(ones)
        r2.tf.set_times(ones)
        cls = tfm.ParallelMTF if kind == 'parallelM' else tfm.ParallelTF

        def lin(t):
            m1, m2 = r1.matrix(t), r2.matrix(t)
            out = np.zeros((m1.shape[0], k, m1.shape[2], k))
            out[:, :ka, :, :ka] = m1
            out[:, ka:, :, ka:] = m2
            return out
        r = RefTF(cls(r1.tf, r2.tf), k, r1.times, lin,
                  lambda t: np.concatenate((r1.offset(t), r2.offset(t)), axis=1),
                  '%s[%s|%s]' % (kind, r1.desc, r2.desc),
                  n_y=r1.n_y or r2.n_y)
        r.parts = (r1, r2)
        r.uniform = getattr(r1, 'uniform', False) or getattr(r2, 'uniform', False)
        return r
    raise KeyError(kind)


def rand_times(rng, n, uniform=False):
    if uniform or rng.random() < 0.25:
        return np.full(n, float(rng.uniform(0.1, 1.2)))
    return rng.uniform(0.05, 1.2, size=n)


def rand_tf(rng, k, n_y, kinds=TF_KINDS):
    r = make_tf(rng, kinds[rng.integers(len(kinds))], k, n_y)
    t = rand_times(rng, n_y, uniform=getattr(r, 'uniform', False))
    return r, t


# --------------------------------------------------------------------------
# amplitude functions
# --------------------------------------------------------------------------
class RefAmp:
    def __init__(self, amp, n_par, n_amp, value, deriv, desc):
        # deriv(x): [t, m, j] = du_j / dx_m
        self.amp, self.n_par, self.n_amp = amp, n_par, n_amp
        self.value, self.deriv, self.desc = value, deriv, desc


def rand_amp(rng, n_amp, kinds=('identity', 'unary', 'custom')):
    kind = kinds[rng.integers(len(kinds))]
    if kind == 'identity':
        def d(x):
            out = np.zeros((x.shape[0], n_amp, n_amp))
            for i in range(n_amp):
                out[:, i, i] = 1
            return out
        return RefAmp(am.IdentityAmpFunc(), n_amp, n_amp, lambda x: x, d, 'identity')
    if kind == 'unary':
        funs = [(lambda x: x ** 2, lambda x: 2 * x, 'square'),
                (lambda x: np.sin(x) + 1, lambda x: np.cos(x), 'sin'),
                (lambda x: np.exp(0.5 * x), lambda x: 0.5 * np.exp(0.5 * x), 'exp')]
        f, g, name = funs[rng.integers(len(funs))]

        def d(x):
            out = np.zeros((x.shape[0], n_amp, n_amp))
            for i in range(n_amp):
                out[:, i, i] = g(x[:, i])
            return out
        return RefAmp(am.UnaryAnalyticAmpFunc(f, g), n_amp, n_amp, f, d,
                      'unary ' + name)
    n_par = int(rng.integers(1, 4))
    a = rng.normal(size=(n_par, n_amp))
    b = 0.3 * rng.normal(size=(n_par, n_par, n_amp))
    b = b + b.transpose(1, 0, 2)

    def val(x):
        return x @ a + 0.5 * np.einsum('tm,tn,mnj->tj', x, x, b)

    def der(x):
        return a[None] + np.einsum('tn,mnj->tmj', x, b)
    return RefAmp(am.CustomAmpFunc(val, der), n_par, n_amp, val, der,
                  'custom %d->%d' % (n_par, n_amp))


# --------------------------------------------------------------------------
# systems (Schroedinger and friends) with an independent reference
# --------------------------------------------------------------------------
class System:
    """A random controlled system. All caller owned data is kept here."""

    def __init__(self, rng, d=None, n_ctrl=None, n_y=None, tf_kinds=TF_KINDS,
                 amp_kinds=('identity', 'unary', 'custom'), hermitian=True,
                 ket_state=None, scale=0.7, drift_mode=None, init=None):
        self.rng = rng
        self.d = int(rng.integers(2, 5)) if d is None else d
        self.nc = int(rng.integers(1, 4)) if n_ctrl is None else n_ctrl
        self.ny = int(rng.integers(1, 6)) if n_y is None else n_y
        self.amp = rand_amp(rng, self.nc, amp_kinds)
        self.rtf, self.tau = rand_tf(rng, self.amp.n_par, self.ny, tf_kinds)
        self.xt = self.rtf.times(self.tau)
        self.nx = len(self.xt)
        mk = (lambda: herm(rng, self.d)) if hermitian else (lambda: cmat(rng, self.d))
        self.h_ctrl = recurring(rng, [scale * mk() for _ in range(self.nc)], .1)
        self.drift_mode = drift_mode if drift_mode is not None else \
            ['single', 'list1', 'list'][rng.integers(3)]
        if self.drift_mode == 'list':
            self.h_drift = recurring(rng, [scale * mk() for _ in range(self.nx)], .5)
        else:
            self.h_drift = [scale * mk()] * self.nx
        self.y = np.array(recurring(rng, rng.normal(size=(self.ny, self.amp.n_par))))
        if init is None:
            init = ['none', 'unitary', 'ket'][rng.integers(3)]
        if ket_state:
            init = 'ket'
        self.init_kind = init
        self.init = {'none': np.eye(self.d, dtype=complex),
                     'unitary': unitary(rng, self.d),
                     'ket': ket(rng, self.d)}[init]

    # -- caller side objects
    def op_args(self):
        c = dense_ops(self.h_ctrl)
        if self.drift_mode == 'single':
            h = DO(np.array(self.h_drift[0]))
        elif self.drift_mode == 'list1':
            h = [DO(np.array(self.h_drift[0]))]
        else:
            h = dense_ops(self.h_drift)
        i = None if self.init_kind == 'none' else DO(np.array(self.init))
        return dict(h_ctrl=c, h_drift=h, initial_state=i)

    def solver(self, **kw):
        args = self.op_args()
        args.update(tau=np.array(self.tau), transfer_function=self.rtf.tf,
                    amplitude_function=self.amp.amp)
        args.update(kw)
        return sa.SchroedingerSolver(**args)

    # -- reference
    def x(self, y=None):
        return self.rtf.value(self.tau, self.y if y is None else y)

    def u(self, y=None):
        return self.amp.value(self.x(y))

    def gens(self, y=None):
        u = self.u(y)
        return [-1j * (self.h_drift[t] + sum(u[t, k] * self.h_ctrl[k]
                                             for k in range(self.nc)))
                for t in range(self.nx)]

    def props(self, y=None, method='Frechet'):
        return [ref_exp(g * self.xt[t], method) for t, g in enumerate(self.gens(y))]

    def derivs(self, y=None, method='Frechet'):
        g = self.gens(y)
        return [[ref_dexp(g[t] * self.xt[t], -1j * self.h_ctrl[k] * self.xt[t], method)
                 for t in range(self.nx)] for k in range(self.nc)]

    def desc(self):
        return 'd=%d ctrls=%d steps=%d->%d tf=%s amp=%s drift=%s init=%s' % (
            self.d, self.nc, self.ny, self.nx, self.rtf.desc, self.amp.desc,
            self.drift_mode, self.init_kind)


def chain(props, init):
    out = [init]
    for p in props:
        out.append(p @ out[-1])
    return out


def rchain(props, d):
    out = [np.eye(d, dtype=complex)]
    for p in props[::-1]:
        out.append(out[-1] @ p)
    return out


class FixedNoise(qnoise.NoiseTraceGenerator):
    """Deterministic noise samples [operator, trace, time]."""

    def __init__(self, samples, redraw=False):
        super().__init__(n_samples_per_trace=samples.shape[2],
                         always_redraw_samples=redraw,
                         n_traces=samples.shape[1],
                         n_noise_operators=samples.shape[0],
                         noise_samples=samples)

    def _sample_noise(self):
        pass
