"""C14-C17: contracts of qopt.transfer_function."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from contracts.matrix import total, a_

F = 'qopt.transfer_function:'
INS = 'any number of steps and controls, any oversampling and number of padding elements'


def exp_(x):
    from pyvc.npstub import STUBS
    return T.exp(x)


def forall(n, f):
    from pyvc.npstub import forall
    return forall(None, mkarr((toP(n),), f, 'b'))


class Grid:
    """Times, boundary and oversampling of a transfer function."""

    def __init__(self, U, bound=None, over=None, times='array', uniform=False):
        self.U, self.bound = U, bound
        self.n = U.dim('n_y')
        self.k = U.dim('n_ctrl')
        self.m = U.dim('oversampling') if over is None else toP(over)
        self.uniform = uniform
        tau = (lambda t: var('tau0', 'r')) if uniform else (lambda t: fn('tau', t, sort='r'))
        self.tau = tau
        if times == 'array':
            self.times = mkarr((self.n,), tau, 'f')
        elif times == 'column':
            self.times = mkarr((self.n, ONE), lambda t, _: tau(t), 'f')
        else:
            self.times = U.list_of(self.n, lambda t: Num(tau(t), 'float'))
        U.input('times', self.times)
        b = U.dim('n_pad', 0) if bound else ZERO
        self.b = b
        self.kw = dict(num_ctrls=num(self.k, 'int'), oversampling=num(self.m, 'int'))
        self.bt = plist([bound, num(b, 'int')], True) if bound else None
        self.kw['bound_type'] = self.bt
        self.left = {None: ZERO, 'n': b, 'x': b * self.m, 'right_n': ZERO}[bound]
        self.right = {None: ZERO, 'n': b, 'x': b * self.m, 'right_n': b}[bound]
        self.nx = self.left + self.n * self.m + self.right

    def pulse(self, name='y'):
        return self.U.input(name, self.U.arr(name, self.n, self.k, dtype='f'))

    def check(self, name, tf):
        """C15: the transferred grid."""
        U = self.U
        U.eq(name + ': reported number of transferred steps', U.get(tf, 'num_x'), self.nx)
        xt = unl(U.get(tf, 'x_times'))
        if not isinstance(xt, Arr) or len(xt.shape) != 1:
            U.struct(name + ': grid', False, 'one-dimensional array expected')
            return
        U.eq(name + ': length of the grid', xt.shape[0], self.nx)
        t, s = T.temp(), T.temp()
        tp, sp = P(t), P(s)
        with CTX.ranges([t, s], [self.n, self.m]):
            U.eq(name + ': every part of a step has the fraction of its duration',
                 xt.el(self.left + tp * self.m + sp) * self.m, self.tau(tp))
            U.eq(name + ': parts of a step sum to its duration',
                 total(self.m, lambda q: xt.el(self.left + tp * self.m + q)), self.tau(tp))
        with CTX.ranges([s], [self.left]):
            if CTX.feasible():
                U.eq(name + ': padding in front', xt.el(sp) * self.m, self.tau(ZERO))
        with CTX.ranges([s], [self.right]):
            if CTX.feasible():
                U.eq(name + ': padding at the end', xt.el(self.left + self.n * self.m + sp)
                     * self.m, self.tau(self.n - 1))
        p = U.get(tf, 'num_padding_elements')
        U.eq(name + ': padding elements in front', U.item(p, 0), self.left)
        U.eq(name + ': padding elements at the end', U.item(p, 1), self.right)


BOUNDS = (None, 'n', 'x', 'right_n')
KINDS = {'OversamplingTF': [], 'OversamplingMTF': ['offset'], 'ExponentialMTF': ['offset']}


def make(U, g, cls, **kw):
    if cls == 'ExponentialMTF':
        kw.setdefault('awg_rise_time', Num(var('t_rise', 'r'), 'float'))
        CTX.assume(ge(var('t_rise', 'r')))
        CTX.assume(Not(eq0(var('t_rise', 'r'))))
    k = dict(g.kw)
    if cls in ('IdentityTF', 'GaussianConvolution', 'ConvolutionTF'):
        k = dict(num_ctrls=g.kw['num_ctrls'])
    return U.I.call(U.cls(F + cls), [], dict(k, **kw))


def timed(U, g, cls, **kw):
    tf = make(U, g, cls, **kw)
    U.call(tf, 'set_times', g.times)
    return tf


BASE = [F + 'TransferFunction.' + x for x in (
    '__init__', 'set_times', 'num_padding_elements', '_check_dimensions_datatype')]


# ------------------------------------------------------------------ C15
def grid_units(cls):
    @unit('C15', 'time grid: ' + cls, BASE + [F + cls + '.__init__'], INS)
    def _(U):
        for bound in BOUNDS:
            for times in ('array', 'list', 'column'):
                g = Grid(U, bound, times=times, uniform=cls == 'ExponentialMTF')
                nm = 'boundary %s, times as %s' % (bound, times)

                def go():
                    tf = timed(U, g, cls)
                    return tf, U.call(tf, '__call__', g.pulse()) if times == 'array' else None

                def post(r):
                    g.check(nm, r[0])
                    if r[1] is not None:
                        x = unl(r[1])
                        U.eq(nm + ': length of the transferred pulse', x.shape[0], g.nx)
                        U.eq(nm + ': number of controls', x.shape[1], g.k)
                U.run(nm, go, post)


for c in KINDS:
    grid_units(c)


@unit('C15', 'time grid: convolutions and identity', BASE, INS)
def _(U):
    for cls in ('IdentityTF', 'GaussianConvolution', 'ConvolutionTF'):
        for times in ('array', 'list', 'column'):
            g = Grid(U, None, over=1, times=times)
            kw = {}
            if cls == 'GaussianConvolution':
                kw['sigma'] = U.real('sigma')
            elif cls == 'ConvolutionTF':
                kw['kernel'] = U.input('kernel', U.arr('kernel', U.dim('n_kernel'), dtype='f'))
            U.run('%s, %s' % (cls, times), lambda: timed(U, g, cls, **kw),
                  lambda tf: g.check('%s, %s' % (cls, times), tf))


@unit('C15', 'absolute times', BASE + [F + 'TransferFunction.set_absolute_times'], INS)
def _(U):
    for kind in ('array', 'list'):
        g = Grid(U, 'n')
        a = lambda t: fn('abs', t, sort='r')
        g.tau = lambda t: a(t + 1) - a(t)
        if kind == 'array':
            ab = mkarr((g.n + 1,), a, 'f')
        else:
            ab = U.list_of(g.n + 1, lambda t: Num(a(t), 'float'))
        srt = lambda: forall(g.n, lambda t: ge(a(t + 1) - a(t)))
        U.input('absolute times', ab)
        def go():
            tf = make(U, g, 'OversamplingTF')
            U.call(tf, 'set_absolute_times', ab)
            return tf
        U.run('absolute times as ' + kind, go, lambda tf: (
            g.check('absolute times', tf),
            U.true('only sorted times are accepted', srt())), raises=lambda en: Not(srt()))


@unit('C15', 'used again with other times', BASE, INS)
def _(U):
    for cls in KINDS:
        for bound in (None, 'x'):
            g = Grid(U, bound, uniform=cls == 'ExponentialMTF')
            n0 = U.dim('n_before')
            t0 = mkarr((n0,), lambda t: fn('tau_before', t, sort='r'), 'f')

            def go():
                tf = timed(U, g, cls)
                U.call(tf, 'set_times', t0)
                U.call(tf, '__call__', U.arr('y_before', n0, g.k, dtype='f'))
                U.call(tf, 'set_times', g.times)
                return tf
            nm = '%s, boundary %s' % (cls, bound)
            U.run(nm, go, lambda tf: g.check(nm, tf))


@unit('C15', 'time grid: custom matrix', BASE, INS + '; any transfer matrix')
def _(U):
    for bound in BOUNDS:
        for times in ('array', 'list', 'column'):
            g = Grid(U, bound, times=times)
            nm = 'boundary %s, times as %s' % (bound, times)
            U.run(nm, lambda: custom(U, g), lambda tf: g.check(nm, tf))
            n2 = U.dim('n_other')
            U.assume(Not(eq0(n2 - g.n)))
            U.must_raise(nm + ': other number of steps', lambda: U.call(
                custom(U, g), 'set_times', U.arr('t2', n2, dtype='f')), {'ValueError'})


@unit('C15', 'unknown boundary types are rejected', BASE, INS)
def _(U):
    for cls in KINDS:
        g = Grid(U, 'n')
        g.kw['bound_type'] = plist(['left', 2], True)
        U.must_raise(cls, lambda: timed(U, g, cls), {'ValueError'})


# ------------------------------------------------------------------ C16
def check_values(U, g, name, x, y, off, kind):
    """y: element function of the pulse; kind: over (repeat) or exp (saturation)."""
    x = unl(x)
    if not (isinstance(x, Arr) and len(x.shape) == 2):
        return U.struct(name, False, 'array (time, control) expected')
    U.eq(name + ': length', x.shape[0], g.nx)
    U.eq(name + ': number of controls', x.shape[1], g.k)
    t, s, k = T.temp(), T.temp(), T.temp()
    tp, sp, kp = P(t), P(s), P(k)
    dec = lambda j: T.exp(-(j * g.tau(ZERO) * T.inv(g.m) * T.inv(var('t_rise', 'r'))))
    with CTX.ranges([t, s, k], [g.n, g.m, g.k]):
        if kind == 'over':
            want = y(tp, kp)
            U.eq(name + ': every value is repeated', x.el(g.left + tp * g.m + sp, kp), want + off)
        else:
            e = dec(sp + 1)
            U.eq(name + ': first step starts at zero', x.el(g.left + sp, kp),
                 y(ZERO, kp) * (1 - e) + off)
    if kind == 'exp':
        with CTX.ranges([t, s, k], [g.n - 1, g.m, g.k]):
            if CTX.feasible():
                e = dec(sp + 1)
                U.eq(name + ': saturation from the previous to the new value',
                     x.el(g.left + (tp + 1) * g.m + sp, kp),
                     y(tp, kp) + (y(tp + 1, kp) - y(tp, kp)) * (1 - e) + off)
    with CTX.ranges([s, k], [g.left, g.k]):
        if CTX.feasible():
            U.eq(name + ': padding in front', x.el(sp, kp), off)
    with CTX.ranges([s, k], [g.right, g.k]):
        if CTX.feasible():
            w = off if kind == 'over' else y(g.n - 1, kp) * dec(sp + 1) + off
            U.eq(name + ': padding at the end', x.el(g.left + g.n * g.m + sp, kp), w)


VALUES = BASE + [F + 'MatrixTF.__call__', F + 'MatrixTF.set_times']

REUSE = '''
def again(f, z, dz):
    f(z)
    z += dz
    return f(z)
'''


def value_unit(cls, kind):
    @unit('C16', 'values: ' + cls, VALUES + [F + cls + '.__call__', F + cls +
          '._calculate_transfer_matrix'], INS + '; any pulse')
    def _(U):
        for bound in BOUNDS:
            for off in (False, True):
                if off and not KINDS[cls]:
                    continue
                g = Grid(U, bound, uniform=kind == 'exp')
                nm = 'boundary %s, offset %s' % (bound, off)
                kw = dict(offset=U.real('offset')) if off else {}
                y = g.pulse()
                o = var('offset', 'r') if off else ZERO
                U.run(nm, lambda: U.call(timed(U, g, cls, **kw), '__call__', y), lambda x:
                      check_values(U, g, nm, x, lambda t, k: fn('y', t, k, sort='r'), o, kind))
                if off:
                    # a second call and the matrix give the same, also when
                    # the array of the first call has been changed in place
                    U.source('history', REUSE)

                    def twice():
                        tf = timed(U, g, cls, **kw)
                        z = U.arr('z', g.n, g.k, dtype='f')
                        return U.I.call(U.mod('history').env.slots['again'], [U.get(
                            tf, '__call__'), z, mkarr((g.n, g.k), lambda t, k: fn(
                                'y', t, k, sort='r') - fn('z', t, k, sort='r'), 'f')], {})
                    U.run(nm + ', second call', twice, lambda x: check_values(
                        U, g, nm + ', second call', x, lambda t, k: fn('y', t, k, sort='r'),
                        o, kind))


value_unit('OversamplingTF', 'over')
value_unit('OversamplingMTF', 'over')
value_unit('ExponentialMTF', 'exp')


@unit('C16', 'values: custom matrix, identity and convolutions', VALUES, INS + '; any matrix')
def _(U):
    for bound in BOUNDS:
        for off in (False, True):
            for xt in (False, True):
                g = Grid(U, bound)
                y = g.pulse()
                nm = 'custom, boundary %s, offset %s, explicit times %s' % (bound, off, xt)
                o = var('offset', 'r') if off else ZERO
                U.run(nm, lambda: U.call(custom(U, g, off, xt), '__call__', y), lambda x: U.arr_eq(
                    nm, x, (g.nx, g.k), lambda i, k: o + total(g.n, lambda j: fn(
                        'T', i, j, k, sort='r') * fn('y', j, k, sort='r'))))
    g = Grid(U, None, over=1)
    y = g.pulse()
    ye = lambda j, k: fn('y', j, k, sort='r')
    U.run('identity', lambda: U.call(timed(U, g, 'IdentityTF'), '__call__', y),
          lambda x: U.arr_eq('identity', x, (g.n, g.k), ye))


@unit('C16', 'wrong pulses are rejected', VALUES, INS)
def _(U):
    for cls in list(KINDS):
        for bound in (None, 'x'):
            g = Grid(U, bound, uniform=True)
            n2 = U.dim('n_other')
            U.assume(Not(eq0(n2 - g.n)))
            k2 = U.dim('k_other')
            U.assume(Not(eq0(k2 - g.k)))
            for nm, y in (('number of steps', U.arr('y', n2, g.k, dtype='f')),
                          ('number of controls', U.arr('y', g.n, k2, dtype='f')),
                          ('complex', U.arr('y', g.n, g.k, dtype='c')),
                          ('integers', U.arr('y', g.n, g.k, dtype='i')),
                          ('dimensions', U.arr('y', g.n, dtype='f')),
                          ('dimensions 3', U.arr('y', g.n, g.k, ONE, dtype='f'))):
                U.must_raise('%s, boundary %s: %s' % (cls, bound, nm), lambda: U.call(
                    timed(U, g, cls), '__call__', y), {'IndexError', 'TypeError'})
            U.must_raise('%s, boundary %s: no times' % (cls, bound), lambda: U.call(
                make(U, g, cls), '__call__', g.pulse()), {'RuntimeError'})


# ------------------------------------------------------------------ C14
CHAIN = [F + 'TransferFunction.gradient_chain_rule', F + 'MatrixTF.gradient_chain_rule']


def pairing(U, name, g, tf, mixing=False, before=None):
    """sum g dx = sum converted(g) dy for every variation dy."""
    U.source('history', REUSE)
    y = g.pulse()
    d = g.pulse('dy')
    G = U.input('derivatives', U.arr('G', g.nx, U.dim('n_cost'), g.k, dtype='f'))
    yd = mkarr((g.n, g.k), lambda t, k: y.el(t, k) + d.el(t, k), 'f')
    Ge, de = G.el, d.el

    def go():
        f = tf()
        if before == 'gradient':
            # the same array with other entries
            g0 = U.arr('G0', g.nx, var('n_cost'), g.k, dtype='f')
            x1 = unl(U.call(f, '__call__', y)).copy()
            x2 = unl(U.call(f, '__call__', yd)).copy()
            return x1, x2, U.I.call(U.mod('history').env.slots['again'], [U.get(
                f, 'gradient_chain_rule'), g0, mkarr(g0.shape, lambda i, c, k: Ge(
                    i, c, k) - fn('G0', i, c, k, sort='r'), 'f')], {})
        x1 = unl(U.call(f, '__call__', y)).copy()
        x2 = unl(U.call(f, '__call__', yd)).copy()
        return x1, x2, U.call(f, 'gradient_chain_rule', G)

    def post(r):
        x1, x2, c = r
        c = unl(c)
        if not (isinstance(c, Arr) and len(c.shape) == 3):
            return U.struct(name + ': layout', False, 'array (time, cost, control) expected')
        U.eq(name + ': number of time steps', c.shape[0], g.n)
        U.eq(name + ': number of costs', c.shape[1], var('n_cost'))
        U.eq(name + ': number of controls', c.shape[2], g.k)
        f, k = T.temp(), T.temp()
        fp = P(f)

        def both(kp):
            return (total(g.nx, lambda i: Ge(i, fp, kp) * (x2.el(i, kp) - x1.el(i, kp))) -
                    total(g.n, lambda j: c.el(j, fp, kp) * de(j, kp)))
        if mixing:
            with CTX.ranges([f], [var('n_cost')]):
                U.zero(name + ': pairing', total(g.k, both))
        else:
            with CTX.ranges([f, k], [var('n_cost'), g.k]):
                U.zero(name + ': pairing', both(P(k)))
    U.run(name, go, post)


def chain_unit(cls):
    @unit('C14', 'gradient: ' + cls, VALUES + CHAIN + [F + cls + '.gradient_chain_rule'],
          INS + '; any pulse, variation and derivatives')
    def _(U):
        for bound in BOUNDS:
            for before in (None, 'gradient'):
                g = Grid(U, bound, uniform=cls == 'ExponentialMTF')
                if cls == 'ExponentialMTF':
                    matrix_contract(U, g, cls)
                kw = dict(offset=U.real('offset')) if KINDS[cls] else {}
                pairing(U, 'boundary %s, gradient first %s' % (bound, bool(before)), g,
                        lambda: timed(U, g, cls, **kw), before=before)


def matrix_contract(U, g, cls):
    """_calculate_transfer_matrix sets the attribute to some (step, pulse entry,
    control) array; its entries do not matter here."""
    def f(I, b):
        jset(b['self'], '_transfer_matrix', mkarr(
            (g.nx, g.n, g.k), lambda i, j, k: fn('T', i, j, k, sort='r'), 'f'))
        return None
    U.I.contracts[F + cls + '._calculate_transfer_matrix'] = f


for c in KINDS:
    chain_unit(c)


@unit('C14', 'layout of the transfer matrix', VALUES, INS)
def _(U):
    for cls in ('OversamplingMTF', 'ExponentialMTF'):
        for bound in BOUNDS:
            g = Grid(U, bound, uniform=cls == 'ExponentialMTF')
            nm = '%s, boundary %s' % (cls, bound)

            def go():
                tf = timed(U, g, cls)
                U.call(tf, '_calculate_transfer_matrix')
                return tf

            def post(tf):
                T_ = unl(U.get(tf, '_transfer_matrix'))
                U.struct(nm + ': three dimensions', isinstance(T_, Arr) and len(T_.shape) == 3)
                for s, n, w in zip(T_.shape, (g.nx, g.n, g.k), ('transferred', 'pulse', 'control')):
                    U.eq('%s: number of %s entries' % (nm, w), s, n)
                g.check(nm + ': grid unchanged', tf)
            U.run(nm, go, post)


@unit('C14', 'gradient: custom matrix', VALUES + CHAIN + [F + 'CustomMTF.__init__', F +
      'CustomMTF.set_times'], INS + '; any transfer matrix')
def _(U):
    for bound in BOUNDS:
        for off in (False, True):
            g = Grid(U, bound)
            pairing(U, 'boundary %s, offset %s' % (bound, off), g, lambda: custom(U, g, off))


def custom(U, g, off=False, x_times=False):
    kw = dict(g.kw)
    kw.pop('oversampling')
    if off:
        kw['offset'] = U.real('offset')
    if x_times:
        kw['x_times'] = U.arr('x_times', g.nx, dtype='f')
    tf = U.I.call(U.cls(F + 'CustomMTF'), [U.input('matrix', U.arr(
        'T', g.nx, g.n, g.k, dtype='f'))], kw)
    U.call(tf, 'set_times', g.times)
    return tf


@unit('C14', 'gradient: identity and convolutions', VALUES + CHAIN, INS)
def _(U):
    g = Grid(U, None, over=1)
    pairing(U, 'identity', g, lambda: timed(U, g, 'IdentityTF'))
    for cval in (False, True):
        for mode in ('nearest', 'constant', 'reflect'):
            for nd in (1, 2):
                if nd == 1:
                    kr = U.input('kernel', U.arr('kernel', U.dim('n_kernel'), dtype='f'))
                else:
                    kr = U.input('kernel', U.arr('kernel', U.dim('n_kernel'), U.dim('m_kernel'), dtype='f'))
                kw = dict(kernel=kr, mode=mode)
                if cval:
                    kw['cval'] = U.real('cval')
                pairing(U, 'convolution, kernel of %d dimensions, mode %s, cval %s' % (nd, mode, cval),
                        g, lambda: timed(U, g, 'ConvolutionTF', **kw), mixing=True)
    for mode in ('nearest', 'constant', 'reflect'):
        for order in (0, 1):
            pairing(U, 'gaussian, mode %s, order %d' % (mode, order), g, lambda: timed(
                U, g, 'GaussianConvolution', sigma=U.real('sigma'), order=order, mode=mode))


# ------------------------------------------------------------------ C17
def tlam(a):
    t = T.temp()
    with CTX.ranges([t], [a.shape[0]]):
        return Lam([a.shape[0]], [t], a.el(P(t)))


def alam(a, *shape):
    ts = [T.temp() for _ in shape]
    with CTX.ranges(ts, shape):
        return Lam(list(shape), ts, a.el(*[P(t) for t in ts]))


def lamfun(*a):
    from pyvc.npstub import lamfun as f
    return f(*a)


class Part:
    """An arbitrary transfer function; everything is a function of its times.

    matrix: x = T y + offset, gradient by the transpose (the contract of
    MatrixTF); affine: the same with mixing of the controls; else any function."""

    def __init__(self, U, name, n, nx, k, kind='any', offset=None, kout=None):
        self.U, self.name, self.n, self.nx, self.k, self.kind = U, name, toP(n), toP(nx), toP(k), kind
        self.off = offset
        self.st = st = Cell()
        st.slots['tau'] = None
        self.obj = Opaque('transfer function ' + name, dict(
            set_times=Native('set_times', self.set_times),
            gradient_chain_rule=Native('gradient_chain_rule', self.gradient),
            num_ctrls=num(self.k, 'int'), oversampling=U.over, bound_type=U.bt,
            offset=None if offset is None else Num(offset, 'float'),
            num_x=Computed(lambda I: num(self.nx, 'int') if st.slots['tau'] is not None else 0),
            _num_y=Computed(lambda I: num(self.n, 'int') if st.slots['tau'] is not None else 0),
            _y_times=Computed(lambda I: st.slots['tau']),
            x_times=Computed(lambda I: None if st.slots['tau'] is None else mkarr(
                (self.nx,), self.x_times(st.slots['tau']), 'f')),
            transfer_matrix=Computed(lambda I: mkarr(
                (self.nx, self.n, self.k), self.T(st.slots['tau']), 'f'))), self.call)

    def x_times(self, tau):
        l = tlam(tau)
        return lambda t: lamfun(self.name + '_x_times', 'r', [l], t)

    def T(self, tau):
        l = tlam(tau)
        return lambda i, j, k: lamfun(self.name + '_matrix', 'r', [l], i, j, k)

    def set_times(self, I, a, kw):
        t = I.unlazy(a[0] if a else kw['y_times'])
        if not deq_(I, t.shape[0], self.n):
            raise Unsupported('other number of times')
        jset(self.st, 'tau', t.copy())

    def value(self, tau, y):
        """Element function of the transferred pulse of y (element function)."""
        l = tlam(tau)
        if self.kind == 'any':
            ly = alam(mkarr((self.n, self.k), y, 'f'), self.n, self.k)
            return lambda t, k: lamfun(self.name, 'r', [l, ly], t, k)
        o = self.off if self.off is not None else ZERO
        if self.kind == 'matrix':
            M = self.T(tau)
            return lambda t, k: o + total(self.n, lambda j: M(t, j, k) * y(j, k))
        return lambda t, k: lamfun(self.name + '_const', 'r', [l], t, k) + total(
            self.n, lambda j: total(self.k, lambda m: y(j, m) * lamfun(
                self.name + '_lin', 'r', [l], t, k, j, m)))

    def back(self, tau, G, nc):
        l = tlam(tau)
        if self.kind == 'any':
            lg = alam(mkarr((self.nx, nc, self.k), G, 'f'), self.nx, nc, self.k)
            return lambda j, f, k: lamfun(self.name + '_grad', 'r', [l, lg], j, f, k)
        if self.kind == 'matrix':
            M = self.T(tau)
            return lambda j, f, k: total(self.nx, lambda i: M(i, j, k) * G(i, f, k))
        return lambda j, f, m: total(self.nx, lambda i: total(self.k, lambda k: G(i, f, k) * lamfun(
            self.name + '_lin', 'r', [l], i, k, j, m)))

    def call(self, I, a, kw):
        y = I.unlazy(a[0])
        if y.ndim != 2 or not deq_(I, y.shape[0], self.n) or not deq_(I, y.shape[1], self.k):
            I.raise_('IndexError', 'shape of the pulse')
        return mkarr((self.nx, self.k), self.value(self.st.slots['tau'], y.copy().el), 'f')

    def gradient(self, I, a, kw):
        G = I.unlazy(a[0] if a else kw['deriv_by_transferred_par'])
        if G.ndim != 3 or not deq_(I, G.shape[0], self.nx) or not deq_(I, G.shape[2], self.k):
            I.raise_('AssertionError', 'shape of the derivatives')
        nc = G.shape[1]
        return mkarr((self.n, nc, self.k), self.back(self.st.slots['tau'], G.copy().el, nc), 'f')


def deq_(I, a, b):
    from pyvc.npstub import deq
    return deq(I, a, b)


class Pair:
    def __init__(self, U, cls, kind, off=(None, None)):
        self.U, self.cls = U, cls
        U.over, U.bt = num(U.dim('oversampling'), 'int'), None
        self.n = n = U.dim('n_y')
        self.par = par = cls.startswith('Parallel')
        self.nx = nx = U.dim('n_x')
        k1 = U.dim('k1')
        k2 = U.dim('k2') if par else k1
        mid = n if par else U.dim('n_mid')
        self.k1, self.k2, self.mid = k1, k2, mid
        self.k = k1 + k2 if par else k1
        self.a = Part(U, 'tf1', n, nx if par else mid, k1, kind, off[0])
        self.b = Part(U, 'tf2', mid, nx, k2, kind, off[1])
        self.times = [U.input('times%d' % i, U.arr('tau%d' % i, n, dtype='f')) for i in (0, 1)]
        self.y = U.input('pulse', U.arr('y', n, self.k, dtype='f'))
        self.nc = U.dim('n_cost')
        self.G = U.input('derivatives', U.arr('G', nx, self.nc, self.k, dtype='f'))

    def make(self):
        return self.U.I.call(self.U.cls(F + self.cls), [self.a.obj, self.b.obj], {})

    def tau2(self):
        return self.times[-1] if self.par else mkarr((self.mid,), self.a.x_times(self.times[-1]), 'f')

    def value(self, y):
        t1, t2 = self.times[-1], self.tau2()
        if not self.par:
            return self.b.value(t2, self.a.value(t1, y))
        u = self.a.value(t1, y)
        v = self.b.value(t2, lambda t, k: y(t, k + self.k1))
        return lambda t, k: ite(ge(self.k1 - 1 - k), u(t, k), v(t, k - self.k1))

    def back(self, G):
        t1, t2 = self.times[-1], self.tau2()
        if not self.par:
            return self.a.back(t1, self.b.back(t2, G, self.nc), self.nc)
        u = self.a.back(t1, G, self.nc)
        v = self.b.back(t2, lambda t, f, k: G(t, f, k + self.k1), self.nc)
        return lambda t, f, k: ite(ge(self.k1 - 1 - k), u(t, f, k), v(t, f, k - self.k1))

    def grid(self, name, tf):
        U = self.U
        U.eq(name + ': number of transferred steps', U.get(tf, 'num_x'), self.nx)
        U.eq(name + ': number of controls', U.get(tf, 'num_ctrls'), self.k)
        t2 = self.tau2()
        x = self.a.x_times(self.times[-1]) if self.par else self.b.x_times(t2)
        U.arr_eq(name + ': time grid', U.get(tf, 'x_times'), (self.nx,), x)


def composed(cls):
    fns = [F + cls + '.' + x for x in ('__init__', '__call__', 'set_times')] + [
        F + (cls if cls.endswith('TF') and not cls.endswith('MTF') else 'MatrixTF') +
        '.gradient_chain_rule', F + cls + '._calculate_transfer_matrix']
    matrix = cls.endswith('MTF')
    kinds = ('matrix',) if matrix else ('any', 'matrix')

    @unit('C17', 'composition: ' + cls, fns,
          'any two transfer functions (uninterpreted functions of times and pulse; for the '
          'gradient of the matrix versions any transfer matrices), ' + INS)
    def _(U):
        for kind in kinds:
            for off in ((None, None), (None, 'o2'), ('o1', None), ('o1', 'o2')):
                o = tuple(var(x, 'r') if x else None for x in off)
                p = Pair(U, cls, kind, o)
                for again in (False, True, 'before'):
                    nm = '%s parts, offsets %s, times changed %s' % (kind, off, again)

                    def setup():
                        if again == 'before':
                            # composed of parts whose times are set already
                            p.a.set_times(U.I, [p.times[1]], {})
                            p.b.set_times(U.I, [p.tau2()], {})
                            return p.make()
                        tf = p.make()
                        if again:
                            U.call(tf, 'set_times', p.times[0])
                            U.call(tf, '__call__', p.y)
                            U.call(tf, 'gradient_chain_rule', p.G)
                        U.call(tf, 'set_times', p.times[1])
                        return tf

                    def both():
                        tf = setup()
                        x = U.call(tf, '__call__', p.y)
                        return tf, x, U.call(tf, 'gradient_chain_rule', p.G)

                    def post(r):
                        tf, x, c = r
                        p.grid(nm, tf)
                        U.arr_eq(nm + ': values', x, (p.nx, p.k), p.value(p.y.el))
                        U.arr_eq(nm + ': gradient', c, (p.n, p.nc, p.k), p.back(p.G.el))
                        o_ = U.get(tf, 'offset')
                        if not p.par:
                            U.eq(nm + ': offset', ZERO if o_ is None else o_,
                                 sum((x for x in o if x is not None), ZERO))
                    U.run(nm, both, post)

    @unit('C14', 'gradient: ' + cls, fns, 'any two affine transfer functions with exact '
          'gradients, ' + INS)
    def _(U):
        for kind in (('matrix',) if matrix else ('matrix', 'affine')):
            p = Pair(U, cls, kind, (var('o1', 'r'), var('o2', 'r')))
            dy = U.input('dy', U.arr('dy', p.n, p.k, dtype='f'))
            yd = mkarr((p.n, p.k), lambda t, k: p.y.el(t, k) + dy.el(t, k), 'f')

            def go():
                tf = p.make()
                U.call(tf, 'set_times', p.times[1])
                x1, x2 = U.call(tf, '__call__', p.y), U.call(tf, '__call__', yd)
                return unl(x1), unl(x2), unl(U.call(tf, 'gradient_chain_rule', p.G))

            def post(r):
                x1, x2, c = r
                f = T.temp()
                fp = P(f)
                with CTX.ranges([f], [p.nc]):
                    U.zero(kind + ': pairing', total(p.k, lambda k: total(p.nx, lambda i: p.G.el(
                        i, fp, k) * (x2.el(i, k) - x1.el(i, k))) - total(
                            p.n, lambda j: c.el(j, fp, k) * dy.el(j, k))))
            U.run(kind, go, post)


for c in ('ConcatenateTF', 'ParallelTF', 'ConcatenateMTF', 'ParallelMTF'):
    composed(c)
