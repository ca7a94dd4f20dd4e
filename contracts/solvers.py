"""C01-C08: contracts of qopt.solver_algorithms."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from contracts.matrix import total, a_, elf, lam2, expm, frechet, taylor, dtaylor, ORDER, matpow

S = 'qopt.solver_algorithms:'
MI = -P(T.IM)


class Model:
    """Inputs of a solver: lists of operators, durations, pulse."""

    def __init__(self, U, drift='list', tf=False, amp=False, state=None, nt=None, nc=None,
                 abstract=False, stateful=False):
        self.U = U
        self.stateful = stateful
        self.abstract = abstract
        if abstract:
            abstract_exp(U)
        self.d = d = U.dim('d', 2)
        self.nc = nc = U.dim('n_ctrl') if nc is None else toP(nc)
        self.ny = ny = U.dim('n_t') if nt is None else toP(nt)
        self.nx = nx = U.dim('n_x') if tf else ny
        self.hc = lambda k, i, j: fn('Hc', k, i, j)
        self.h_ctrl = U.input('h_ctrl', U.list_of(nc.cint or nc, lambda k: U.op('Hc', d, d, pre=(k,))))
        if drift == 'list':
            self.h_drift = U.input('h_drift', U.list_of(
                nx.cint or nx, lambda t: U.op('Hd', d, d, pre=(t,))))
            self.hd = lambda t, i, j: fn('Hd', t, i, j)
        elif drift == 'recurring':
            # the first and the last step share one operator
            one, two = U.op('Hd', d, d, pre=(ZERO,)), U.op('Hd', d, d, pre=(ONE,))
            self.h_drift = U.input('h_drift', plist([one, two, one]))
            self.hd = lambda t, i, j: fn('Hd', eq0(t - 1), i, j)
        elif drift == 'operator':
            self.h_drift = U.input('h_drift', U.op('Hd', d, d))
            self.hd = lambda t, i, j: fn('Hd', i, j)
        else:
            self.h_drift = U.input('h_drift', plist([U.op('Hd', d, d)]))
            self.hd = lambda t, i, j: fn('Hd', i, j)
        self.tau_in = U.input('tau', U.arr('tau', ny, dtype='f'))
        self.tau = lambda t: fn('tau', t, sort='r')
        self.npar = U.dim('n_par') if amp or tf else nc
        self.pulse = U.input('pulse', U.arr('y', ny, self.npar, dtype='f'))
        self.u = lambda t, k: fn('y', t, k, sort='r')
        self.kw = {}
        if tf:
            self.kw['transfer_function'] = self.transfer()
        if amp:
            self.kw['amplitude_function'] = self.amplitude()
        if state is not None:
            self.state = U.input('initial_state', U.op('psi', *state(d)))
            self.kw['initial_state'] = self.state
            self.psi = lambda i, j: fn('psi', i, j)
            self.cols = state(d)[1]
        else:
            self.psi, self.cols = lambda i, j: eq0(i - j), d

    def ylam(self, f=None):
        t, k = T.temp(), T.temp()
        f = f or (lambda t, k: fn('y', t, k, sort='r'))
        with CTX.ranges([t, k], [self.ny, self.npar]):
            return Lam([self.ny, self.npar], [t, k], f(P(t), P(k)))

    def transfer(self, strict=True):
        """An arbitrary transfer function: any function of the pulse and the
        times with consistent lengths."""
        nx, nq = self.nx, self.U.dim('n_transferred')
        self.nq = nq
        tf = self.new_tf(strict)
        if self.stateful:
            l = self.taulam(self.tau_in.el)
            self.tau = lambda t: lamfun('x_times', 'r', [l], t)
            self.x = lambda t, k: lamfun('transfer', 'r', [l, self.ylam()], t, k)
        else:
            self.tau = lambda t: fn('tau_x', t, sort='r')
            self.x = lambda t, k: lamfun('transfer', 'r', [self.ylam()], t, k)
        self.u = self.x
        return tf

    def taulam(self, f):
        t = T.temp()
        with CTX.ranges([t], [self.ny]):
            return Lam([self.ny], [t], f(P(t)))

    def new_tf(self, strict=True):
        nx, nq, U = self.nx, self.nq, self.U
        st = Cell()
        stateful = self.stateful

        def set_times(I, a, kw):
            jset(st, 'tau', I.unlazy(a[0]).copy())

        def x_times(I):
            if not stateful:
                return U.arr('tau_x', nx, dtype='f')
            l = self.taulam(st.slots['tau'].el)
            return mkarr((nx,), lambda t: lamfun('x_times', 'r', [l], t), 'f')

        def call(I, a, kw):
            y = I.unlazy(a[0])
            if strict:
                if y.ndim != 2 or I.branch(ONE - eq0(y.shape[0] - self.ny)) or \
                        I.branch(ONE - eq0(y.shape[1] - self.npar)):
                    I.raise_('ValueError', 'shape')
                l = [self.ylam(y.el)]
                n = nx
            else:
                ts = [T.temp() for _ in y.shape]
                with CTX.ranges(ts, y.shape):
                    l = [Lam(list(y.shape), ts, y.el(*[P(t) for t in ts]))]
                n = nx + y.shape[0] - self.ny
            if stateful:
                l = [self.taulam(st.slots['tau'].el)] + l
            return mkarr((n, nq), lambda t, k: lamfun('transfer', 'r', l, t, k), 'f')
        return Opaque('transfer function', dict(
            set_times=Native('set_times', set_times), num_x=num(nx, 'int'),
            x_times=Computed(x_times), _num_y=num(self.ny, 'int')), call)

    def amplitude(self):
        nc, nx, x = self.nc, self.nx, getattr(self, 'x', self.u)
        nq = getattr(self, 'nq', self.npar)

        def lam(f):
            t, k = T.temp(), T.temp()
            with CTX.ranges([t, k], [nx, nq]):
                return Lam([nx, nq], [t, k], f(P(t), P(k)))

        def call(I, a, kw):
            xa = I.unlazy(a[0])
            l = lam(xa.el)
            return mkarr((xa.shape[0], nc), lambda t, k: lamfun('amplitude', 'r', [l], t, k),
                         'f')
        self.u = lambda t, k: lamfun('amplitude', 'r', [lam(x)], t, k)
        return Opaque('amplitude function', {}, call)

    def solver(self, cls='SchroedingerSolver', **kw):
        s = self.build(self.tau_in, cls, **kw)
        self.U.call(s, 'set_optimization_parameters', self.pulse)
        return s

    def build(self, tau, cls='SchroedingerSolver', **kw):
        U = self.U
        return U.I.call(U.cls(S + cls), [], dict(
            h_drift=self.h_drift, h_ctrl=self.h_ctrl, tau=tau, **{**self.kw, **kw}))

    # specification
    def gen(self, t):
        """-i (H_t + sum_k u_tk H_k)"""
        return lambda i, j: MI * (self.hd(t, i, j) + total(
            self.nc, lambda k: self.u(t, k) * self.hc(k, i, j)))

    def step(self, t, meth='Frechet'):
        g, tau = self.gen(t), self.tau(t)
        if self.abstract:
            return EXP(meth, g, tau, self.d)
        if meth in ORDER:
            return taylor(g, tau, self.d, ORDER[meth])
        return expm(lambda i, j: g(i, j) * tau, self.d)

    def dstep(self, k, t, meth='Frechet'):
        g, tau = self.gen(t), self.tau(t)
        e = lambda i, j: MI * self.hc(k, i, j)
        if self.abstract:
            return DEXP(meth, g, e, tau, self.d)
        if meth in ORDER:
            return dtaylor(g, e, tau, self.d, ORDER[meth])
        return frechet(lambda i, j: g(i, j) * tau, lambda i, j: e(i, j) * tau, self.d)


def lamfun(*a):
    from pyvc.npstub import lamfun as f
    return f(*a)


METHODS = ('Frechet', 'spectral', 'approx', 'first_order', 'second_order', 'third_order')


def lam2of(el, d):
    i, j = T.temp(), T.temp()
    with CTX.ranges([i, j], [d, d]):
        return Lam([d, d], [i, j], el(P(i), P(j)))


def EXP(meth, g, tau, d):
    """The step propagator exp(tau g) in the given method, as a function."""
    l = lam2of(lambda i, j: g(i, j) * tau, d)
    return lambda i, j: lamfun('EXP_' + meth, 'c', [l], i, j)


def DEXP(meth, g, e, tau, d):
    l, k = lam2of(lambda i, j: g(i, j) * tau, d), lam2of(lambda i, j: e(i, j) * tau, d)
    return lambda i, j: lamfun('DEXP_' + meth, 'c', [l, k], i, j)


def abstract_exp(U):
    """Callers of exp and dexp see only what C10 and C11 prove about them: the
    results are functions of method, tau * generator and tau * direction."""
    def get(I, b):
        s, meth = b['self'], b['method']
        tau = b['tau']
        if not (isinstance(s, Obj) and s.cls.name == 'DenseOperator' and meth in METHODS
                and isnum(tau)):
            return None
        a = unl(I.getattr(s, 'data'))
        return a.shape[0], a.el, pol(tau), meth

    def exp(I, b):
        x = get(I, b)
        if x is None:
            return NotImplemented
        d, g, tau, meth = x
        return U.opf(EXP(meth, g, tau, d), d, d)

    def dexp(I, b):
        x = get(I, b)
        if x is None or b['compute_expm'] not in (True, False):
            return NotImplemented
        d, g, tau, meth = x
        e = unl(I.getattr(b['direction'], 'data')).el
        r = U.opf(DEXP(meth, g, e, tau, d), d, d)
        if b['compute_expm']:
            return plist([U.opf(EXP(meth, g, tau, d), d, d), r], True)
        return r
    c = 'qopt.matrix:DenseOperator.'
    U.I.contracts[c + 'exp'] = exp
    U.I.contracts[c + 'dexp'] = dexp


SOLVER = ['Solver.__init__', 'Solver.set_times', 'Solver.set_optimization_parameters',
          'Solver.consistency_checks', 'Solver.propagators', 'SchroedingerSolver.__init__',
          'SchroedingerSolver.set_optimization_parameters', 'SchroedingerSolver._compute_dyn_gen',
          'SchroedingerSolver._compute_propagation',
          'SchroedingerSolver._compute_derivative_directions']
SOLVER = [S + x for x in SOLVER]
INS = 'any number of steps, controls and levels, any operators, durations and pulse'


def props(U, m, name, s, meth='Frechet'):
    U.list_eq(name, U.get(s, 'propagators'), m.nx, lambda p, t: U.op_eq(
        name + ': entry', p, (m.d, m.d), m.step(t, meth)))


@unit('C03', 'step propagators', SOLVER, INS)
def _(U):
    for drift in ('list', 'operator', 'single', 'recurring'):
        for deriv in (False, True):
            m = Model(U, drift, nt=3 if drift == 'recurring' else None)
            nm = 'drift %s, derivatives %s' % (drift, deriv)
            U.run(nm, lambda: m.solver(calculate_propagator_derivatives=deriv),
                  lambda s: props(U, m, nm, s))


@unit('C03', 'step propagators: methods', SOLVER, INS)
def _(U):
    for meth in ('approx', 'first_order', 'second_order', 'third_order', None):
        for skew in (False, True):
            m = Model(U)
            nm = 'method %s, skew %s' % (meth, skew)
            U.run(nm, lambda: m.solver(calculate_propagator_derivatives=False,
                                       exponential_method=meth, is_skew_hermitian=skew),
                  lambda s: props(U, m, nm, s, meth or 'Frechet'))
            U.run(nm + ' with derivatives', lambda: m.solver(
                calculate_propagator_derivatives=True, exponential_method=meth,
                is_skew_hermitian=skew), lambda s: props(U, m, nm, s))


@unit('C03', 'transfer and amplitude function', SOLVER, INS + '; any transfer function and '
      'amplitude function (uninterpreted functions of the pulse)')
def _(U):
    for tf, amp in ((True, False), (False, True), (True, True)):
        m = Model(U, tf=tf, amp=amp)
        if tf and not amp:
            U.I_assume(eq0(m.nq - m.nc))
        nm = 'transfer %s, amplitude %s' % (tf, amp)
        U.run(nm, lambda: m.solver(calculate_propagator_derivatives=False),
              lambda s: props(U, m, nm, s))


# ------------------------------------------------------------------ C04
def derivs(U, m, name, s, meth='Frechet', get='frechet_deriv_propagators', grape=False):
    P_ = None
    if grape:
        P_ = U.get(s, 'propagators')

    def ctrl(l, k):
        def step(e, t):
            if grape:
                p = elf(U, U.item(P_, t))
                U.op_eq(name + ': entry', e, (m.d, m.d), lambda i, j: m.tau(t) * MI * total(
                    m.d, lambda a: m.hc(k, i, a) * p(a, j)))
            else:
                U.op_eq(name + ': entry', e, (m.d, m.d), m.dstep(k, t, meth))
        U.list_eq(name + ': times', l, m.nx, step)
    U.list_eq(name + ': controls', U.get(s, get), m.nc, ctrl)


DERIV = SOLVER + [S + 'Solver.frechet_deriv_propagators',
                  S + 'SchroedingerSolver._compute_propagation_derivatives']


@unit('C04', 'exact derivatives', DERIV, INS)
def _(U):
    for meth in (None, 'Frechet', 'first_order', 'second_order', 'third_order'):
        for calc in (False, True):
            for first in (False, True):
                m = Model(U, 'list' if calc else 'operator')
                nm = 'method %s, computed with the propagators %s, propagators read first %s' \
                    % (meth, calc, first)

                def go():
                    s = m.solver(exponential_method=meth, calculate_propagator_derivatives=calc)
                    if first:
                        U.get(s, 'propagators')
                    return s
                U.run(nm, go, lambda s: derivs(U, m, nm, s, meth or 'Frechet'))


@unit('C04', 'first order approximation', DERIV, INS)
def _(U):
    for calc in (False, True):
        for first in (False, True):
            for meth in (None, 'second_order'):
                m = Model(U)
                nm = 'grape, with the propagators %s, propagators read first %s, %s' % (
                    calc, first, meth)

                def go():
                    s = m.solver(exponential_method=meth, calculate_propagator_derivatives=calc,
                                 frechet_deriv_approx_method='grape')
                    if first:
                        U.get(s, 'propagators')
                    U.get(s, 'frechet_deriv_propagators')
                    return s
                U.run(nm, go, lambda s: derivs(U, m, nm, s, meth or 'Frechet',
                                               grape=not calc))
    m = Model(U)
    U.must_raise('unknown approximation', lambda: U.get(m.solver(
        calculate_propagator_derivatives=False, frechet_deriv_approx_method='nonsense'), 'frechet_deriv_propagators'))


# ------------------------------------------------------------------ C01
STATES = {'operator': lambda d: (d, d), 'ket': lambda d: (d, ONE), 'none': None}


def forward(U, m, name, fwd, prop):
    """fwd has n+1 entries, starts with the state and follows prop."""
    n = m.nx
    U.eq(name + ': number of entries', U.length(fwd), n + 1)
    U.op_eq(name + ': first entry is the initial state', U.item(fwd, ZERO), (m.d, m.cols), m.psi)
    t = T.temp()
    with CTX.ranges([t], [n]):
        k = P(t)
        f, p = elf(U, U.item(fwd, k)), elf(U, U.item(prop, k))
        U.op_eq(name + ': next entry', U.item(fwd, k + 1), (m.d, m.cols),
                lambda i, j: total(m.d, lambda a: p(i, a) * f(a, j)))


def reversed_(U, m, name, rev, prop, fwd):
    n = m.nx
    U.eq(name + ': number of entries', U.length(rev), n + 1)
    U.op_eq(name + ': first entry is the identity', U.item(rev, ZERO), (m.d, m.d),
            lambda i, j: eq0(i - j))
    t = T.temp()
    with CTX.ranges([t], [n]):
        k = P(t)
        r, p = elf(U, U.item(rev, k)), elf(U, U.item(prop, n - 1 - k))
        U.op_eq(name + ': next entry', U.item(rev, k + 1), (m.d, m.d),
                lambda i, j: total(m.d, lambda a: r(i, a) * p(a, j)))
    # induction over the split point, by the two recurrences
    R, F, p = (lambda i, j, n=n: fn(n, i, j) for n in ('rev', 'fwd', 'prop'))
    i, j = T.temp(), T.temp()
    with CTX.ranges([i, j], [m.d, m.cols]):
        U.eq(name + ': split points k and k+1 give the same product',
             total(m.d, lambda a: total(m.d, lambda b: R(P(i), b) * p(b, a)) * F(a, P(j))),
             total(m.d, lambda b: R(P(i), b) * total(m.d, lambda a: p(b, a) * F(a, P(j)))))
    f, r = elf(U, U.item(fwd, n)), elf(U, U.item(rev, ZERO))
    i, j = T.temp(), T.temp()
    with CTX.ranges([i, j], [m.d, m.cols]):
        U.eq(name + ': split point n gives the final propagator',
             total(m.d, lambda a: r(P(i), a) * f(a, P(j))), f(P(i), P(j)))


FWD = SOLVER + [S + 'Solver.forward_propagators', S + 'Solver._compute_forward_propagation']
REV = FWD + [S + 'Solver.reversed_propagators', S + 'Solver._compute_reversed_propagation']
ORDERS = [('propagators', 'forward_propagators'), ('forward_propagators', 'propagators')]


@unit('C01', 'forward propagators', FWD, INS + '; unitaries and kets as initial states')
def _(U):
    for st in STATES:
        for calc in (False, True):
            for meth in (None, 'second_order'):
                for order in ORDERS:
                    m = Model(U, state=STATES[st], abstract=True)
                    nm = 'state %s, derivatives %s, method %s, %s' % (st, calc, meth, order[0])

                    def go():
                        s = m.solver(calculate_propagator_derivatives=calc,
                                     exponential_method=meth)
                        for q in order:
                            U.get(s, q)
                        return s

                    def post(s):
                        f = U.get(s, 'forward_propagators')
                        forward(U, m, nm, f, U.get(s, 'propagators'))
                        U.fresh(nm + ': shares nothing with the inputs', f)
                    U.run(nm, go, post)


@unit('C02', 'reversed propagators', REV, INS + '; unitaries and kets as initial states')
def _(U):
    for st in STATES:
        for calc in (False, True):
            for order in (('reversed_propagators',), ('forward_propagators',), ('propagators',)):
                m = Model(U, state=STATES[st], abstract=True)
                nm = 'state %s, derivatives %s, first %s' % (st, calc, order[0])

                def go():
                    s = m.solver(calculate_propagator_derivatives=calc)
                    for q in order:
                        U.get(s, q)
                    return s

                def post(s):
                    r = U.get(s, 'reversed_propagators')
                    reversed_(U, m, nm, r, U.get(s, 'propagators'),
                              U.get(s, 'forward_propagators'))
                    U.fresh(nm + ': shares nothing with the inputs', r)
                U.run(nm, go, post)


# ------------------------------------------------------------------ C05
class Noisy(Model):
    """Monte Carlo solvers: an arbitrary noise trace generator and noise
    amplitude function."""

    def __init__(self, U, control=False, namp=False, ntr=None, nn=None, **kw):
        super().__init__(U, abstract=True, **kw)
        self.control = control
        self.ntr = U.dim('n_traces') if ntr is None else toP(ntr)
        self.nn = self.nc if control else U.dim('n_noise') if nn is None else toP(nn)
        if control:
            self.nn = getattr(self, 'nq', self.npar)
        nops = self.nn
        smp = U.input('noise samples', U.arr('s', nops, self.ntr, self.nx, dtype='f'))
        self.gen_ = U.input('noise trace generator', Opaque('noise trace generator', dict(
            n_traces=num(self.ntr, 'int'), noise_samples=smp)))
        self.smp = lambda n, j, t: fn('s', n, j, t, sort='r')
        self.kw['noise_trace_generator'] = self.gen_
        if control:
            self.hn = self.hc
            self.nops = self.nc
        else:
            self.nops = self.nn
            self.h_noise = U.input('h_noise', U.list_of(
                self.nn.cint or self.nn, lambda n: U.op('Hn', self.d, self.d, pre=(n,))))
            self.hn = lambda n, i, j: fn('Hn', n, i, j)
            self.kw['h_noise'] = self.h_noise
            if namp:
                self.noise_amplitude()
        self.cls_ = 'SchroedingerSMCControlNoise' if control else 'SchroedingerSMonteCarlo'

    def noise_amplitude(self):
        smp, nx, ntr, nn = self.smp, self.nx, self.ntr, self.nn

        def lam3(f, *shape):
            ts = [T.temp() for _ in shape]
            with CTX.ranges(ts, shape):
                return Lam(list(shape), ts, f(*[P(t) for t in ts]))
        x = getattr(self, 'x', self.ylam_el)

        def call(I, a, kw):
            ns, y, xx, u = [I.unlazy(kw[n]) for n in (
                'noise_samples', 'optimization_parameters', 'transferred_parameters',
                'control_amplitudes')]
            ls = [lam3(ns.el, *ns.shape)] + [lam3(v.el, *v.shape) for v in (y, xx, u)]
            return mkarr((nx, ntr, nn), lambda t, j, n: lamfun('noise_amp', 'r', ls, t, j, n), 'f')
        nq = getattr(self, 'nq', self.npar)
        ls = [lam3(lambda t, j, n: smp(n, j, t), nx, ntr, nn),
              lam3(self.ylam_el, self.ny, self.npar), lam3(x, nx, nq), lam3(self.u, nx, self.nc)]
        self.smp = lambda n, j, t: lamfun('noise_amp', 'r', ls, t, j, n)
        self.kw['noise_amplitude_function'] = Opaque('noise amplitude function', {}, call)

    def ylam_el(self, t, k):
        return fn('y', t, k, sort='r')

    def amp_of(self, n, j, t):
        """Coefficient of the noise operator n."""
        if not self.control:
            return self.smp(n, j, t)
        x = getattr(self, 'x', self.ylam_el)
        nq = getattr(self, 'nq', self.npar)
        if 'amplitude_function' not in self.kw:
            return self.smp(n, j, t)
        # u(x + noise of the trace) - u(x)
        a, b = T.temp(), T.temp()
        with CTX.ranges([a, b], [self.nx, nq]):
            l = Lam([self.nx, nq], [a, b], x(P(a), P(b)) + self.smp(P(b), j, P(a)))
        return lamfun('amplitude', 'r', [l], t, n) - self.u(t, n)

    def gen_noise(self, j, t):
        g = self.gen(t)
        return lambda a, b: g(a, b) + MI * total(
            self.nops, lambda n: self.amp_of(n, j, t) * self.hn(n, a, b))

    def step_noise(self, j, t, meth='Frechet'):
        return EXP(meth, self.gen_noise(j, t), self.tau(t), self.d)

    def dstep_noise(self, j, k, t, meth='Frechet'):
        return DEXP(meth, self.gen_noise(j, t), lambda a, b: MI * self.hc(k, a, b),
                    self.tau(t), self.d)


MC = SOLVER + [S + 'SchroedingerSMonteCarlo.' + x for x in (
    '__init__', 'set_optimization_parameters', 'propagators_noise', '_compute_dyn_gen_noise',
    '_compute_propagation')]
MCINS = 'any number of steps, controls, noise operators, traces and levels; any samples'


def props_noise(U, m, nm, s, meth='Frechet'):
    def trace(l, j):
        U.list_eq(nm + ': steps of a trace', l, m.nx, lambda p, t: U.op_eq(
            nm + ': noisy propagator', p, (m.d, m.d), m.step_noise(j, t, meth)))
    U.list_eq(nm + ': traces', U.get(s, 'propagators_noise'), m.ntr, trace)


@unit('C05', 'noisy step propagators', MC, MCINS)
def _(U):
    for calc in (False, True):
        for namp in (False, True):
            m = Noisy(U, namp=namp)
            nm = 'derivatives %s, noise amplitude function %s' % (calc, namp)

            def post(s):
                props_noise(U, m, nm, s)
                props(U, m, nm + ' (noise free)', s)
            U.run(nm, lambda: m.solver(m.cls_, calculate_propagator_derivatives=calc), post)


@unit('C05', 'noisy step propagators: transfer and amplitude functions', MC, MCINS +
      '; any transfer and amplitude function')
def _(U):
    for tf, amp in ((True, True), (False, True)):
        m = Noisy(U, namp=True, tf=tf, amp=amp)
        nm = 'transfer %s, amplitude %s' % (tf, amp)
        U.run(nm, lambda: m.solver(m.cls_, calculate_propagator_derivatives=False),
              lambda s: props_noise(U, m, nm, s))


@unit('C05', 'control noise', MC + [S + 'SchroedingerSMCControlNoise.__init__'], MCINS +
      '; any transfer and amplitude function')
def _(U):
    for tf, amp in ((False, False), (True, True)):
        m = Noisy(U, control=True, tf=tf, amp=amp)
        nm = 'control noise, transfer %s, amplitude %s' % (tf, amp)
        U.run(nm, lambda: m.solver(m.cls_), lambda s: props_noise(U, m, nm, s))


@unit('C05', 'number of processes and methods', MC + [S + '_compute_matrix_exponentials'], MCINS)
def _(U):
    for meth in (None, 'second_order', 'spectral'):
        for processes in (1, 2, None):
            for skew in (False, True):
                m = Noisy(U)
                nm = 'processes %s, method %s, skew %s' % (processes, meth, skew)
                U.run(nm, lambda: m.solver(
                    m.cls_, processes=processes,
                    exponential_method=meth, is_skew_hermitian=skew),
                    lambda s: props_noise(U, m, nm, s, meth or 'Frechet'))


MCF = MC + [S + 'SchroedingerSMonteCarlo.' + x for x in (
    'forward_propagators_noise', 'reversed_propagators_noise', '_compute_forward_propagation',
    '_compute_reversed_propagation')]


def _mc_fwd(U, st):
    if True:
        for calc in (False, True):
            for order in ((), ('forward_propagators', 'propagators_noise'),
                          ('reversed_propagators_noise',)):
                m = Noisy(U, state=STATES[st])
                nm = 'state %s, derivatives %s, after %s' % (st, calc, ','.join(order))

                def go():
                    s = m.solver(m.cls_, calculate_propagator_derivatives=calc)
                    for q in order:
                        U.get(s, q)
                    return s

                def post(s):
                    P_ = U.get(s, 'propagators_noise')
                    F = U.get(s, 'forward_propagators_noise')
                    R = U.get(s, 'reversed_propagators_noise')
                    U.eq(nm + ': traces of the forward propagators', U.length(F), m.ntr)
                    U.eq(nm + ': traces of the reversed propagators', U.length(R), m.ntr)
                    t = T.temp()
                    with CTX.ranges([t], [m.ntr]):
                        j = P(t)
                        p, f, r = U.item(P_, j), U.item(F, j), U.item(R, j)
                        forward(U, m, nm + ': forward', f, p)
                        reversed_(U, m, nm + ': reversed', r, p, f)
                    U.fresh(nm + ': shares nothing with the inputs', F)
                U.run(nm, go, post)


for _st in STATES:
    unit('C05', 'forward and reversed propagators of a trace, initial state: ' + _st, MCF, MCINS)(
        lambda U, st=_st: _mc_fwd(U, st))


@unit('C05', 'derivatives of a trace', MC + [
    S + 'SchroedingerSMonteCarlo.frechet_deriv_propagators_noise',
    S + 'SchroedingerSMonteCarlo._compute_propagation_derivatives'], MCINS)
def _(U):
    for meth in (None, 'second_order'):
        for calc in (False, True):
            for approx in (None, 'grape'):
                for first in (False, True):
                    m = Noisy(U)
                    nm = 'method %s, with the propagators %s, %s, propagators first %s' % (
                        meth, calc, approx, first)
                    grape = approx and not calc

                    def go():
                        s = m.solver(m.cls_, calculate_propagator_derivatives=calc,
                                     exponential_method=meth,
                                     frechet_deriv_approx_method=approx)
                        if first:
                            U.get(s, 'propagators_noise')
                        return s

                    def post(s):
                        D = U.get(s, 'frechet_deriv_propagators_noise')
                        Q = U.get(s, 'propagators_noise')

                        def trace(l, j):
                            def ctrl(l, k):
                                def step(e, t):
                                    if grape:
                                        p = elf(U, U.item(Q, j, t))
                                        want = lambda a, b: m.tau(t) * MI * total(
                                            m.d, lambda c: m.hc(k, a, c) * p(c, b))
                                    else:
                                        want = m.dstep_noise(j, k, t, meth or 'Frechet')
                                    U.op_eq(nm + ': derivative', e, (m.d, m.d), want)
                                U.list_eq(nm + ': steps', l, m.nx, step)
                            U.list_eq(nm + ': controls', l, m.nc, ctrl)
                        U.list_eq(nm + ': traces', D, m.ntr, trace)
                        U.fresh(nm + ': shares nothing with the inputs', D)
                    U.run(nm, go, post)
    m = Noisy(U)
    U.must_raise('unknown approximation', lambda: U.get(m.solver(
        m.cls_, frechet_deriv_approx_method='nonsense'), 'frechet_deriv_propagators_noise'))
    U.must_raise('invalid number of processes', lambda: U.get(
        m.solver(m.cls_, processes=-1), 'propagators_noise'))
    U.must_raise('derivatives with several processes', lambda: U.get(
        m.solver(m.cls_, processes=2), 'frechet_deriv_propagators_noise'))


# ------------------------------------------------------------------ C06
def kron(A, B, p, q):
    """Entry of A (x) B, B being p times q."""
    return lambda i, j: A(T.fdiv(i, p), T.fdiv(j, q)) * B(T.mod(i, p), T.mod(j, q))


def ident(i, j):
    return eq0(i - j)


class Master(Model):
    """Lindblad solver; mode: how the dissipator is given."""

    def __init__(self, U, mode, nl=None, **kw):
        super().__init__(U, abstract=True, **kw)
        self.mode = mode
        self.D = self.d * self.d
        d, nx, nc = self.d, self.nx, self.nc
        self.nl = nl = U.dim('n_lindblad') if nl is None else toP(nl)
        self.dcoef = None
        if mode.startswith('jump'):
            self.kw['lindblad_operators'] = U.input('lindblad_operators', U.list_of(
                nl.cint or nl, lambda k: U.op('L', d, d, pre=(k,))))
            L = lambda k: (lambda i, j: fn('L', k, i, j))
            conj = lambda A: (lambda i, j: T.conj(A(i, j)))
            tr = lambda A: (lambda i, j: A(j, i))
            mul = lambda A, B: (lambda i, j: total(d, lambda a: A(i, a) * B(a, j)))

            def diss(k):
                l = L(k)
                a = kron(conj(l), l, d, d)
                b = kron(ident, mul(tr(conj(l)), l), d, d)
                c = kron(mul(tr(l), conj(l)), ident, d, d)
                h = const(Fraction(1, 2))
                return lambda i, j: a(i, j) - h * b(i, j) - h * c(i, j)
            self.diss1 = diss
        elif mode.startswith('init'):
            self.kw['initial_diss_super_op'] = U.input('initial_diss_super_op', U.list_of(
                nl.cint or nl, lambda k: U.op('Di', self.D, self.D, pre=(k,))))
            self.diss1 = lambda k: (lambda i, j: fn('Di', k, i, j))
        self.coef = lambda t, k: ONE
        if mode.endswith('prefactor') or mode.endswith('derivative') \
                and not mode.startswith('function'):
            nq = getattr(self, 'nq', self.npar)
            x = getattr(self, 'x', lambda t, k: fn('y', t, k, sort='r'))

            def lam(el, *shape):
                ts = [T.temp() for _ in shape]
                with CTX.ranges(ts, shape):
                    return Lam(list(shape), ts, el(*[P(t) for t in ts]))
            want = [lam(self.u, nx, nc), lam(x, nx, nq)]

            def ls(I, a):
                return [lam(I.unlazy(v).el, *I.unlazy(v).shape) for v in a]

            def pre(I, a, kw):
                l = ls(I, a)
                return mkarr((nx, nl), lambda t, k: lamfun('prefactor', 'r', l, t, k), 'f')

            def dpre(I, a, kw):
                l = ls(I, a)
                return mkarr((nx, nc, nl), lambda t, c, k: lamfun('dprefactor', 'r', l, t, c, k),
                             'f')
            self.coef = lambda t, k: lamfun('prefactor', 'r', want, t, k)
            self.kw['prefactor_function'] = Opaque('prefactor function', {}, pre)
            if mode.endswith('derivative'):
                self.dcoef = lambda t, c, k: lamfun('dprefactor', 'r', want, t, c, k)
                self.kw['prefactor_derivative_function'] = Opaque('prefactor derivative', {}, dpre)
        self.dsup = None
        if mode.startswith('function'):
            nq = getattr(self, 'nq', self.npar)
            x = getattr(self, 'x', lambda t, k: fn('y', t, k, sort='r'))
            D = self.D

            def lam(el, *shape):
                ts = [T.temp() for _ in shape]
                with CTX.ranges(ts, shape):
                    return Lam(list(shape), ts, el(*[P(t) for t in ts]))
            want = [lam(self.u, nx, nc), lam(x, nx, nq)]

            def sup(I, a, kw):
                l = [lam(I.unlazy(v).el, *I.unlazy(v).shape) for v in a]
                return U.list_of(nx, lambda t: U.opf(
                    lambda i, j: lamfun('sup', 'c', l, t, i, j), D, D))

            def dsup(I, a, kw):
                l = [lam(I.unlazy(v).el, *I.unlazy(v).shape) for v in a]
                return U.list_of(nx, lambda t: U.list_of(nc, lambda k: U.opf(
                    lambda i, j: lamfun('dsup', 'c', l, t, k, i, j), D, D)))
            self.sup = lambda t: (lambda i, j: lamfun('sup', 'c', want, t, i, j))
            self.kw['super_operator_function'] = Opaque('super operator function', {}, sup)
            if mode == 'function derivative':
                self.kw['super_operator_derivative_function'] = Opaque('derivative', {}, dsup)
                self.dsup = lambda t, k: (lambda i, j: lamfun('dsup', 'c', want, t, k, i, j))

    def lgen(self, t):
        d = self.d
        g = self.gen(t)
        a = kron(ident, g, d, d)
        b = kron(lambda i, j: T.conj(g(i, j)), ident, d, d)
        if self.mode.startswith('function'):
            c = self.sup(t)
        else:
            c = lambda i, j: total(self.nl, lambda k: self.coef(t, k) * self.diss1(k)(i, j))
        return lambda i, j: a(i, j) + b(i, j) + c(i, j)

    def ldir(self, t, k):
        d = self.d
        h = lambda i, j: self.hc(k, i, j)
        a = kron(ident, h, d, d)
        b = kron(lambda i, j: h(j, i), ident, d, d)

        def out(i, j):
            r = MI * (a(i, j) - b(i, j))
            if self.dsup is not None:
                r = r + self.dsup(t, k)(i, j)
            elif self.dcoef is not None:
                r = r + total(self.nl, lambda l: self.dcoef(t, k, l) * self.diss1(l)(i, j))
            return r
        return out


LIND = SOLVER + [S + 'LindbladSolver.' + x for x in (
    '__init__', 'set_optimization_parameters', '_calc_diss_sup_op', '_compute_dyn_gen')]
LINS = 'any number of steps, controls, jump operators and levels; any operators and prefactors'
MODES = ('jump', 'init', 'jump prefactor', 'init prefactor', 'function')


def lprops(U, m, nm, s, meth='Frechet'):
    U.list_eq(nm + ': steps', U.get(s, 'propagators'), m.nx, lambda p, t: U.op_eq(
        nm + ': propagator', p, (m.D, m.D), EXP(meth, m.lgen(t), m.tau(t), m.D)))


@unit('C06', 'generators', LIND, LINS)
def _(U):
    for mode in MODES:
        m = Master(U, mode)
        U.run(mode, lambda: m.solver('LindbladSolver'), lambda s: lprops(U, m, mode, s))


@unit('C06', 'generators: constant drift, methods, transfer and amplitude functions', LIND,
      LINS + '; any transfer and amplitude function')
def _(U):
    for mode in ('jump prefactor', 'init', 'function'):
        m = Master(U, mode, tf=True, amp=True)
        nm = mode + ', transfer and amplitude function'
        U.run(nm, lambda: m.solver('LindbladSolver'), lambda s: lprops(U, m, nm, s))
        m = Master(U, mode, drift='single')
        nm = mode + ', one drift operator'
        U.run(nm, lambda: m.solver('LindbladSolver'), lambda s: lprops(U, m, nm, s))
        m = Master(U, mode, drift='recurring', nt=3)
        nm = mode + ', drift operator that returns'
        U.run(nm, lambda: m.solver('LindbladSolver'), lambda s: lprops(U, m, nm, s))
        m = Master(U, mode)
        nm = mode + ', second order'
        U.run(nm, lambda: m.solver('LindbladSolver', exponential_method='second_order'),
              lambda s: lprops(U, m, nm, s, 'second_order'))


DMODES = ('jump', 'init', 'jump derivative', 'init derivative', 'function derivative')


@unit('C06', 'derivative directions', LIND + DERIV + [
    S + 'LindbladSolver._compute_derivative_directions',
    S + 'LindbladSolver._calc_diss_sup_op_deriv'], LINS + '; Hermitian control operators')
def _(U):
    for mode in DMODES:
        for calc in (False, True):
            m = Master(U, mode)
            nm = '%s, with the propagators %s' % (mode, calc)

            def ctrl(l, k):
                U.list_eq(nm + ': steps', l, m.nx, lambda e, t: U.op_eq(
                    nm + ': derivative', e, (m.D, m.D),
                    DEXP('Frechet', m.lgen(t), m.ldir(t, k), m.tau(t), m.D)))
            U.run(nm, lambda: m.solver('LindbladSolver', calculate_unitary_derivatives=calc),
                  lambda s: U.list_eq(nm + ': controls', U.get(s, 'frechet_deriv_propagators'),
                                      m.nc, ctrl))


# ------------------------------------------------------------------ C07
READS = ('propagators', 'forward_propagators', 'reversed_propagators',
         'frechet_deriv_propagators')
NREADS = tuple(r + '_noise' for r in READS)
# every state of the caches that reading can produce
PATTERNS = [(), (0,), (1,), (2,), (1, 2), (3,), (3, 1), (3, 2), (3, 1, 2)]


def same_result(U, nm, a, b, shape):
    """Two (nested) lists of operators are the same."""
    a, b = unl(a), unl(b)
    if isinstance(a, Obj):
        e = elf(U, b)
        x = unl(U.data(b))
        return U.op_eq(nm + ': equals that of a new solver', a, x.shape, e)
    U.list_eq(nm + ': list', a, U.length(b), lambda x, i: same_result(
        U, nm, x, U.item(b, i), shape))


OPS7 = ('nothing', 'new pulse', 'rejected length', 'rejected width', 'new times', 'changed array')


class History:
    def __init__(self, U, m, cls, kw, tf=None):
        self.U, self.m, self.cls, self.kw, self.tf = U, m, cls, kw, tf
        self.y2 = U.arr('y2', m.ny, m.npar, dtype='f')
        self.tau2 = U.arr('tau_2', m.ny, dtype='f')
        self.y1 = self.m.pulse

    def new(self, tau):
        kw = dict(self.kw)
        if self.tf is not None:
            kw['transfer_function'] = self.m.new_tf(self.tf == 'strict')
        return self.m.build(tau, self.cls, **kw)

    def op(self, s, op, y, had=True):
        """Apply the operation; returns times and pulse that hold afterwards."""
        U, m = self.U, self.m
        tau = m.tau_in
        if op == 'new pulse':
            U.call(s, 'set_optimization_parameters', self.y2)
            if had and U.I.truth(U.I.call(Ext('numpy.array_equal'), [self.y1, self.y2], {})):
                return tau, self.y1
            return tau, self.y2
        if op.startswith('rejected'):
            n, k = (1, 0) if op == 'rejected length' else (0, 1)
            bad = U.arr('ybad', m.ny + n, m.npar + k, dtype='f')
            try:
                U.call(s, 'set_optimization_parameters', bad)
            except PyRaise:
                return tau, self.y1
            if k and self.tf == 'lenient':
                return tau, bad         # accepted: any number of parameters
            U.struct(op + ': pulse of the wrong shape is rejected', False)
        if op == 'new times':
            U.call(s, 'set_times', self.tau2)
            return self.tau2, self.y1
        if op == 'changed array':
            U.I.setitem(y, plist([num(ZERO, 'int'), num(ZERO, 'int')], True),
                        Num(var('changed', 'r'), 'float'))
        return tau, self.y1

    def check(self, nm, pattern, op, reads, names):
        U, m = self.U, self.m
        for r in reads:
            def go():
                s = self.new(m.tau_in)
                y = self.y1.copy()
                if pattern is not None:
                    U.call(s, 'set_optimization_parameters', y)
                    for q in pattern:
                        U.get(s, names[q])
                tau, yc = self.op(s, op, y, pattern is not None)
                if pattern is None and op != 'new pulse':
                    U.call(s, 'set_optimization_parameters', self.y1.copy())
                    yc = self.y1
                return s, tau, yc

            def post(v):
                s, tau, yc = v
                f = self.new(tau)
                U.call(f, 'set_optimization_parameters', yc)
                same_result(U, '%s, %s' % (nm, r), U.get(s, r), U.get(f, r), None)
            U.run('%s, %s' % (nm, r), go, post)


def histories(U, m, cls, kw, ops, patterns, reads, names=READS, tf=None):
    for op in ops:
        for p in patterns:
            h = History(U, m, cls, kw, tf)
            nm = 'after reading %s, %s' % (
                'nothing' if not p else ' '.join(names[q][:8] for q in p), op) \
                if p is not None else 'before the first pulse, ' + op
            h.check(nm, p, op, reads, names)


C7 = FWD + REV + DERIV + [S + 'SchroedingerSolver.reset_cached_propagators',
                          S + 'Solver.reset_cached_propagators']
C7INS = INS + '; by induction over the history: from every state of the caches, one operation ' \
    'and any one result read afterwards'
FEW = [(), (1, 2), (3, 1, 2), None]


def caches(calc):
    """Without the derivatives computed along there are more states."""
    return (PATTERNS[:5] if calc else PATTERNS) + [None]


for _op in OPS7:
    for _calc in (False, True):
        unit('C07', 'Schroedinger solver: %s, derivatives with the propagators %s' % (_op, _calc),
             C7, C7INS, timeout=300)(lambda U, op=_op, calc=_calc: histories(
                 U, Model(U, abstract=True), 'SchroedingerSolver',
                 dict(calculate_propagator_derivatives=calc), [op], caches(calc), READS))
    for _tf in ('strict', 'lenient'):
        for _tier in ('quick', 'thorough'):
            if _tf == 'strict' or 'rejected' in _op:
                def _f(U, op=_op, tf=_tf, tier=_tier):
                    m = Model(U, abstract=True, tf=tf, amp=True, stateful=True)
                    histories(U, m, 'SchroedingerSolver',
                              dict(calculate_propagator_derivatives=False), [op],
                              FEW if tier == 'quick' else [p for p in PATTERNS if p not in FEW],
                              READS, tf=tf)
                unit('C07', 'any %s transfer function and amplitude function: %s%s' % (
                    _tf, _op, '' if _tier == 'quick' else ', all states'), C7, C7INS,
                    timeout=300, tier=_tier)(_f)
    for _tier in ('quick', 'thorough'):
        def _f(U, op=_op, tier=_tier):
            m = Noisy(U)
            histories(U, m, m.cls_, {}, [op],
                      FEW if tier == 'quick' else [p for p in PATTERNS if p not in FEW],
                      READS[1:] + NREADS)
        unit('C07', 'Monte Carlo solver: %s%s' % (_op, '' if _tier == 'quick' else ', all states'),
             C7 + MCF, C7INS, timeout=300, tier=_tier)(_f)
        for _mode in ('jump', 'jump derivative', 'function derivative'):
            def _f(U, op=_op, tier=_tier, mode=_mode):
                m = Master(U, mode)
                histories(U, m, 'LindbladSolver', {}, [op],
                          FEW if tier == 'quick' else [p for p in PATTERNS if p not in FEW],
                          READS)
            unit('C07', 'Lindblad solver (%s): %s%s' % (
                _mode, _op, '' if _tier == 'quick' else ', all states'), C7 + LIND, C7INS,
                timeout=300, tier=_tier)(_f)
