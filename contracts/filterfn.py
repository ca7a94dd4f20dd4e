"""C31: what qopt hands to the package filter_functions."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from contracts.solvers import Model, S, lamfun, Noisy, Master

FF = [S + 'Solver.' + n for n in (
    'create_pulse_sequence', '_diagonalize_and_propagate_pulse_sequence', 'create_ff_h_n',
    'filter_function_n_coeffs_deriv_vals', 'reset_cached_propagators')]
CF = 'qopt.cost_functions:OperatorFilterFunctionInfidelity.'
INS = 'any number of steps and levels, any operators, pulse, times and coefficients; '
BND = 'at most 3 controls (and 11: two-digit identifiers), at most 3 noise operators'


class Noise:
    """Noise operators of the filter function formalism with names that are not sorted."""
    NAMES = ('Z', 'A', 'M')

    def __init__(self, U, m, n, ops='array'):
        self.n, self.names = n, self.NAMES[:n]
        self.el = lambda q, i, j: fn('ffop%d' % q, i, j)
        self.co = lambda q, t: fn('ffco%d' % q, t, sort='r')
        self.arg = U.input('filter_function_h_n', plist([plist([
            (U.op if ops == 'operator' else U.arr)('ffop%d' % q, m.d, m.d),
            U.arr('ffco%d' % q, m.nx, dtype='f'), self.names[q]]) for q in range(n)]))


def check(U, m, nm, s, ps, noise, u=None, tau=None, basis=None):
    """The pulse sequence describes the solver's evolution under the amplitudes u and
    durations tau and the noise (n, names, el, co)."""
    u, tau = u or m.u, tau or m.tau
    nc = m.nc.cint
    ids = ['Control%d' % k for k in range(nc)]

    def same(what, got, want):
        got = [x for x in U.I.concrete(got)]
        U.struct('%s: %s identifiers' % (nm, what), got == want, '%s instead of %s' % (got, want))
    same('control', U.get(ps, 'c_oper_identifiers'), sorted(ids))
    at = [int(x[7:]) for x in sorted(ids)]
    U.arr_eq(nm + ': durations', U.get(ps, 'dt'), (m.nx,), tau)
    co, cc = U.get(ps, 'c_opers'), U.get(ps, 'c_coeffs')
    for k in range(nc):
        U.arr_eq('%s: control operator %s' % (nm, ids[at[k]]), U.I.getitem(co, num(const(k), 'int')),
                 (m.d, m.d), lambda i, j: m.hc(const(at[k]), i, j))
        U.arr_eq('%s: control amplitudes %s' % (nm, ids[at[k]]), U.I.getitem(cc, num(const(k), 'int')),
                 (m.nx,), lambda t: u(t, const(at[k])))
    names = list(noise.names)
    same('noise', U.get(ps, 'n_oper_identifiers'), sorted(names))
    same('stored noise', U.get(s, 'filter_function_n_oper_identifiers'), names)
    no, nco = U.get(ps, 'n_opers'), U.get(ps, 'n_coeffs')
    for p, x in enumerate(sorted(names)):
        q = names.index(x)
        U.arr_eq('%s: noise operator %s' % (nm, x), U.I.getitem(no, num(const(p), 'int')),
                 (m.d, m.d), lambda i, j: noise.el(q, i, j))
        if noise.co is not None:
            U.arr_eq('%s: noise coefficients %s' % (nm, x), U.I.getitem(nco, num(const(p), 'int')),
                     (m.nx,), lambda t: noise.co(q, t))
    H = lambda t, i, j: m.hd(t, i, j) + sum(
        (u(t, const(k)) * m.hc(const(k), i, j) for k in range(nc)), ZERO)
    t, i, j = T.temp(), T.temp(), T.temp()
    with CTX.ranges([t, i, j], [m.nx, m.d, m.d]):
        L = Lam([m.nx, m.d, m.d], [t, i, j], H(P(t), P(i), P(j)))
    t = T.temp()
    with CTX.ranges([t], [m.nx]):
        L = [L, Lam([m.nx], [t], tau(P(t)))]
    U.arr_eq(nm + ': eigenvalues', U.get(ps, 'eigvals'), (m.nx, m.d),
             lambda t, i: lamfun('ff_eigvals', 'r', L, t, i))
    U.arr_eq(nm + ': eigenvectors', U.get(ps, 'eigvecs'), (m.nx, m.d, m.d),
             lambda t, i, j: lamfun('ff_eigvecs', 'c', L, t, i, j))
    U.arr_eq(nm + ': cumulative propagators', U.get(ps, 'propagators'), (m.nx + 1, m.d, m.d),
             lambda t, i, j: lamfun('ff_propagators', 'c', L, t, i, j))
    U.arr_eq(nm + ': total propagator', U.get(ps, 'total_propagator'), (m.d, m.d),
             lambda i, j: lamfun('ff_propagators', 'c', L, m.nx, i, j))
    U.struct(nm + ': basis', U.I.unlazy(U.get(ps, 'basis')) is basis)
    U.struct(nm + ': stored', U.I.unlazy(U.get(s, 'pulse_sequence')) is ps)


def create(U, s, *a, **kw):
    return s, U.call(s, 'create_pulse_sequence', *a, **kw)


class McNoise:
    """Noise operators of the Monte Carlo simulation, susceptibility 1."""

    def __init__(self, m, n):
        self.names = tuple('Noise%d' % q for q in range(n))
        self.el = lambda q, i, j: m.hn(const(q), i, j)
        self.co = lambda q, t: ONE


class NoNoise:
    names = ('No Noise',)
    el = staticmethod(lambda q, i, j: ZERO)
    co = None


@unit('C31', 'pulse sequence', FF, INS + BND, bounded=BND)
def _(U):
    for nc, drift, nn, ops in ((1, 'list', 0, ''), (1, 'operator', 1, 'array'),
                               (2, 'list', 2, 'array'), (3, 'single', 3, 'operator'),
                               (11, 'list', 2, 'array'), (1, 'recurring', 1, 'array')):
        m = Model(U, drift, nc=nc, nt=3 if drift == 'recurring' else None)
        noise = Noise(U, m, nn, ops) if nn else NoNoise()
        kw = dict(filter_function_h_n=noise.arg) if nn else {}
        nm = '%d controls, drift %s, %d noise operators' % (nc, drift, nn)
        U.run(nm, lambda: create(U, m.solver(**kw)), lambda r: check(U, m, nm, *r, noise))


@unit('C31', 'pulse sequence: noise from a function, transfer and amplitude function, basis', FF,
      INS + 'any transfer and amplitude function; ' + BND, bounded=BND)
def _(U):
    for new in (True, False):
        m = Model(U, nc=2, tf=True, amp=True)
        base = Noise(U, m, 2)
        pars, tr, am = [], [], []
        noise = Noise(U, m, 2)
        seen = []

        def h_n(I, a, kw):
            if kw or len(a) != (3 if new else 1):
                I.raise_('TypeError', 'number of arguments')
            seen.append([I.unlazy(x) for x in a])
            return base.arg
        b = Opaque('basis', {})
        nm = 'callable, %s interface' % ('documented' if new else 'old')

        def post(r):
            check(U, m, nm, *r, noise, basis=b)
            got = seen[-1]
            if new:
                U.arr_eq(nm + ': optimisation parameters', got[0], (m.ny, m.npar),
                         lambda t, k: fn('y', t, k, sort='r'))
                U.arr_eq(nm + ': transferred parameters', got[1], (m.nx, m.nq), m.x)
            U.arr_eq(nm + ': control amplitudes', got[-1], (m.nx, m.nc), m.u)
        f = Native('h_n', h_n)
        U.run(nm, lambda: create(U, m.solver(filter_function_h_n=f), ff_basis=b), post)
        U.run(nm + ', basis of the solver', lambda: create(U, m.solver(
            filter_function_h_n=f, filter_function_basis=b)), post)


@unit('C31', 'pulse sequence: changed pulse and times', FF + [
    S + 'Solver.set_optimization_parameters', S + 'Solver.set_times'],
    INS + 'histories of pulses and times of the same shape; ' + BND, bounded=BND)
def _(U):
    for nm, change in (
            ('created twice', lambda s, p, t: None),
            ('after another pulse', lambda s, p, t: U.call(s, 'set_optimization_parameters', p)),
            ('after other times', lambda s, p, t: U.call(s, 'set_times', t)),
            ('after a rejected pulse', 'reject'),
            ('pulse given to the call', 'arg')):
        m = Model(U, nc=2)
        noise = Noise(U, m, 2)
        p = U.input('other pulse', U.arr('y2', m.ny, m.npar, dtype='f'))
        t = U.input('other times', U.arr('tau2', m.ny, dtype='f'))
        bad = U.input('bad pulse', U.arr('y3', m.ny + 1, m.npar, dtype='f'))

        def go():
            s = m.solver(filter_function_h_n=noise.arg)
            U.call(s, 'create_pulse_sequence')
            U.get(s, 'forward_propagators')
            if change == 'arg':
                return create(U, s, p)
            if change == 'reject':
                try:
                    U.call(s, 'set_optimization_parameters', bad)
                except PyRaise:
                    pass
            else:
                change(s, p, t)
            return create(U, s)
        other = 'another pulse' in nm or change == 'arg'
        U.run(nm, go, lambda r: check(
            U, m, nm, *r, noise,
            u=(lambda t, k: fn('y2', t, k, sort='r')) if other else None,
            tau=(lambda t: fn('tau2', t, sort='r')) if 'times' in nm else None))


@unit('C31', 'pulse sequence: Monte Carlo and Lindblad solvers', FF + [
    S + 'SchroedingerSMonteCarlo.create_ff_h_n', S + 'SchroedingerSMonteCarlo.__init__',
    S + 'LindbladSolver.__init__'], INS + BND, bounded=BND)
def _(U):
    for nn, how in ((1, 'none'), (3, 'none'), (2, 'list'), (2, 'documented'), (2, 'old')):
        m = Noisy(U, nc=2, nn=nn)
        own = Noise(U, m, nn)

        def h_n(I, a, kw):
            if kw or len(a) != (3 if how == 'documented' else 1):
                I.raise_('TypeError', 'number of arguments')
            [I.unlazy(x) for x in a]
            return own.arg
        kw = {} if how == 'none' else dict(filter_function_h_n=own.arg) if how == 'list' \
            else dict(filter_function_h_n=Native('h_n', h_n))
        nm = 'Monte Carlo solver, %d noise operators, given: %s' % (nn, how)
        U.run(nm, lambda: create(U, m.solver(m.cls_, **kw)), lambda r: check(
            U, m, nm, *r, McNoise(m, nn) if how == 'none' else own))
    for nn in (0, 2):
        m = Master(U, 'jump', nc=2)
        own = Noise(U, m, nn) if nn else NoNoise()
        kw = dict(filter_function_h_n=own.arg) if nn else {}
        nm = 'Lindblad solver, %d noise operators' % nn
        U.run(nm, lambda: create(U, m.solver('LindbladSolver', **kw)),
              lambda r: check(U, m, nm, *r, own))


class Package:
    """filter_functions.numeric.infidelity and gradient.infidelity_derivative: one value per
    requested noise operator (step, requested control), in the order of the request."""

    def __init__(self, U):
        self.U = U
        self.calls = []
        U.I.stubs = dict(U.I.stubs)
        for path, f in (('numeric.infidelity', self.infidelity),
                        ('gradient.infidelity_derivative', self.derivative),
                        ('util.get_sample_frequencies', self.frequencies)):
            U.I.stubs['filter_functions.' + path] = f

    def bind(self, names, a, kw, allow):
        kw = dict(kw.items())
        for n, v in zip(names, a):
            kw[n] = v
        for n in kw:
            if n not in names and n not in allow:
                raise Unsupported('argument ' + n)
        kw = {n: self.U.I.unlazy(kw.get(n)) for n in names}
        ids = kw['n_oper_identifiers']
        kw['n_oper_identifiers'] = self.U.I.concrete(
            self.U.get(kw['pulse'], 'n_oper_identifiers') if ids is None else ids)
        self.calls.append(kw)
        return kw

    def infidelity(self, I, a, kw):
        b = self.bind(('pulse', 'spectrum', 'omega', 'n_oper_identifiers'), a, kw,
                      ('cache_intermediates', 'show_progressbar'))
        n = b['n_oper_identifiers']
        return mkarr((len(n),), lambda q: sum(
            (eq0(q - p) * fn('ff_inf_' + x, sort='r') for p, x in enumerate(n)), ZERO), 'f')

    def derivative(self, I, a, kw):
        b = self.bind(('pulse', 'spectrum', 'omega', 'control_identifiers', 'n_oper_identifiers',
                       'n_coeffs_deriv'), a, kw, ())
        n = b['n_oper_identifiers']
        c = b['control_identifiers']
        c = I.concrete(self.U.get(b['pulse'], 'c_oper_identifiers') if c is None else c)
        nt = self.U.get(b['pulse'], 'dt').shape[0]
        return mkarr((len(n), nt, len(c)), lambda q, t, k: sum(
            (eq0(q - p) * eq0(k - o) * fn('ff_der_%s_%s' % (x, y), t, sort='r')
             for p, x in enumerate(n) for o, y in enumerate(c)), ZERO), 'f')

    def frequencies(self, I, a, kw):
        kw = dict(kw.items())
        if len(a) > 1 or any(k not in ('pulse', 'n_samples', 'spacing') for k in kw):
            raise Unsupported('arguments of get_sample_frequencies')
        pulse = a[0] if a else kw['pulse']
        n = self.U.dim('n_omega')
        self.calls.append(dict(pulse=I.unlazy(pulse)))
        return mkarr((n,), lambda w: fn('omega', w, sort='r'), 'f')


@unit('C31', 'filter function infidelity', FF + [CF + x for x in (
    '__init__', 'omega', 'costs', 'grad')], INS + BND, bounded=BND)
def _(U):
    for grad, given, prepared, deriv in itertools.product((False, True), (False, True),
                                                          (False, True), (None, 'new', 'old')):
        if deriv and not grad:
            continue
        m = Model(U, nc=2)
        noise = Noise(U, m, 2)
        pk = Package(U)
        w = U.dim('n_omega')
        om = U.input('omega', U.arr('omega', w, dtype='f'))
        kw = dict(filter_function_h_n=noise.arg)
        nm = '%s, frequencies %s, pulse sequence %s' % (
            'gradient' if grad else 'costs', 'given' if given else 'chosen',
            'created before' if prepared else 'not created')
        seen = []
        if deriv:
            nm += ', %s derivative of coefficients' % deriv

            def dco(I, a, k):
                if k or len(a) != (3 if deriv == 'new' else 1):
                    I.raise_('TypeError', 'number of arguments')
                seen.append([I.unlazy(x) for x in a][-1])
                return mkarr((2, m.nc, m.nx), lambda q, k, t: fn('dco', q, k, t, sort='r'), 'f')
            kw['filter_function_n_coeffs_deriv'] = Native('dco', dco)

        def psd(I, a, k):
            x = I.unlazy(a[0])
            t = T.temp()
            with CTX.ranges([t], [x.shape[0]]):
                l = [Lam([x.shape[0]], [t], x.el(P(t)))]
            return mkarr((x.shape[0],), lambda v: lamfun('PSD', 'r', l, v), 'f')
        p2 = U.input('first pulse', U.arr('y2', m.ny, m.npar, dtype='f'))

        def go():
            s = m.build(m.tau_in, **kw)
            c = U.I.call(U.cls('qopt.cost_functions:OperatorFilterFunctionInfidelity'), [s], dict(
                noise_power_spec_density=Native('psd', psd), omega=om if given else None))
            if prepared:
                U.call(s, 'set_optimization_parameters', p2)
                U.call(c, 'costs')
                U.call(c, 'grad')
            U.call(s, 'set_optimization_parameters', m.pulse)
            del pk.calls[:], seen[:]
            return s, U.call(c, 'grad' if grad else 'costs'), list(pk.calls), list(seen)

        def post(r):
            s, v, calls, args = r
            b = calls[-1]
            check(U, m, nm, s, b['pulse'], noise)
            for k in calls:
                U.struct(nm + ': pulse sequence of the solver', k['pulse'] is b['pulse'])
            U.arr_eq(nm + ': frequencies', b['omega'], (w,), lambda x: fn('omega', x, sort='r'))
            t = T.temp()
            with CTX.ranges([t], [w]):
                l = [Lam([w], [t], fn('omega', P(t), sort='r'))]
            U.arr_eq(nm + ': spectral density at the frequencies', b['spectrum'], (w,),
                     lambda x: lamfun('PSD', 'r', l, x))
            names = list(noise.names)
            pick = lambda q, f: sum((eq0(q - p) * f(x) for p, x in enumerate(names)), ZERO)
            if not grad:
                U.arr_eq(nm + ': one infidelity per noise operator in the given order', v, (2,),
                         lambda q: pick(q, lambda x: fn('ff_inf_' + x, sort='r')))
                return
            U.arr_eq(nm + ': layout time, noise operator, control', v, (m.nx, 2, 2),
                     lambda t, q, k: pick(q, lambda x: sum(
                         (eq0(k - o) * fn('ff_der_%s_Control%d' % (x, o), t, sort='r')
                          for o in range(2)), ZERO)))
            if deriv:
                U.arr_eq(nm + ': derivatives of the coefficients', b['n_coeffs_deriv'],
                         (2, m.nc, m.nx), lambda q, k, t: fn('dco', q, k, t, sort='r'))
                U.arr_eq(nm + ': derivatives at the control amplitudes', args[-1],
                         (m.nx, m.nc), m.u)
            else:
                U.struct(nm + ': constant coefficients', b['n_coeffs_deriv'] is None)
        U.run(nm, go, post)
