"""C08: frame conditions, nothing reachable from the caller's objects changes."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from contracts import solvers as so, costs as co, transfer as tr, amplitude as am, \
    noise as no

S, C = so.S, co.C
ORDERS = [(), (0, 1, 2, 3), (3, 2, 1, 0), (2,), (1, 3)]


def reading(U, nm, m, cls, names, kw, twice=True):
    """Every result in different orders, with a new pulse afterwards."""
    for order in ORDERS:
        order = [q for q in order if q < len(names)]

        def go():
            s = m.solver(cls, **kw)
            for q in order or range(len(names) - 1, -1, -1):
                U.get(s, names[q])
            if not order and twice:
                U.call(s, 'set_optimization_parameters', U.arr('y2', m.ny, m.npar, dtype='f'))
                for n in names:
                    U.get(s, n)
            return s
        n = '%s, reading %s' % (nm, ' '.join(names[q] for q in order) or 'all, new pulse, all')
        U.run(n, go, lambda s: U.struct(n + ': inputs kept', True))


ALL = so.FWD + so.REV + so.DERIV


@unit('C08', 'Schroedinger solver', ALL, so.INS)
def _(U):
    for drift in ('list', 'operator', 'single'):
        for calc in (False, True):
            for approx in (None, 'grape'):
                m = so.Model(U, drift, abstract=True)
                reading(U, 'drift %s, derivatives %s, %s' % (drift, calc, approx), m,
                        'SchroedingerSolver', so.READS, dict(
                            calculate_propagator_derivatives=calc,
                            frechet_deriv_approx_method=approx))


def _exponentials(U, meth):
    if True:
        for calc in (False, True):
            m = so.Model(U)
            reading(U, 'method %s, derivatives %s' % (meth, calc), m, 'SchroedingerSolver',
                    so.READS, dict(calculate_propagator_derivatives=calc,
                                   exponential_method=meth), twice=False)


for _meth in ('Frechet', 'spectral', 'approx', 'first_order', 'second_order', 'third_order'):
    unit('C08', 'Schroedinger solver: exponentials, ' + _meth, ALL + [
        'qopt.matrix:DenseOperator.' + x for x in ('exp', 'dexp')], so.INS)(
            lambda U, meth=_meth: _exponentials(U, meth))


@unit('C08', 'Schroedinger solver: transfer and amplitude functions, initial states', ALL,
      so.INS + '; any transfer and amplitude function')
def _(U):
    for tf, amp in ((False, True), (True, True)):
        for st in (None,) + tuple(so.STATES):
            m = so.Model(U, abstract=True, tf=tf, amp=amp, state=so.STATES[st] if st else None)
            reading(U, 'transfer %s, amplitude %s, state %s' % (tf, amp, st), m,
                    'SchroedingerSolver', so.READS, dict(calculate_propagator_derivatives=False))


def _monte_carlo(U, control, namp):
    for calc in (False, True):
        for tf in (False, True):
            m = so.Noisy(U, control=control, namp=namp, tf=tf, amp=tf)
            reading(U, 'derivatives %s, transfer %s' % (calc, tf), m, m.cls_, so.NREADS,
                    dict(calculate_propagator_derivatives=calc))


for _c, _n in ((False, False), (False, True), (True, False)):
    unit('C08', 'Monte Carlo solver, control noise %s, amplitude function %s' % (_c, _n),
         so.MCF + ALL, so.MCINS)(lambda U, c=_c, n=_n: _monte_carlo(U, c, n))


def _lindblad(U, mode, tf):
    m = so.Master(U, mode, tf=tf, amp=tf)
    # derivatives with respect to controls need the prefactor's derivative
    names = so.READS[:3] if mode.endswith('prefactor') or mode == 'function' else so.READS
    reading(U, 'Lindblad', m, 'LindbladSolver', names, {})


for _mode in so.MODES + ('jump derivative', 'init derivative', 'function derivative'):
    for _tf in (False, True):
        unit('C08', 'Lindblad solver (%s), transfer and amplitude function %s' % (_mode, _tf),
             so.LIND + ALL, so.LINS)(lambda U, m=_mode, tf=_tf: _lindblad(U, m, tf))


def prep(U, comp, given=True, t=None, **kw):
    s = co.Sys(U, **kw)
    q = co.Comp(U, s.d, comp)
    if given:
        n = q.n
        shape = dict(op=(n, n), bra=(1, n), ket=(n, 1))[t or 'op']
        return s, q, U.input('target', U.op('T', *shape))
    return s, q, None


def values(U, nm, c, grad=True):
    for order in ((0, 1), (1, 0))[:2 if grad else 1]:
        def go():
            for k in order[:2 if grad else 1]:
                U.call(c, ('costs', 'grad')[k])
        n = '%s, %s' % (nm, ' then '.join(('costs', 'grad')[k] for k in order))
        U.run(n, go, lambda r: U.struct(n + ': inputs kept', True))


@unit('C08', 'cost functions of one evolution', [C + x + '.' + f for x in (
    'StateInfidelity', 'OperationInfidelity', 'LeakageError', 'LeakageLiouville')
    for f in ('__init__', 'costs', 'grad')], co.INS)
def _(U):
    for comp in (False, True):
        sx = ' in the subspace' * comp
        for k in ('bra', 'ket'):
            s, q, t = prep(U, comp, t=k, cols=ONE)
            if k == 'ket':
                U.I_assume(ge(q.n - 2))
            for resc in (False, True):
                c = co.new(U, 'StateInfidelity', s.solver, target=t, computational_states=q.arg,
                           rescale_propagated_state=resc)
                values(U, 'state %s, rescaled %s%s' % (k, resc, sx), c, not resc)
        s, q, t = prep(U, comp)
        for close in (False, True)[:1 + comp]:
            c = co.new(U, 'OperationInfidelity', s.solver, target=t, computational_states=q.arg,
                       map_to_closest_unitary=close)
            values(U, 'operation, closest unitary %s%s' % (close, sx), c, not close)
        s, q, t = prep(U, comp, sup=True)
        c = co.new(U, 'OperationInfidelity', s.solver, target=t, computational_states=q.arg,
                   super_operator_formalism=True)
        values(U, 'super operator' + sx, c)
    s = co.Sys(U)
    q = co.Comp(U, s.d, True)
    values(U, 'leakage', co.new(U, 'LeakageError', s.solver, q.arg))
    for unitary in (False, True):
        s = co.Sys(U, sup=not unitary)
        q = co.Comp(U, s.d, True)
        values(U, 'leakage of super operators, unitary %s' % unitary, co.new(
            U, 'LeakageLiouville', s.solver, q.arg, input_unitary=unitary, monte_carlo=False), False)


@unit('C08', 'cost functions of noise traces', [C + x + '.' + f for x in (
    'StateNoiseInfidelity', 'OperationNoiseInfidelity', 'IncoherentLeakageError')
    for f in ('__init__', 'costs', 'grad')], co.INS)
def _(U):
    for comp in (False, True):
        for neglect, given, eff in co.neglects():
            sx = ', neglect %s, target %s' % (neglect, given) + ' in the subspace' * comp
            s, q, t = prep(U, comp, given, noise=True)
            for close in (False, True)[:1 + comp]:
                c = co.new(U, 'OperationNoiseInfidelity', s.solver, t, computational_states=q.arg,
                           neglect_systematic_errors=neglect, map_to_closest_unitary=close)
                values(U, 'operation, closest unitary %s%s' % (close, sx), c, not close)
        s, q, t = prep(U, comp, t='bra', noise=True, cols=ONE)
        for resc in (False, True):
            c = co.new(U, 'StateNoiseInfidelity', s.solver, target=t,
                       computational_states=q.arg, rescale_propagated_state=resc)
            values(U, 'state, rescaled %s%s' % (resc, ' in the subspace' * comp), c, False)
        s, q, t = prep(U, comp, noise=True)
        c = co.new(U, 'LiouvilleMonteCarloEntanglementInfidelity', s.solver, target=t,
                   computational_states=q.arg)
        values(U, 'Liouville%s' % (' in the subspace' * comp), c, False)
    s = co.Sys(U, noise=True)
    q = co.Comp(U, s.d, True)
    values(U, 'incoherent leakage', co.new(U, 'IncoherentLeakageError', s.solver, q.arg), False)


@unit('C08', 'transfer functions', [tr.F + x for x in (
    'OversamplingTF.gradient_chain_rule', 'OversamplingTF.__call__',
    'MatrixTF.gradient_chain_rule')], tr.INS)
def _(U):
    for cls in ('OversamplingTF', 'OversamplingMTF', 'ExponentialMTF'):
        for bound in tr.BOUNDS:
            g = tr.Grid(U, bound, uniform=cls == 'ExponentialMTF')
            nm = '%s, boundary %s' % (cls, bound)
            y = g.pulse()
            f = U.dim('n_cost')
            dv = U.input('derivatives', U.arr('g', g.nx, f, g.k, dtype='f'))
            tr_frame(U, nm, lambda: tr.timed(U, g, cls), y, dv)
    for cls in ('IdentityTF', 'GaussianConvolution', 'ConvolutionTF'):
        g = tr.Grid(U, None, over=1)
        kw = {}
        if cls == 'GaussianConvolution':
            kw['sigma'] = U.real('sigma')
        elif cls == 'ConvolutionTF':
            kw['kernel'] = U.input('kernel', U.arr('kernel', U.dim('n_kernel'), dtype='f'))
        y = g.pulse()
        f = U.dim('n_cost')
        dv = U.input('derivatives', U.arr('g', g.nx, f, g.k, dtype='f'))
        tr_frame(U, cls, lambda: tr.timed(U, g, cls, **kw), y, dv)


def tr_frame(U, nm, make, y, dv):
    def go():
        tf = make()
        U.call(tf, 'gradient_chain_rule', dv)
        U.call(tf, '__call__', y)
        U.call(tf, 'gradient_chain_rule', dv)
    U.run(nm, go, lambda r: U.struct(nm + ': inputs kept', True))


@unit('C08', 'amplitude functions', [am.A + x for x in (
    'IdentityAmpFunc.__call__', 'IdentityAmpFunc.derivative_by_chain_rule',
    'UnaryAnalyticAmpFunc.__call__', 'UnaryAnalyticAmpFunc.derivative_by_chain_rule')], am.INS)
def _(U):
    n, p, f, k, x, g = am.setup(U, False)
    for nm, go in am.both(U, lambda: U.I.call(U.cls(am.A + 'IdentityAmpFunc'), [], {}), x, g):
        U.run('identity' + nm, go, lambda r: U.struct('identity%s: inputs kept' % nm, True))
    un = [Native('f', lambda I, a, kw, q=q: Num(fn('f%d' % q, pol(a[0]), sort='r'), 'float'))
          for q in (0, 1)]
    for nm, go in am.both(U, lambda: U.I.call(U.cls(am.A + 'UnaryAnalyticAmpFunc'), un, {}), x, g):
        U.run('unary' + nm, go, lambda r: U.struct('unary%s: inputs kept' % nm, True))


@unit('C08', 'noise generators', no.QS + [no.N + 'NTGColoredNoise.' + x for x in (
    '__init__', '_sample_noise')], no.INS)
def _(U):
    for kind in ('list', 'array'):
        for mode in ('uncorrelated_deterministic', 'monte_carlo'):
            for corr in (False, True):
                k, n, m = U.dim('n_op'), U.dim('n', 2), U.dim('n_samples')
                sd, s = no.stds(U, k, kind)
                nm = '%s of standard deviations, %s, corrected %s' % (kind, mode, corr)

                def go():
                    g = U.I.call(U.cls(no.N + 'NTGQuasiStatic'), [], dict(
                        standard_deviation=sd, n_samples_per_trace=num(m, 'int'),
                        n_traces=num(n, 'int'), sampling_mode=mode,
                        correct_std_for_discrete_sampling=corr))
                    U.get(g, 'noise_samples')
                    U.get(g, 'noise_samples')
                U.run(nm, go, lambda r: U.struct(nm + ': inputs kept', True),
                      raises={'RuntimeError'})
