"""C01-C08: solvers."""
import copy
import numpy as np
from oracle.frame import case, known
from oracle.lib import *

SIMPLE = ('identity', 'over', 'overM', 'exp', 'custom', 'concat')


def rand_solver_args(rng, taylor=True):
    """method, calculate_propagator_derivatives, grape"""
    m = METHODS[rng.integers(len(METHODS))] if rng.random() < .6 else \
        [None, 'Frechet', 'spectral'][rng.integers(3)]
    return m, bool(rng.integers(2)), [None, None, 'grape'][rng.integers(3)]


def tol_of(method, generators):
    """The difference quotient divides rounding errors, which grow with the
    norm of the exponent, by 1e-10."""
    norm = max([np.linalg.norm(g, 2) for g in generators])
    return 2e-4 * (1 + norm) if method == 'approx' else 1e-8


def near_any(got, wants, msg, tol=1e-8):
    errs = []
    for w in wants:
        try:
            eq(got, w, msg, tol)
            return
        except Violation as e:
            errs.append(str(e))
    fail(errs[0])


def make_lindblad(rng, s, mode=None):
    """Lindblad arguments and reference dissipators [t] and derivative [t][k]."""
    d = s.d
    nl = int(rng.integers(1, 4))
    ls = [0.5 * cmat(rng, d) for _ in range(nl)]

    def sup(l):
        i = np.eye(d)
        return np.kron(l.conj(), l) - .5 * np.kron(i, l.conj().T @ l) \
            - .5 * np.kron(l.T @ l.conj(), i)
    mode = mode or ['const', 'pref', 'pref_deriv', 'initial', 'initial_pref_deriv',
                    'supfun', 'supfun_deriv'][rng.integers(7)]
    sups = [sup(l) for l in ls]
    c0 = rng.uniform(0.2, 1, size=nl)
    c1 = .3 * rng.normal(size=(s.nc, nl))
    c2 = .3 * rng.normal(size=(s.amp.n_par, nl))

    def pref(u, x):
        return c0 + u @ c1 + (x @ c2) ** 2 * .5

    def dpref(u, x):
        # derivative by the control amplitudes at fixed x, [t][ctrl][lindblad]
        return np.repeat(c1[None], u.shape[0], axis=0)

    def supf(u, x):
        p = pref(u, x)
        return [DO(sum(p[t, n] * sups[n] for n in range(nl)))
                for t in range(len(p))]

    def dsupf(u, x):
        return [[DO(sum(c1[k, n] * sups[n] for n in range(nl)))
                 for k in range(u.shape[1])] for _ in range(u.shape[0])]
    lops = dense_ops(ls)
    kw = dict()
    if mode in ('const', 'pref', 'pref_deriv'):
        kw['lindblad_operators'] = lops
    if mode in ('initial', 'initial_pref_deriv'):
        kw['initial_diss_super_op'] = dense_ops(sups)
    if mode in ('pref', 'pref_deriv', 'initial_pref_deriv'):
        kw['prefactor_function'] = pref
    if mode in ('pref_deriv', 'initial_pref_deriv'):
        kw['prefactor_derivative_function'] = dpref
    if mode.startswith('supfun'):
        kw['super_operator_function'] = supf
    if mode == 'supfun_deriv':
        kw['super_operator_derivative_function'] = dsupf

    def diss(y=None):
        if mode in ('const', 'initial'):
            return [sum(sups)] * s.nx
        p = pref(s.u(y), s.x(y))
        return [sum(p[t, n] * sups[n] for n in range(nl)) for t in range(s.nx)]

    def ddiss():
        z = np.zeros((d * d, d * d), dtype=complex)
        if mode in ('pref_deriv', 'initial_pref_deriv', 'supfun_deriv'):
            return [[sum(c1[k, n] * sups[n] for n in range(nl))
                     for k in range(s.nc)] for _ in range(s.nx)]
        return [[z] * s.nc for _ in range(s.nx)]
    return mode, kw, diss, ddiss


def lind_gens(s, diss, y=None):
    i = np.eye(s.d)
    return [np.kron(i, g) + np.kron(g.conj(), i) + dd
            for g, dd in zip(s.gens(y), diss(y))]


def lind_dirs(s, ddiss):
    i = np.eye(s.d)
    out = []
    for t in range(s.nx):
        out.append([-1j * np.kron(i, s.h_ctrl[k])
                    + 1j * np.kron(s.h_ctrl[k].T, i)
                    + ddiss()[t][k] for k in range(s.nc)])
    return out


def mc_args(rng, s, kind=None):
    """Monte Carlo arguments and reference noisy generators [trace][t]."""
    nt = int(rng.integers(1, 5))
    kind = kind or ['plain', 'fun', 'control'][rng.integers(3)]
    if kind == 'control':
        n_op = s.amp.n_par
    else:
        n_op = int(rng.integers(1, 4))
    samples = .5 * rng.normal(size=(n_op, nt, s.nx))
    repeat = rng.integers(8)
    if repeat == 0:         # quasi static
        samples[:] = samples[:, :, :1]
    elif repeat == 1:       # all traces begin (or end) with the same samples
        samples[:, :, [0, -1][rng.integers(2)]] = samples[:, :1, 0]
    elif repeat == 2:       # steps or traces that return
        samples[:, :, -1] = samples[:, :, 0]
        samples[:, -1] = samples[:, 0]
    elif repeat == 3:
        samples[int(rng.integers(n_op))] = 0
    ntg = FixedNoise(samples.copy(), redraw=bool(rng.integers(2)))
    hn = [.6 * herm(rng, s.d) for _ in range(n_op)]
    kw = dict(noise_trace_generator=ntg)
    if kind != 'control':
        kw['h_noise'] = dense_ops(hn)
    w = rng.normal(size=(s.nc, n_op))

    def fun(noise_samples, optimization_parameters, transferred_parameters,
            control_amplitudes):
        return noise_samples * (1 + (control_amplitudes @ w)[:, None, :]) \
            + .1 * np.sum(transferred_parameters, axis=1)[:, None, None] \
            + .1 * np.sum(optimization_parameters)
    if kind == 'fun':
        kw['noise_amplitude_function'] = fun

    def noise_amps(y=None):
        """[t, trace, operator]"""
        n = samples.transpose(2, 1, 0)
        if kind == 'plain':
            return n
        if kind == 'fun':
            return fun(noise_samples=n, optimization_parameters=s.y if y is None else y,
                       transferred_parameters=s.x(y), control_amplitudes=s.u(y))
        out = np.zeros((s.nx, nt, s.nc))
        for j in range(nt):
            out[:, j, :] = s.amp.value(s.x(y) + n[:, j, :]) - s.u(y)
        return out

    def gens(y=None):
        h = s.h_ctrl if kind == 'control' else hn
        a = noise_amps(y)
        g = s.gens(y)
        return [[g[t] - 1j * sum(a[t, j, n] * h[n] for n in range(len(h)))
                 for t in range(s.nx)] for j in range(nt)]
    cls = sa.SchroedingerSMCControlNoise if kind == 'control' else sa.SchroedingerSMonteCarlo
    return kind, cls, kw, gens, nt


def any_solver(rng, method=None, calc=None, grape=None, deterministic=True):
    """(desc, solver, s, kind) for a random solver class."""
    s = System(rng, tf_kinds=SIMPLE, d=int(rng.integers(2, 4)))
    m, c, g = rand_solver_args(rng)
    kw = dict(exponential_method=m)
    if g:
        kw['frechet_deriv_approx_method'] = g
    cls = rng.integers(3)
    args = s.op_args()
    args.update(tau=np.array(s.tau), transfer_function=s.rtf.tf,
                amplitude_function=s.amp.amp)
    if cls == 0:
        return 'schroedinger %s %s %s %s' % (m, c, g, s.desc()), sa.SchroedingerSolver(
            calculate_propagator_derivatives=c, **kw, **args), s, 'schroedinger'
    if cls == 1:
        kind, klass, mk, gens, nt = mc_args(rng, s)
        return 'mc %s %s %s %s %s' % (kind, m, c, g, s.desc()), klass(
            calculate_propagator_derivatives=c, **kw, **mk, **args), s, 'mc'
    mode, lk, diss, ddiss = make_lindblad(rng, s)
    if args['initial_state'] is not None:
        args['initial_state'] = DO(np.kron(s.init.conj(), s.init))
        args['initial_state'] = DO(args['initial_state'].data)
    return 'lindblad %s %s %s %s %s' % (mode, m, c, g, s.desc()), sa.LindbladSolver(
        calculate_unitary_derivatives=c, **kw, **lk, **args), s, 'lindblad'


# -------------------------------------------------------------------- C01
@case('C01', quick=150, thorough=2500)
def forward_chain(rng):
    desc, sol, s, kind = any_solver(rng)
    init = s.init if kind != 'lindblad' else (
        np.eye(s.d ** 2) if s.init_kind == 'none' else np.kron(s.init.conj(), s.init))
    sol.set_optimization_parameters(s.y)
    order = rng.integers(4)
    if order == 1:
        sol.reversed_propagators
    elif order == 2:
        try:
            sol.frechet_deriv_propagators
        except ValueError:
            raise Skip
    elif order == 3:
        sol.propagators
    # read the operators in either order
    if rng.integers(2):
        fwd = ops(sol.forward_propagators)
        p = ops(sol.propagators)
    else:
        p = ops(sol.propagators)
        fwd = ops(sol.forward_propagators)
    want = chain(list(p), init)
    eq(len(sol.forward_propagators), s.nx + 1, 'number of forward propagators')
    eq(len(sol.propagators), s.nx, 'number of propagators')
    eq(fwd, np.array(want), 'forward propagators (%s)' % desc)
    if kind == 'mc':
        pn = sol.propagators_noise
        fn = sol.forward_propagators_noise
        eq(len(fn), sol.noise_trace_generator.n_traces, 'traces')
        for j in range(len(pn)):
            eq(ops(fn[j]), np.array(chain(list(ops(pn[j])), init)),
               'forward propagators of trace %d (%s)' % (j, desc))
    return desc


@case('C01', quick=60, thorough=800)
def forward_chain_independent(rng):
    """Against independently computed step propagators."""
    s = System(rng, tf_kinds=('identity', 'overM', 'exp'))
    sol = s.solver(exponential_method=[None, 'spectral'][rng.integers(2)],
                   calculate_propagator_derivatives=bool(rng.integers(2)))
    sol.set_optimization_parameters(s.y)
    eq(ops(sol.forward_propagators), np.array(chain(s.props(), s.init)),
       'forward propagators (%s)' % s.desc())
    # a second pulse on the same instance
    y2 = rng.normal(size=s.y.shape)
    sol.set_optimization_parameters(y2)
    eq(ops(sol.forward_propagators), np.array(chain(s.props(y2), s.init)),
       'forward propagators for a second pulse (%s)' % s.desc())
    return s.desc()


# -------------------------------------------------------------------- C02
@case('C02', quick=150, thorough=2500)
def reversed_chain(rng):
    desc, sol, s, kind = any_solver(rng)
    sol.set_optimization_parameters(s.y)
    order = rng.integers(3)
    if order == 1:
        sol.forward_propagators
    elif order == 2:
        sol.propagators
    rev = ops(sol.reversed_propagators)
    p = ops(sol.propagators)
    fwd = ops(sol.forward_propagators)
    d = p[0].shape[0]
    eq(len(rev), s.nx + 1, 'number of reversed propagators')
    eq(rev, np.array(rchain(list(p), d)), 'reversed propagators (%s)' % desc)
    for k in range(s.nx + 1):
        eq(rev[s.nx - k] @ fwd[k], fwd[-1], 'completion at split %d (%s)' % (k, desc), 1e-7)
    if kind == 'mc':
        pn, rn, fn = sol.propagators_noise, sol.reversed_propagators_noise, \
            sol.forward_propagators_noise
        eq(len(rn), len(pn), 'traces')
        for j in range(len(pn)):
            r, f = ops(rn[j]), ops(fn[j])
            eq(r, np.array(rchain(list(ops(pn[j])), d)),
               'reversed propagators of trace %d (%s)' % (j, desc))
            for k in range(s.nx + 1):
                eq(r[s.nx - k] @ f[k], f[-1], 'completion trace %d split %d' % (j, k), 1e-7)
    return desc


@case('C02', quick=50, thorough=800)
def reversed_chain_independent(rng):
    s = System(rng, tf_kinds=('identity', 'overM', 'exp'))
    sol = s.solver(exponential_method=[None, 'spectral'][rng.integers(2)],
                   calculate_propagator_derivatives=bool(rng.integers(2)))
    for y in (s.y, rng.normal(size=s.y.shape)):
        sol.set_optimization_parameters(y)
        eq(ops(sol.reversed_propagators), np.array(rchain(s.props(y), s.d)),
           'reversed propagators (%s)' % s.desc())
    return s.desc()


# -------------------------------------------------------------------- C03
@case('C03', quick=220, thorough=4000)
def step_propagators(rng):
    herm_ = rng.random() < .8
    m, calc, grape = rand_solver_args(rng)
    s = System(rng, hermitian=herm_)
    kw = dict(exponential_method=m, calculate_propagator_derivatives=calc,
              frechet_deriv_approx_method=grape)
    if not herm_:
        kw['is_skew_hermitian'] = False
    elif rng.integers(2):
        kw['is_skew_hermitian'] = bool(rng.integers(2))
    sol = s.solver(**kw)
    me = m or 'Frechet'
    for y in (s.y, .5 * rng.normal(size=s.y.shape)):
        sol.set_optimization_parameters(y)
        if rng.integers(2):
            sol.forward_propagators
        got = ops(sol.propagators)
        eq(len(got), s.nx, 'number of propagators')
        if calc and me in TAYLOR:
            near_any(got, [np.array(s.props(y, 'Frechet')), np.array(s.props(y, me))],
                     'propagators (%s, %s)' % (m, s.desc()))
        else:
            eq(got, np.array(s.props(y, me)), 'propagators (%s, %s)' % (m, s.desc()))
    return '%s calc=%s grape=%s %s' % (m, calc, grape, s.desc())


@case('C03', quick=40, thorough=400)
def many_time_steps(rng):
    """Larger systems: a different drift for every step, several controls."""
    s = System(rng, d=int(rng.integers(2, 7)), n_ctrl=int(rng.integers(3, 6)),
               n_y=int(rng.integers(6, 15)), tf_kinds=('identity', 'overM', 'over'),
               drift_mode='list')
    sol = s.solver(exponential_method=['spectral', 'Frechet'][rng.integers(2)],
                   calculate_propagator_derivatives=False)
    sol.set_optimization_parameters(s.y)
    eq(ops(sol.propagators), np.array(s.props()), 'propagators (%s)' % s.desc())
    return s.desc()


# -------------------------------------------------------------------- C04
@case('C04', quick=200, thorough=3500)
def propagator_derivatives(rng):
    m, calc, grape = rand_solver_args(rng)
    s = System(rng, tf_kinds=SIMPLE)
    sol = s.solver(exponential_method=m, calculate_propagator_derivatives=calc,
                   frechet_deriv_approx_method=grape)
    me = m or 'Frechet'
    for y in (s.y, .5 * rng.normal(size=s.y.shape)):
        sol.set_optimization_parameters(y)
        if rng.integers(2):
            sol.propagators
        got = sol.frechet_deriv_propagators
        eq(len(got), s.nc, 'outer length of the derivatives (controls)')
        for row in got:
            eq(len(row), s.nx, 'inner length of the derivatives (times)')
        got = ops(got)
        exact = np.array(s.derivs(y, me if not me == 'approx' else 'Frechet'))
        tol = tol_of(me, [g * t for g, t in zip(s.gens(y), s.xt)])
        msg = 'derivative propagators (%s calc=%s grape=%s %s)' % (m, calc, grape, s.desc())
        if grape:
            p = ops(sol.propagators)
            g = np.array([[s.xt[t] * (-1j * s.h_ctrl[k]) @ p[t] for t in range(s.nx)]
                          for k in range(s.nc)])
            # the approximation is not used if the derivatives are always calculated
            eq(got, exact if calc else g, msg, tol)
        else:
            eq(got, exact, msg, tol)
    return '%s calc=%s grape=%s %s' % (m, calc, grape, s.desc())


@case('C04', quick=80, thorough=1200)
def lindblad_derivatives(rng):
    s = System(rng, tf_kinds=SIMPLE, d=int(rng.integers(2, 4)), init='none')
    mode, lk, diss, ddiss = make_lindblad(rng, s)
    grape = [None, 'grape'][rng.integers(2)]
    args = s.op_args()
    sol = sa.LindbladSolver(tau=np.array(s.tau), transfer_function=s.rtf.tf,
                            amplitude_function=s.amp.amp,
                            frechet_deriv_approx_method=grape, **lk, **args)
    sol.set_optimization_parameters(s.y)
    got = ops(sol.frechet_deriv_propagators)
    g, dr = lind_gens(s, diss), lind_dirs(s, ddiss)
    if grape:
        want = [[s.xt[t] * dr[t][k] @ expm(g[t] * s.xt[t]) for t in range(s.nx)]
                for k in range(s.nc)]
    else:
        want = [[frechet(g[t] * s.xt[t], dr[t][k] * s.xt[t]) for t in range(s.nx)]
                for k in range(s.nc)]
    eq(got, np.array(want), 'Lindblad derivative propagators (%s %s %s)' % (mode, grape, s.desc()))
    return '%s %s %s' % (mode, grape, s.desc())


# -------------------------------------------------------------------- C05
@case('C05', quick=160, thorough=2500)
def mc_traces(rng):
    s = System(rng, tf_kinds=SIMPLE, d=int(rng.integers(2, 4)))
    m, calc, grape = rand_solver_args(rng)
    kind, cls, mk, gens, nt = mc_args(rng, s)
    args = s.op_args()
    sol = cls(tau=np.array(s.tau), transfer_function=s.rtf.tf,
              amplitude_function=s.amp.amp, exponential_method=m,
              calculate_propagator_derivatives=calc,
              frechet_deriv_approx_method=grape, **mk, **args)
    me = m or 'Frechet'
    desc = '%s %s calc=%s grape=%s traces=%d %s' % (kind, m, calc, grape, nt, s.desc())
    for y in (s.y, .5 * rng.normal(size=s.y.shape)):
        sol.set_optimization_parameters(y)
        g = gens(y)
        order = rng.permutation(4)
        for o in order[:2]:
            [lambda: sol.propagators, lambda: sol.forward_propagators_noise,
             lambda: sol.reversed_propagators_noise, lambda: sol.forward_propagators][o]()
        pn = sol.propagators_noise
        eq(len(pn), nt, 'number of traces')
        want = np.array([[ref_exp(g[j][t] * s.xt[t], me) for t in range(s.nx)]
                         for j in range(nt)])
        exact = np.array([[expm(g[j][t] * s.xt[t]) for t in range(s.nx)]
                          for j in range(nt)])
        near_any(ops(pn), [want, exact] if calc else [want], 'noisy propagators (%s)' % desc)
        p = ops(pn)
        eq(ops(sol.forward_propagators_noise),
           np.array([chain(list(p[j]), s.init) for j in range(nt)]),
           'noisy forward propagators (%s)' % desc)
        eq(ops(sol.reversed_propagators_noise),
           np.array([rchain(list(p[j]), s.d) for j in range(nt)]),
           'noisy reversed propagators (%s)' % desc)
        near_any(ops(sol.propagators),
                 [np.array(s.props(y, me))] + ([np.array(s.props(y))] if calc else []),
                 'noise free propagators (%s)' % desc)
        dn = sol.frechet_deriv_propagators_noise
        dirs = [-1j * h for h in s.h_ctrl]
        ex = np.array([[[ref_dexp(g[j][t] * s.xt[t], dirs[k] * s.xt[t],
                                  me if me != 'approx' else 'Frechet')
                         for t in range(s.nx)] for k in range(s.nc)] for j in range(nt)])
        tol = tol_of(me, [g[j][t] * s.xt[t] for j in range(nt) for t in range(s.nx)])
        if grape:
            p = ops(sol.propagators_noise)
            gr = np.array([[[s.xt[t] * dirs[k] @ p[j][t] for t in range(s.nx)]
                            for k in range(s.nc)] for j in range(nt)])
            eq(ops(dn), ex if calc else gr, 'noisy derivatives (%s)' % desc, tol)
        else:
            eq(ops(dn), ex, 'noisy derivatives (%s)' % desc, tol)
    return desc


@case('C05', quick=8, thorough=40)
def mc_processes(rng):
    s = System(rng, tf_kinds=('identity', 'overM'), d=2)
    kind, cls, mk, gens, nt = mc_args(rng, s)
    res = []
    m = METHODS[rng.integers(len(METHODS))]
    for proc in (1, 2, 3, None) if rng.integers(2) else (1, 2):
        args = s.op_args()
        sol = cls(tau=np.array(s.tau), transfer_function=s.rtf.tf,
                  amplitude_function=s.amp.amp, exponential_method=m,
                  processes=proc, **mk, **args)
        sol.set_optimization_parameters(s.y)
        res.append((ops(sol.propagators_noise), ops(sol.forward_propagators_noise)))
        eq(res[-1][0], res[0][0], 'propagators with %s processes (%s)' % (proc, m))
        eq(res[-1][1], res[0][1], 'forward propagators with %s processes' % proc)
    eq(res[0][0], np.array([[ref_exp(g * s.xt[t], m) for t, g in enumerate(gg)]
                            for gg in gens()]), 'noisy propagators')
    return '%s %s %s' % (kind, m, s.desc())


@case('C05', quick=6, thorough=40)
def mc_processes_constant_generators(rng):
    """The same generator in all steps, which have different durations."""
    n, nt = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    h, hn, hd = herm(rng, 2), herm(rng, 2), DO(herm(rng, 2))
    tau = rng.uniform(.3, 1.5, size=n)
    y = np.full((n, 1), rng.normal())
    smp = np.repeat(rng.normal(size=(1, nt, 1)), n, axis=2)
    want = [[expm(-1j * tau[t] * (hd.data + y[t, 0] * h + smp[0, j, t] * hn)) for t in range(n)]
            for j in range(nt)]
    for proc in (1, 2):
        sol = sa.SchroedingerSMonteCarlo(
            h_ctrl=[DO(h)], h_drift=[hd] * n, tau=tau, h_noise=[DO(hn)], processes=proc,
            noise_trace_generator=FixedNoise(smp.copy()), calculate_propagator_derivatives=False)
        sol.set_optimization_parameters(y)
        eq(ops(sol.propagators_noise), np.array(want),
           'noisy propagators, equal generators, durations %s, %d processes' % (tau, proc))
    return 'n=%d traces=%d' % (n, nt)


@case('C05', quick=30, thorough=300)
def mc_generators(rng):
    """The library's own noise trace generators."""
    s = System(rng, tf_kinds=('identity', 'overM'), d=2)
    n_op = int(rng.integers(1, 4))
    hn = [herm(rng, 2) for _ in range(n_op)]
    ntg = qnoise.NTGQuasiStatic(list(rng.uniform(.1, 1, n_op)), n_samples_per_trace=s.nx,
                                n_traces=int(rng.integers(2, 4)),
                                always_redraw_samples=bool(rng.integers(2)),
                                sampling_mode='uncorrelated_deterministic')
    sol = sa.SchroedingerSMonteCarlo(
        tau=np.array(s.tau), transfer_function=s.rtf.tf,
        amplitude_function=s.amp.amp, h_noise=dense_ops(hn),
        noise_trace_generator=ntg, **s.op_args())
    sol.set_optimization_parameters(s.y)
    pn = ops(sol.propagators_noise)
    smp = ntg.noise_samples
    g = s.gens()
    want = np.array([[expm(s.xt[t] * (g[t] - 1j * sum(smp[n, j, t] * hn[n] for n in range(n_op))))
                      for t in range(s.nx)] for j in range(ntg.n_traces)])
    eq(pn, want, 'noisy propagators')
    return '%d operators %d traces %s' % (n_op, ntg.n_traces, s.desc())


# -------------------------------------------------------------------- C06
@case('C06', quick=160, thorough=2500)
def lindblad_propagators(rng):
    s = System(rng, tf_kinds=SIMPLE, d=int(rng.integers(2, 4)), init='none',
               hermitian=rng.random() < .8)
    mode, lk, diss, ddiss = make_lindblad(rng, s)
    calc = bool(rng.integers(2))
    m = [None, 'Frechet', 'first_order', 'second_order', 'third_order'][rng.integers(5)]
    sol = sa.LindbladSolver(tau=np.array(s.tau), transfer_function=s.rtf.tf,
                            amplitude_function=s.amp.amp, exponential_method=m,
                            calculate_unitary_derivatives=calc, **lk, **s.op_args())
    me = m or 'Frechet'
    desc = '%s %s calc=%s %s' % (mode, m, calc, s.desc())
    for y in (s.y, .5 * rng.normal(size=s.y.shape)):
        sol.set_optimization_parameters(y)
        g = lind_gens(s, diss, y)
        if rng.integers(2):
            sol.reversed_propagators
        want = np.array([ref_exp(g[t] * s.xt[t], me) for t in range(s.nx)])
        exact = np.array([expm(g[t] * s.xt[t]) for t in range(s.nx)])
        near_any(ops(sol.propagators), [want, exact] if calc else [want],
                 'Lindblad propagators (%s)' % desc)
        dr = lind_dirs(s, ddiss)
        want = [[ref_dexp(g[t] * s.xt[t], dr[t][k] * s.xt[t], me)
                 for t in range(s.nx)] for k in range(s.nc)]
        eq(ops(sol.frechet_deriv_propagators), np.array(want),
           'Lindblad derivatives (%s)' % desc)
    return desc


@case('C06', quick=40, thorough=400)
def lindblad_master_equation(rng):
    """First order propagator applied to vec(rho) is the master equation."""
    d = int(rng.integers(2, 4))
    s = System(rng, tf_kinds=('identity',), amp_kinds=('identity',), d=d, init='none')
    mode, lk, diss, ddiss = make_lindblad(rng, s, 'const')
    ls = [l.data.copy() for l in lk['lindblad_operators']]
    sol = sa.LindbladSolver(tau=np.array(s.tau), exponential_method='first_order',
                            **lk, **s.op_args())
    sol.set_optimization_parameters(s.y)
    rho = cmat(rng, d)
    rho = rho @ rho.conj().T
    for t in range(s.nx):
        h = 1j * s.gens()[t]
        want = -1j * (h @ rho - rho @ h)
        for l in ls:
            want = want + l @ rho @ l.conj().T - .5 * (l.conj().T @ l @ rho + rho @ l.conj().T @ l)
        got = (sol.propagators[t].data @ rho.T.reshape(-1, 1) - rho.T.reshape(-1, 1)) / s.xt[t]
        eq(got.reshape(d, d).T, want, 'master equation right hand side', 1e-7)
    return s.desc()


# -------------------------------------------------------------------- C07
RESULTS = ('propagators', 'forward_propagators', 'reversed_propagators',
           'frechet_deriv_propagators', 'transferred_time', 'transferred_parameters',
           '_ctrl_amps')
NOISE_RESULTS = ('propagators_noise', 'forward_propagators_noise',
                 'reversed_propagators_noise', 'frechet_deriv_propagators_noise')


def read(sol, name):
    v = getattr(sol, name)
    if isinstance(v, list):
        return ops(v)
    return np.array(v)


@case('C07', quick=160, thorough=3000)
def histories(rng):
    """Random histories of pulses, rejected pulses, times and reads."""
    s = System(rng, tf_kinds=('identity', 'over', 'overM', 'exp', 'concat', 'parallel',
                              'concatM', 'parallelM'),
               d=2, n_ctrl=int(rng.integers(1, 3)), drift_mode=['single', 'list1'][rng.integers(2)])
    uniform = getattr(s.rtf, 'uniform', False)
    # Taylor methods: reading the derivatives refines the propagators, see
    # the listed finding; use methods without that distinction here.
    m = [None, 'Frechet', 'spectral'][rng.integers(3)]
    calc = bool(rng.integers(2))
    grape = [None, None, 'grape'][rng.integers(3)]
    kind = ['schroedinger', 'mc', 'lindblad'][rng.integers(3)]
    if kind == 'mc':
        k2, cls, extra, _, _ = mc_args(rng, s)
        extra['calculate_propagator_derivatives'] = calc
    elif kind == 'lindblad':
        cls = sa.LindbladSolver
        mode, extra, _, _ = make_lindblad(rng, s)
        extra['calculate_unitary_derivatives'] = calc
        if s.init_kind != 'none':
            s.init_kind, s.init = 'none', np.eye(2)
    else:
        cls = sa.SchroedingerSolver
        extra = dict(calculate_propagator_derivatives=calc)

    def build(tau):
        return cls(tau=np.array(tau), transfer_function=copy.deepcopy(s.rtf.tf),
                   amplitude_function=s.amp.amp, exponential_method=m,
                   frechet_deriv_approx_method=grape, **extra, **s.op_args())
    names = RESULTS + (NOISE_RESULTS if kind == 'mc' else ())
    tau, y = np.array(s.tau), None
    sol = build(tau)
    hist = []
    buf = np.array(s.y)
    for step in range(int(rng.integers(3, 9))):
        a = rng.integers(7)
        if a <= 1 or y is None:
            y = .7 * rng.normal(size=s.y.shape)
            if rng.integers(2):      # reuse the caller's buffer
                buf[...] = y
                sol.set_optimization_parameters(buf)
                hist.append('set(buffer)')
                if rng.integers(2):
                    buf[...] = 99.
                    hist.append('clobber buffer')
            else:
                sol.set_optimization_parameters(y.copy())
                hist.append('set')
        elif a == 2:
            bad = [np.zeros((s.ny + 1, s.y.shape[1])), np.zeros((s.ny, s.y.shape[1] + 1)),
                   np.zeros(s.ny), np.zeros((s.ny, s.y.shape[1], 1))][rng.integers(4)]
            try:
                sol.set_optimization_parameters(bad)
                hist.append('accepted odd pulse')
                return 'n/a'
            except Exception:
                hist.append('rejected pulse')
        elif a == 3:
            tau = rand_times(rng, s.ny, uniform)
            sol.set_times(np.array(tau))
            hist.append('set_times')
        elif a == 4:
            # a single entry changes by little
            y = y.copy()
            y[tuple(int(rng.integers(n)) for n in y.shape)] += 1e-3
            sol.set_optimization_parameters(y.copy())
            hist.append('set(one entry)')
        n = names[rng.integers(len(names))]
        read(sol, n)
        hist.append('read ' + n)
        if a == 5:
            try:
                sol.set_optimization_parameters(np.full(s.y.shape, 'a'))
                sol.set_optimization_parameters(y.copy())
            except Exception:
                hist.append('rejected dtype')
    fresh = build(tau)
    fresh.set_optimization_parameters(y.copy())
    order = rng.permutation(len(names))
    for i in order:
        n = names[i]
        if n == '_ctrl_amps' and not hasattr(sol, n):
            continue
        eq(read(sol, n), read(fresh, n), '%s after %s (%s, %s)'
           % (n, ', '.join(hist), kind, s.desc()))
    # reading again does not change anything
    for i in rng.permutation(len(names)):
        n = names[i]
        if n == '_ctrl_amps' and not hasattr(sol, n):
            continue
        eq(read(sol, n), read(fresh, n), 'second reading of %s (%s)' % (n, kind))
    return '%s %s [%s] %s' % (kind, m, ', '.join(hist), s.desc())


@case('C07', quick=40, thorough=600)
def failed_computations(rng):
    """A computation that fails in between must not leave results behind."""
    s = System(rng, tf_kinds=('identity', 'overM'), amp_kinds=('identity',), d=2,
               n_y=int(rng.integers(2, 5)))
    sol = s.solver(exponential_method='Frechet',
                   calculate_propagator_derivatives=bool(rng.integers(2)))
    bad = s.y.copy()
    bad[-1, 0] = np.nan
    good = rng.normal(size=s.y.shape)
    sol.set_optimization_parameters(good)
    if rng.integers(2):
        sol.forward_propagators
    sol.set_optimization_parameters(bad)
    for n in ('propagators', 'frechet_deriv_propagators', 'forward_propagators',
              'reversed_propagators'):
        try:
            v1 = ops(getattr(sol, n))
        except Exception:
            v1 = None
        try:
            v2 = ops(getattr(sol, n))
        except Exception:
            v2 = None
        if (v1 is None) != (v2 is None):
            fail('%s fails for an invalid pulse and then returns a value' % n)
    sol.set_optimization_parameters(good)
    eq(ops(sol.forward_propagators), np.array(chain(s.props(good), s.init)),
       'forward propagators after a failed computation')
    eq(ops(sol.frechet_deriv_propagators), np.array(s.derivs(good)),
       'derivatives after a failed computation')
    eq(ops(sol.reversed_propagators), np.array(rchain(s.props(good), s.d)),
       'reversed propagators after a failed computation')
    return s.desc()


@case('C07', quick=60, thorough=600)
def shared_and_signed_pulses(rng):
    """Pulses which are nearly equal, permuted, negated or zero."""
    s = System(rng, tf_kinds=('identity', 'overM', 'exp'), d=2, amp_kinds=('identity', 'unary'))
    sol = s.solver()
    last = None
    seq = [s.y, -s.y, s.y[::-1].copy(), s.y[:, ::-1].copy(), 0 * s.y, s.y,
           s.y + 1e-9, s.y * (1 + 1e-6), np.roll(s.y, 1, axis=0)]
    for i in rng.permutation(len(seq)):
        y = np.array(seq[i])
        sol.set_optimization_parameters(y)
        n = ['forward_propagators', 'propagators', 'reversed_propagators'][rng.integers(3)]
        got = ops(getattr(sol, n))
        p = s.props(y)
        want = {'forward_propagators': chain(p, s.init), 'propagators': p,
                'reversed_propagators': rchain(p, s.d)}[n]
        eq(got, np.array(want), '%s for pulse variant %d (%s)' % (n, i, s.desc()), 1e-10)
    return s.desc()


@case('C07', quick=60, thorough=600)
def units(rng):
    """Pulses and times in units in which all changes are tiny or huge."""
    scale = 10. ** float(rng.integers(-14, 13))
    tscale = 10. ** float(rng.integers(-12, 10))
    d, n, k = 2, int(rng.integers(1, 5)), int(rng.integers(1, 3))
    hc = [herm(rng, d) for _ in range(k)]
    sol = sa.SchroedingerSolver(
        h_ctrl=[DO(h / scale / tscale) for h in hc],
        h_drift=[DO(np.zeros((d, d), dtype=complex))], tau=tscale * np.ones(n))
    tau = np.ones(n)
    y = rng.normal(size=(n, k))
    names = ['forward_propagators', 'propagators', 'reversed_propagators']
    for q in range(6):
        c = rng.integers(4)
        if c == 0:
            y = rng.normal(size=(n, k))
        elif c == 1:
            y = y.copy()
            y[int(rng.integers(n)), int(rng.integers(k))] += rng.normal() * 1e-2
        elif c == 2:
            y = y * (1 + 1e-5)
        else:
            tau = rng.uniform(.5, 1.5, size=n)
            sol.set_times(tau * tscale)
        sol.set_optimization_parameters(y * scale)
        p = [expm(-1j * tau[t] * sum(y[t, j] * hc[j] for j in range(k))) for t in range(n)]
        i = names[rng.integers(3)]
        want = {'forward_propagators': chain(p, np.eye(d)), 'propagators': p,
                'reversed_propagators': rchain(p, d)}[i]
        eq(ops(getattr(sol, i)), np.array(want),
           '%s with pulses of scale %g, durations of scale %g' % (i, scale, tscale), 1e-9)
    return 'scale %g times %g' % (scale, tscale)


@known('C07', 'exponential_method first_order/second_order/third_order with '
              'calculate_propagator_derivatives=False: reading '
              'frechet_deriv_propagators replaces the Taylor propagators by exact '
              'exponentials')
def taylor_reading_changes_results():
    h = DO.pauli_x()
    sol = sa.SchroedingerSolver(h_drift=[DO.pauli_z()], h_ctrl=[h], tau=np.array([.5]),
                                exponential_method='first_order',
                                calculate_propagator_derivatives=False)
    sol.set_optimization_parameters(np.array([[.3]]))
    a = ops(sol.propagators)
    sol.frechet_deriv_propagators
    eq(ops(sol.propagators), a, 'propagators after reading the derivatives')


# -------------------------------------------------------------------- C08
@case('C08', quick=120, thorough=2000)
def solver_inputs(rng):
    s = System(rng, tf_kinds=TF_KINDS, d=int(rng.integers(2, 4)))
    m, calc, grape = rand_solver_args(rng)
    kind = ['schroedinger', 'mc', 'lindblad'][rng.integers(3)]
    args = s.op_args()
    tau = np.array(s.tau)
    extra = {}
    if kind == 'mc':
        k2, cls, extra, _, _ = mc_args(rng, s)
        fro_extra = dict(h_noise=extra.get('h_noise'),
                         noise_samples=extra['noise_trace_generator']._noise_samples)
        extra['calculate_propagator_derivatives'] = calc
    elif kind == 'lindblad':
        cls = sa.LindbladSolver
        mode, extra, _, _ = make_lindblad(rng, s)
        fro_extra = {k: v for k, v in extra.items() if isinstance(v, list)}
        extra['calculate_unitary_derivatives'] = calc
        if args['initial_state'] is not None:
            args['initial_state'] = DO(np.kron(s.init.conj(), s.init))
    else:
        cls = sa.SchroedingerSolver
        extra = dict(calculate_propagator_derivatives=calc)
        fro_extra = {}
    y = s.y.copy()
    fr = Frozen(tau=tau, pulse=y, h_ctrl=args['h_ctrl'], h_drift=args['h_drift'],
                initial_state=args['initial_state'], **fro_extra)
    sol = cls(tau=tau, transfer_function=s.rtf.tf, amplitude_function=s.amp.amp,
              exponential_method=m, frechet_deriv_approx_method=grape, **extra, **args)
    fr.check('constructing the solver')
    desc = '%s %s %s' % (kind, m, s.desc())
    for rep in range(2):
        sol.set_optimization_parameters(y)
        fr.check('setting the pulse (%s)' % desc)
        names = RESULTS + (NOISE_RESULTS if kind == 'mc' else ())
        for i in rng.permutation(len(names)):
            getattr(sol, names[i], None)
            fr.check('reading %s (%s)' % (names[i], desc))
        sol.set_optimization_parameters(y + 1)
        sol.forward_propagators
        fr.check('a second pulse (%s)' % desc)
    t2 = tau.copy()
    sol.set_times(t2)
    eq(t2, tau, 'times handed to set_times')
    fr.check('set_times')
    return desc
