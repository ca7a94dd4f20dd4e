"""Concrete contracts of the cost functions (C19-C21)."""
import numpy as np

from oracle.frame import case, known
from oracle.lib import *
from oracle.c_solvers import make_lindblad, lind_gens, lind_dirs, mc_args

SIMPLE = ('identity', 'over', 'overM', 'exp', 'custom', 'concat')


def expm(a):
    return ref_exp(a, 'Frechet')


def comp_states(rng, d, none=True):
    if none and rng.random() < .4:
        return None
    n = int(rng.integers(1, d + 1))
    return [int(i) for i in rng.permutation(d)[:n]]


def sub(u, cs):
    """Truncation to computational states (operators and kets)."""
    if cs is None:
        return u
    if u.shape[1] == 1:
        return u[cs, :]
    return u[np.ix_(cs, cs)]


def closest(u):
    v, s, w = np.linalg.svd(u)
    if s[-1] < 1e-3 * s[0]:
        raise Skip()            # ill conditioned
    return v @ w


def emb(t, cs, d):
    out = np.zeros((d, d), complex)
    out[np.ix_(cs, cs)] = t
    return out


def sup_op(u):
    return np.kron(u.conj(), u)


def proj(cs, d):
    p = np.zeros((d, d), complex)
    for s in cs:
        p[s, s] = 1
    return p


def ent_fid(t, u, cs=None):
    return abs(np.trace(t.conj().T @ sub(u, cs))) ** 2 / t.shape[0] ** 2


def ent_fid_sup(t, s, cs=None):
    d = int(round(np.sqrt(s.shape[0])))
    dc = t.shape[0]
    if cs is None:
        cs = list(range(d))
    big = emb(t, cs, d)
    return np.real(np.trace(sup_op(big).conj().T @ s)) / dc ** 2


def state_fid(t, psi, cs=None):
    """t: ket of the target"""
    return abs((t.conj().T @ sub(psi, cs))[0, 0]) ** 2


def ptr(rho, dims, remove):
    """Partial trace by explicit summation."""
    n = len(dims)
    keep = [i for i in range(n) if i not in remove]
    r = rho.reshape(list(dims) * 2)
    for c, i in enumerate(sorted(remove, reverse=True)):
        m = n - c
        r = np.trace(r, axis1=i, axis2=i + m)
    dk = int(np.prod([dims[i] for i in keep])) if keep else 1
    return np.asarray(r).reshape(dk, dk)


def exact_derivative(fun):
    """d/dh at 0 of a polynomial of degree at most four."""
    h = .25
    return (8 * (fun(h) - fun(-h)) - (fun(2 * h) - fun(-2 * h))) / (12 * h)


def system(rng, init, d=None, **kw):
    s = System(rng, tf_kinds=SIMPLE, d=int(rng.integers(2, 5)) if d is None else d,
               init=init, **kw)
    if s.nx > 12:
        raise Skip()
    return s


def variations(s, props, derivs, init):
    """[t][k] derivative of the final propagator."""
    n = len(props)
    f, r = chain(props, init), rchain(props, props[0].shape[0])
    return f[-1], [[r[n - t - 1] @ derivs[k][t] @ f[t] for k in range(len(derivs))]
                   for t in range(n)]


def ready(s, sol):
    sol.set_optimization_parameters(s.y)
    return sol


def grad_from(variation, fun):
    """fun(h, dU) -> cost"""
    return np.array([[exact_derivative(lambda h: fun(h, v)) for v in row]
                     for row in variation])


def touch(rng, sol):
    """Reading solver results in a random order must not matter."""
    names = ['propagators', 'forward_propagators', 'reversed_propagators',
             'frechet_deriv_propagators']
    for i in rng.permutation(4)[:int(rng.integers(0, 3))]:
        getattr(sol, names[i])


WATCH = []


def watched(rng, cost):
    """C08: what the caller supplied is kept by costs and gradients."""
    sol = cost.solver
    seen = {k: v for k, v in vars(cost).items() if k not in ('solver', 'label')}
    for k in ('h_ctrl', 'h_drift', 'h_noise', 'initial_state', '_opt_pars', 'transferred_time',
              'lindblad_operators', 'constant_lindblad_operators'):
        if getattr(sol, k, None) is not None:
            seen['solver.' + k] = getattr(sol, k)
    ntg = getattr(sol, 'noise_trace_generator', None)
    if ntg is not None:
        seen['noise samples'] = ntg._noise_samples
    fz = Frozen(**seen)
    for i in rng.permutation([0, 1, 0, 1]):
        try:
            (cost.costs, cost.grad)[i]()
        except NotImplementedError:
            pass
        fz.check('%s.%s' % (type(cost).__name__, ('costs', 'grad')[i]))


def both(rng, cost, want, desc, grad=None, tol=1e-8):
    """cost and gradient in random order, repeatedly."""
    if WATCH:
        return watched(rng, cost)
    for _ in range(2):
        if grad is not None and rng.integers(2):
            g = np.asarray(cost.grad())
            eq(g, grad, 'gradient of ' + desc, 1e-7)
            true(not np.iscomplexobj(g), 'complex gradient of ' + desc)
        c = cost.costs()
        eq(np.ravel(c), np.ravel(want), 'cost of ' + desc, tol)
        true(np.ravel(c).dtype.kind == 'f', 'cost is not real: ' + desc)


# ------------------------------------------------------------ state infidelity
def state_case(rng, grad):
    s = system(rng, 'ket', hermitian=bool(rng.integers(3)))
    cs = comp_states(rng, s.d)
    t = ket(rng, s.d if cs is None else len(cs))
    resc = cs is not None and not grad and bool(rng.integers(2))
    as_bra = bool(rng.integers(2)) or t.shape[0] == 1
    target = DO(np.array(t.conj().T if as_bra else t))
    sol = s.solver()
    cost = cf.StateInfidelity(sol, target=target, computational_states=cs,
                              rescale_propagated_state=resc)
    ready(s, sol)
    touch(rng, sol)
    fz = Frozen(target=target)
    final, var = variations(s, s.props(), s.derivs(), s.init)
    psi = sub(final, cs)
    if resc:
        psi = psi / np.linalg.norm(psi)
    desc = 'StateInfidelity comp=%s rescale=%s bra=%s %s' % (cs, resc, as_bra, s.desc())
    want = 1 - state_fid(t, psi)
    g = None
    if grad:
        g = grad_from(var, lambda h, v: 1 - state_fid(t, final + h * v, cs))
    both(rng, cost, want, desc, g)
    fz.check('the cost function')
    return desc


@case('C19', quick=60, thorough=1000)
def state_infidelity(rng):
    return state_case(rng, False)


@case('C20', quick=60, thorough=1000)
def state_infidelity_grad(rng):
    return state_case(rng, True)


def subspace_case(rng, grad):
    dims = [[2, 2], [2, 3], [3, 2], [2, 2, 2], [3, 1, 2]][rng.integers(5)]
    d = int(np.prod(dims))
    n = len(dims)
    remove = sorted(int(i) for i in rng.permutation(n)[:int(rng.integers(1, n))])
    if rng.integers(2):
        remove = [int(i) for i in rng.permutation(remove)]
    keep = int(np.prod([dims[i] for i in range(n) if i not in remove]))
    s = system(rng, 'ket', d=d)
    t = ket(rng, keep)
    as_bra = bool(rng.integers(2)) or keep == 1
    sol = s.solver()
    cost = cf.StateInfidelitySubspace(sol, target=DO(np.array(t.conj().T if as_bra else t)),
                                      dims=dims, remove=remove)
    ready(s, sol)
    touch(rng, sol)
    final, var = variations(s, s.props(), s.derivs(), s.init)
    desc = 'StateInfidelitySubspace dims=%s remove=%s %s' % (dims, remove, s.desc())

    def fid(psi):
        return np.real(t.conj().T @ ptr(psi @ psi.conj().T, dims, remove) @ t)[0, 0]
    g = grad_from(var, lambda h, v: 1 - fid(final + h * v)) if grad else None
    both(rng, cost, 1 - fid(final), desc, g)
    return desc


@case('C19', quick=40, thorough=600)
def state_infidelity_subspace(rng):
    return subspace_case(rng, False)


@case('C20', quick=40, thorough=600)
def state_infidelity_subspace_grad(rng):
    return subspace_case(rng, True)


@case('C19', quick=40, thorough=600)
def fidelity_functions(rng):
    """Free functions on operators and arrays."""
    d = int(rng.integers(2, 6))
    cs = comp_states(rng, d)
    dc = d if cs is None else len(cs)
    wrap = [(lambda a: DO(np.array(a))), (lambda a: np.array(a))][rng.integers(2)]
    u, t = cmat(rng, d), unitary(rng, dc)
    eq(cf.entanglement_fidelity(target=wrap(t), propagator=wrap(u),
                                computational_states=cs), ent_fid(t, u, cs),
       'entanglement_fidelity d=%d comp=%s' % (d, cs))
    if cs is not None:
        eq(cf.entanglement_fidelity(target=wrap(t), propagator=wrap(u),
                                    computational_states=cs,
                                    map_to_closest_unitary=True),
           ent_fid(t, closest(sub(u, cs))), 'entanglement_fidelity of the closest unitary')
    if d < 5:
        sop = cmat(rng, d * d)
        eq(cf.entanglement_fidelity_super_operator(
            target=wrap(t), propagator=wrap(sop), computational_states=cs),
            ent_fid_sup(t, sop, cs),
            'entanglement_fidelity_super_operator d=%d comp=%s' % (d, cs))
        uu = unitary(rng, d)
        eq(cf.entanglement_fidelity_super_operator(
            target=DO(t), propagator=DO(sup_op(uu)), computational_states=cs),
            ent_fid(t, uu, cs), 'super operator of a unitary against the unitary')
    psi, b = cmat(rng, d, 1), ket(rng, dc)
    eq(cf.state_fidelity(target=wrap(b.conj().T), propagated_state=wrap(psi),
                         computational_states=cs), state_fid(b, psi, cs),
       'state_fidelity d=%d comp=%s' % (d, cs))
    dims = [[2, 2], [2, 3], [2, 2, 2]][rng.integers(3)]
    dd = int(np.prod(dims))
    remove = [int(rng.integers(len(dims)))]
    k = ket(rng, dd // dims[remove[0]])
    p = ket(rng, dd)
    rho = sum(w * np.outer(v, v.conj()) for w, v in
              zip((.3, .7), (ket(rng, dd)[:, 0], ket(rng, dd)[:, 0])))
    want = np.real(k.conj().T @ ptr(p @ p.conj().T, dims, remove) @ k)[0, 0]
    eq(cf.state_fidelity_subspace(wrap(k.conj().T), wrap(p), dims, remove), want,
       'state_fidelity_subspace of a ket')
    want = np.real(k.conj().T @ ptr(rho, dims, remove) @ k)[0, 0]
    eq(cf.state_fidelity_subspace(wrap(k.conj().T), wrap(rho), dims, remove), want,
       'state_fidelity_subspace of a density matrix')
    vec = rho.T.reshape(-1, 1)
    eq(cf.state_fidelity_subspace(wrap(k.conj().T), wrap(vec), dims, remove), want,
       'state_fidelity_subspace of a vectorised density matrix')
    return 'd=%d comp=%s dims=%s remove=%s' % (d, cs, dims, remove)


@case('C19', quick=40, thorough=400)
def rejected_scalar_products(rng):
    d = int(rng.integers(2, 5))
    raises(lambda: cf.state_fidelity(DO(ket(rng, d).conj().T), DO(unitary(rng, d))),
           'state fidelity of an operator')
    return 'd=%d' % d


@case('C19', quick=40, thorough=600)
def ranges_and_phases(rng):
    d = int(rng.integers(2, 6))
    cs = comp_states(rng, d)
    dc = d if cs is None else len(cs)
    u, t = unitary(rng, d), unitary(rng, dc)
    ph = np.exp(1j * rng.uniform(0, 7))
    f = cf.entanglement_fidelity(DO(t), DO(u), cs)
    true(-1e-9 <= 1 - f <= 1 + 1e-9, 'entanglement infidelity %r outside [0, 1]' % (1 - f))
    eq(cf.entanglement_fidelity(DO(t), DO(ph * u), cs), f, 'phase of the propagator')
    eq(cf.entanglement_fidelity(DO(ph * t), DO(u), cs), f, 'phase of the target')
    eq(cf.entanglement_fidelity(DO(u), DO(ph * u)), 1., 'fidelity of equal unitaries')
    eq(cf.entanglement_fidelity_super_operator(DO(u), DO(sup_op(ph * u))), 1.,
       'super operator fidelity of equal unitaries')
    fs = cf.entanglement_fidelity_super_operator(DO(t), DO(sup_op(u)), cs)
    true(-1e-9 <= 1 - fs <= 1 + 1e-9, 'super operator infidelity outside [0, 1]')
    k, b = ket(rng, d), ket(rng, d)
    f = cf.state_fidelity(DO(b.conj().T), DO(k))
    true(-1e-9 <= 1 - f <= 1 + 1e-9, 'state infidelity outside [0, 1]')
    eq(cf.state_fidelity(DO(b.conj().T), DO(ph * k)), f, 'phase of the state')
    eq(cf.state_fidelity(DO(k.conj().T), DO(ph * k)), 1., 'fidelity of equal states')
    # embedding of a block diagonal unitary
    if cs is not None:
        rest = [i for i in range(d) if i not in cs]
        big = np.zeros((d, d), complex)
        big[np.ix_(cs, cs)] = t
        if rest:
            big[np.ix_(rest, rest)] = unitary(rng, len(rest))
        eq(cf.entanglement_fidelity(DO(t), DO(ph * big), cs), 1., 'block unitary')
        eq(cf.entanglement_fidelity_super_operator(DO(t), DO(sup_op(big)), cs), 1.,
           'block unitary super operator')
    return 'd=%d comp=%s' % (d, cs)


# -------------------------------------------------------- operation infidelity
def operation_case(rng, grad):
    s = system(rng, ['none', 'unitary'][rng.integers(2)],
               hermitian=bool(rng.integers(3)))
    cs = comp_states(rng, s.d)
    t = unitary(rng, s.d if cs is None else len(cs))
    mcu = cs is not None and not grad and bool(rng.integers(2))
    target = DO(np.array(t))
    sol = s.solver()
    cost = cf.OperationInfidelity(sol, target=target, computational_states=cs,
                                  map_to_closest_unitary=mcu)
    ready(s, sol)
    touch(rng, sol)
    fz = Frozen(target=target)
    final, var = variations(s, s.props(), s.derivs(), s.init)
    desc = 'OperationInfidelity comp=%s closest=%s %s' % (cs, mcu, s.desc())
    want = 1 - (ent_fid(t, closest(sub(final, cs))) if mcu else ent_fid(t, final, cs))
    g = grad_from(var, lambda h, v: 1 - ent_fid(t, final + h * v, cs)) if grad else None
    both(rng, cost, want, desc, g)
    fz.check('the cost function')
    return desc


@case('C19', quick=60, thorough=1000)
def operation_infidelity(rng):
    return operation_case(rng, False)


@case('C20', quick=60, thorough=1000)
def operation_infidelity_grad(rng):
    return operation_case(rng, True)


def lindblad_case(rng, grad):
    d = int(rng.integers(2, 4))
    s = System(rng, tf_kinds=('identity', 'over', 'overM', 'custom'), d=d, init='none',
               n_y=int(rng.integers(1, 4)))
    if s.nx > 8:
        raise Skip()
    mode, lk, diss, ddiss = make_lindblad(rng, s)
    cs = comp_states(rng, d)
    t = unitary(rng, d if cs is None else len(cs))
    args = s.op_args()
    init = np.eye(d * d)
    if rng.integers(2):
        args['initial_state'] = DO(sup_op(unitary(rng, d)))
        init = np.array(args['initial_state'].data)
    sol = sa.LindbladSolver(tau=np.array(s.tau), transfer_function=s.rtf.tf,
                            amplitude_function=s.amp.amp, **lk, **args)
    cost = cf.OperationInfidelity(sol, target=DO(np.array(t)), computational_states=cs,
                                  super_operator_formalism=True)
    ready(s, sol)
    touch(rng, sol)
    gens, dirs = lind_gens(s, diss), lind_dirs(s, ddiss)
    props = [expm(g * s.xt[i]) for i, g in enumerate(gens)]
    desc = 'OperationInfidelity super operator %s comp=%s %s' % (mode, cs, s.desc())
    g = None
    final = chain(props, init)[-1]
    if grad:
        derivs = [[ref_dexp(gens[i] * s.xt[i], dirs[i][k] * s.xt[i], 'Frechet')
                   for i in range(s.nx)] for k in range(s.nc)]
        final, var = variations(s, props, derivs, init)
        g = grad_from(var, lambda h, v: 1 - ent_fid_sup(t, final + h * v, cs))
    both(rng, cost, 1 - ent_fid_sup(t, final, cs), desc, g)
    return desc


@case('C19', quick=30, thorough=500)
def super_operator_infidelity(rng):
    return lindblad_case(rng, False)


@case('C20', quick=30, thorough=500)
def super_operator_infidelity_grad(rng):
    return lindblad_case(rng, True)


# --------------------------------------------------------------------- noise
def mc_system(rng, init):
    s = system(rng, init, d=int(rng.integers(2, 4)))
    kind, cls, mk, gens, nt = mc_args(rng, s, 'plain')
    sol = cls(tau=np.array(s.tau), transfer_function=s.rtf.tf,
              amplitude_function=s.amp.amp, **mk, **s.op_args())
    ready(s, sol)
    g = gens()
    props = [[expm(g[j][t] * s.xt[t]) for t in range(s.nx)] for j in range(nt)]
    derivs = [[[ref_dexp(g[j][t] * s.xt[t], -1j * s.h_ctrl[k] * s.xt[t], 'Frechet')
                for t in range(s.nx)] for k in range(s.nc)] for j in range(nt)]
    return s, sol, nt, props, derivs


def noise_case(rng, grad):
    s, sol, nt, props, derivs = mc_system(rng, ['none', 'unitary'][rng.integers(2)])
    cs = comp_states(rng, s.d)
    dc = s.d if cs is None else len(cs)
    negl = bool(rng.integers(2))
    use_none = bool(rng.integers(3) == 0)
    t = unitary(rng, dc)
    target = None if use_none else DO(np.array(t))
    mcu = cs is not None and not grad and bool(rng.integers(2))
    cost = cf.OperationNoiseInfidelity(sol, target=target, computational_states=cs,
                                       neglect_systematic_errors=negl,
                                       map_to_closest_unitary=mcu)
    negl = negl or use_none
    final0, var0 = variations(s, s.props(), s.derivs(), s.init)
    fv = [variations(s, props[j], derivs[j], s.init) for j in range(nt)]

    def red(u):
        return closest(sub(u, cs)) if mcu else sub(u, cs)

    def value(f0, fs):
        tt = red(f0) if negl else t
        return np.mean([1 - abs(np.trace(tt.conj().T @ red(f))) ** 2 / dc ** 2
                        for f in fs])
    desc = 'OperationNoiseInfidelity traces=%d comp=%s neglect=%s closest=%s %s' % (
        nt, cs, negl, mcu, s.desc())
    g = None
    if grad:
        g = np.zeros((s.nx, s.nc))
        for a in range(s.nx):
            for k in range(s.nc):
                g[a, k] = exact_derivative(lambda h: value(
                    final0 + h * var0[a][k], [f + h * v[a][k] for f, v in fv]))
    both(rng, cost, value(final0, [f for f, _ in fv]), desc, g)
    if not grad and cs is None:
        c = cf.LiouvilleMonteCarloEntanglementInfidelity(sol, target=DO(np.array(t)))
        want = 1 - np.mean([ent_fid(t, f) for f, _ in fv])
        both(rng, c, want, 'LiouvilleMonteCarlo ' + desc)
    elif not grad:
        c = cf.LiouvilleMonteCarloEntanglementInfidelity(
            sol, target=DO(np.array(t)), computational_states=cs)
        want = 1 - np.mean([ent_fid_sup(t, sup_op(f), cs) for f, _ in fv])
        both(rng, c, want, 'LiouvilleMonteCarlo ' + desc)
    return desc


@case('C19', quick=50, thorough=800)
def noise_infidelity(rng):
    return noise_case(rng, False)


@case('C20', quick=50, thorough=800)
def noise_infidelity_grad(rng):
    return noise_case(rng, True)


@case('C19', quick=40, thorough=600)
def state_noise_infidelity(rng):
    s, sol, nt, props, derivs = mc_system(rng, 'ket')
    cs = comp_states(rng, s.d)
    negl = bool(rng.integers(2))
    use_none = bool(rng.integers(3) == 0)
    resc = cs is not None and bool(rng.integers(2))
    t = ket(rng, s.d if cs is None else len(cs))
    as_bra = bool(rng.integers(2)) or t.shape[0] == 1
    target = None if use_none else DO(np.array(t.conj().T if as_bra else t))
    cost = cf.StateNoiseInfidelity(sol, target=target, computational_states=cs,
                                   rescale_propagated_state=resc,
                                   neglect_systematic_errors=negl)
    negl = negl or use_none

    def red(p):
        p = sub(p, cs)
        return p / np.linalg.norm(p) if resc else p
    fin = [chain(p, s.init)[-1] for p in props]
    tt = red(chain(s.props(), s.init)[-1]) if negl else t
    want = np.mean([1 - state_fid(tt, red(f)) for f in fin])
    desc = 'StateNoiseInfidelity traces=%d comp=%s neglect=%s rescale=%s %s' % (
        nt, cs, negl, resc, s.desc())
    both(rng, cost, want, desc)
    return desc


@case('C19', quick=30, thorough=400)
def matrix_norm(rng):
    s = system(rng, ['none', 'unitary'][rng.integers(2)])
    t = unitary(rng, s.d)
    sol = ready(s, s.solver())
    f = chain(s.props(), s.init)[-1]
    if abs(f[0, 0]) < 1e-3:
        raise Skip()
    diff = f * np.exp(-1j * np.angle(f[0, 0])) - t
    eq(cf.OperatorMatrixNorm(sol, DO(np.array(t))).costs(), np.sum(np.abs(diff)),
       'matrix norm distance')
    eq(cf.OperatorMatrixNorm(sol, DO(np.array(t)), mode='vector').costs(),
       np.concatenate((diff.real.ravel(), diff.imag.ravel())), 'vector of differences')
    return s.desc()


# --------------------------------------------------------- known findings (C20)
@known('C20', 'OperationInfidelity.grad and OperationNoiseInfidelity.grad with '
       'map_to_closest_unitary=True ignore the mapping, so they are not the '
       'derivative of the mapped cost')
def grad_ignores_closest_unitary():
    rng = np.random.default_rng(5)
    s = System(rng, tf_kinds=('identity',), d=3, init='none', n_y=2, n_ctrl=1)
    sol = ready(s, s.solver())
    t = unitary(rng, 2)
    cost = cf.OperationInfidelity(sol, target=DO(t), computational_states=[0, 1],
                                  map_to_closest_unitary=True)
    final, var = variations(s, s.props(), s.derivs(), s.init)
    h = 1e-5
    want = np.array([[(ent_fid(t, closest(sub(final - h * v, [0, 1])))
                       - ent_fid(t, closest(sub(final + h * v, [0, 1])))) / 2 / h
                      for v in row] for row in var])
    eq(cost.grad(), want, 'gradient with map_to_closest_unitary', 1e-4)


@known('C20', 'StateInfidelity.grad with rescale_propagated_state=True rescales '
       'the derivatives instead of differentiating the rescaling')
def grad_of_rescaled_state():
    rng = np.random.default_rng(6)
    s = System(rng, tf_kinds=('identity',), d=3, init='ket', n_y=2, n_ctrl=1)
    sol = ready(s, s.solver())
    t = ket(rng, 2)
    cost = cf.StateInfidelity(sol, target=DO(t.conj().T), computational_states=[0, 1],
                              rescale_propagated_state=True)
    final, var = variations(s, s.props(), s.derivs(), s.init)

    def val(p):
        p = sub(p, [0, 1])
        return 1 - state_fid(t, p / np.linalg.norm(p))
    h = 1e-5
    want = np.array([[(val(final + h * v) - val(final - h * v)) / 2 / h
                      for v in row] for row in var])
    eq(cost.grad(), want, 'gradient with rescale_propagated_state', 1e-4)


# -------------------------------------------------------------------- leakage
@case('C21', quick=80, thorough=1200)
def leakage(rng):
    s = system(rng, ['none', 'unitary'][rng.integers(2)],
               hermitian=bool(rng.integers(4)))
    cs = comp_states(rng, s.d, none=False)
    sol = s.solver()
    cost = cf.LeakageError(sol, computational_states=cs)
    ready(s, sol)
    touch(rng, sol)
    final, var = variations(s, s.props(), s.derivs(), s.init)
    dc = len(cs)

    def raw(u):
        a = sub(u, cs)
        return 1 - np.real(np.trace(a @ a.conj().T)) / dc
    desc = 'LeakageError comp=%s %s' % (cs, s.desc())
    want = max(0, raw(final))
    for _ in range(2):
        if rng.integers(2):
            g = np.asarray(cost.grad())
            eq(g, grad_from(var, lambda h, v: raw(final + h * v)), 'gradient of ' + desc, 1e-7)
        eq(float(cost.costs()), want, 'cost of ' + desc)
    return desc


@case('C21', quick=60, thorough=800)
def noisy_leakage(rng):
    s, sol, nt, props, derivs = mc_system(rng, ['none', 'unitary'][rng.integers(2)])
    cs = comp_states(rng, s.d, none=False)
    dc = len(cs)
    fin = [chain(p, s.init)[-1] for p in props]
    desc = 'comp=%s traces=%d %s' % (cs, nt, s.desc())
    want = np.mean([1 - np.sum(np.abs(sub(f, cs)) ** 2) / dc for f in fin])
    eq(float(cf.IncoherentLeakageError(sol, computational_states=cs).costs()), want,
       'IncoherentLeakageError ' + desc)
    rest = [i for i in range(s.d) if i not in cs]
    want = np.mean([np.sum(np.abs(f[np.ix_(rest, cs)]) ** 2) / dc for f in fin])
    c = cf.LeakageLiouville(sol, computational_states=cs, input_unitary=True,
                            monte_carlo=True)
    eq(np.ravel(c.costs()), [want], 'LeakageLiouville Monte Carlo ' + desc)
    f = chain(s.props(), s.init)[-1]
    c = cf.LeakageLiouville(sol, computational_states=cs, input_unitary=True)
    eq(np.ravel(c.costs()), [np.sum(np.abs(f[np.ix_(rest, cs)]) ** 2) / dc],
       'LeakageLiouville unitary ' + desc)
    return desc


class _Traces:
    """A solver whose noisy results are super operators."""

    def __init__(self, h_ctrl, props):
        self.h_ctrl = h_ctrl
        self.forward_propagators_noise = props


@case('C21', quick=40, thorough=600)
def liouville_leakage(rng):
    d = int(rng.integers(2, 4))
    s = System(rng, tf_kinds=('identity', 'over', 'custom'), d=d, init='none',
               n_y=int(rng.integers(1, 4)))
    mode, lk, diss, ddiss = make_lindblad(rng, s)
    cs = comp_states(rng, d, none=False)
    sol = sa.LindbladSolver(tau=np.array(s.tau), transfer_function=s.rtf.tf,
                            amplitude_function=s.amp.amp, **lk, **s.op_args())
    ready(s, sol)
    props = [expm(g * s.xt[i]) for i, g in enumerate(lind_gens(s, diss))]
    final = chain(props, np.eye(d * d))[-1]
    rho = proj(cs, d) / len(cs)
    rest = [i for i in range(d) if i not in cs]

    def leak(m):
        out = (m @ rho.T.reshape(-1)).reshape(d, d).T
        return sum(out[i, i] for i in rest).real if rest else 0.
    desc = 'LeakageLiouville %s comp=%s %s' % (mode, cs, s.desc())
    eq(np.ravel(cf.LeakageLiouville(sol, computational_states=cs).costs()),
       [leak(final)], desc)
    nt = int(rng.integers(1, 4))
    mats = [[cmat(rng, d * d) for _ in range(2)] for _ in range(nt)]
    mock = _Traces(dense_ops(s.h_ctrl), [dense_ops(m) for m in mats])
    c = cf.LeakageLiouville(mock, computational_states=cs, monte_carlo=True)
    eq(np.ravel(c.costs()), [np.mean([leak(m[-1]) for m in mats])],
       'averaged super operators, ' + desc)
    eq(np.ravel(c.costs()), [np.mean([leak(m[-1]) for m in mats])],
       'second evaluation with averaged super operators, ' + desc)
    return desc


# ------------------------------------------------ values close to the optimum
def close(got, want, msg, tol):
    got, want = np.ravel(got), np.ravel(want)
    true(got.shape == want.shape, 'shape of ' + msg)
    if not np.all(np.abs(got - want) <= tol):
        fail('%s: got %s, expected %s' % (msg, got, want))


def near(rng, grad):
    """Targets that are nearly reached: cost of order eps**2, gradient of order eps."""
    eps = 10. ** rng.uniform(-9, -1)
    s = system(rng, ['none', 'unitary', 'ket'][rng.integers(3)])
    sol = ready(s, s.solver())
    final = arr(sol.forward_propagators[-1])
    if np.max(np.abs(final)) > 3:
        raise Skip()
    isket = final.shape[1] == 1
    t = expm(-1j * eps * herm(rng, s.d)) @ final
    if isket:
        cost = cf.StateInfidelity(sol, target=DO(t.conj().T.copy()))
        n = 1.
    else:
        cost = cf.OperationInfidelity(sol, target=DO(t.copy()))
        n = float(s.d)
    desc = '%s near its optimum (%.1e) %s' % (type(cost).__name__, eps, s.desc())
    tr = np.trace(t.conj().T @ final) / n
    if not grad:
        close(cost.costs(), 1 - abs(tr) ** 2, desc, 1e-13)
        return desc
    f = [arr(x) for x in sol.forward_propagators]
    r = [arr(x) for x in sol.reversed_propagators]
    du = sol.frechet_deriv_propagators
    want = np.array([[-2 * np.real(np.conj(tr) * np.trace(
        t.conj().T @ r[s.nx - 1 - i] @ arr(du[k][i]) @ f[i])) / n for k in range(s.nc)]
        for i in range(s.nx)])
    size = max(np.max(np.abs(arr(x))) for row in du for x in row)
    if size > 1e3:
        raise Skip()
    close(cost.grad(), want, 'gradient of ' + desc, 1e-12 * (1 + size))
    return desc


@case('C19', quick=60, thorough=1000)
def close_to_the_target(rng):
    return near(rng, False)


@case('C20', quick=60, thorough=1000)
def close_to_the_target_grad(rng):
    return near(rng, True)


@case('C19', quick=40, thorough=600)
def small_noise(rng):
    """Infidelities of order eps**2 because of small noise."""
    s, sol, nt, _, _ = mc_system(rng, 'none')
    eps = 10. ** rng.uniform(-8, -1)
    f0 = arr(sol.forward_propagators[-1])
    fs = [expm(-1j * eps * herm(rng, s.d)) @ f0 for _ in range(nt)]
    sol.__class__ = type('Given', (type(sol),), {'forward_propagators_noise': property(
        lambda self: [[DO(np.eye(s.d)), DO(x.copy())] for x in fs])})
    d = s.d
    inf = lambda t: np.mean([1 - abs(np.trace(t.conj().T @ f)) ** 2 / d ** 2 for f in fs])
    t = expm(-1j * eps * herm(rng, d)) @ f0
    for negl in (False, True):
        c = cf.OperationNoiseInfidelity(sol, target=DO(t.copy()), neglect_systematic_errors=negl)
        close(c.costs(), inf(f0 if negl else t), 'infidelity with small noise', 1e-13)
    c = cf.LiouvilleMonteCarloEntanglementInfidelity(sol, target=DO(t.copy()))
    close(c.costs(), inf(t), 'Liouville infidelity with small noise', 1e-13)
    return 'eps=%.1e' % eps


@case('C21', quick=60, thorough=800)
def small_leakage(rng):
    """Computational states that are weakly coupled to the others."""
    d = int(rng.integers(3, 5))
    cs = [int(i) for i in rng.permutation(d)[:int(rng.integers(1, d))]]
    eps = 10. ** rng.uniform(-8, -1)
    inside = np.array([i in cs for i in range(d)])
    mask = np.where(inside[:, None] == inside[None], 1., eps)
    s = system(rng, 'none', d=d)
    s.h_ctrl = [h * mask for h in s.h_ctrl]
    s.h_drift = [h * mask for h in s.h_drift]
    sol = ready(s, s.solver())
    f = arr(sol.forward_propagators[-1])
    if np.max(np.abs(f @ f.conj().T - np.eye(d))) > 1e-9:
        raise Skip()
    desc = 'leakage of order %.1e' % eps ** 2
    want = 1 - np.sum(np.abs(f[np.ix_(cs, cs)]) ** 2) / len(cs)
    c = cf.LeakageError(sol, computational_states=cs)
    close(float(c.costs()), max(0, want), desc, 1e-13)
    out = f[np.ix_([i for i in range(d) if i not in cs], cs)]
    close(cf.LeakageLiouville(sol, computational_states=cs, input_unitary=True).costs(),
          np.sum(np.abs(out) ** 2) / len(cs), 'Liouville ' + desc, 1e-13)
    r = [arr(x) for x in sol.reversed_propagators]
    fw = [arr(x) for x in sol.forward_propagators]
    du = sol.frechet_deriv_propagators
    size = max(np.max(np.abs(arr(x))) for row in du for x in row)
    if size > 1e3:
        raise Skip()
    ix = np.ix_(cs, cs)
    g = [[-2 * np.real(np.sum(np.conj(f[ix]) * (r[s.nx - 1 - i] @ arr(du[k][i]) @ fw[i])[ix]))
          / len(cs) for k in range(s.nc)] for i in range(s.nx)]
    close(c.grad(), np.array(g), 'gradient of ' + desc, 1e-12 * (1 + size))
    return desc


# ------------------------------------------------------------------------ C08
@case('C08', quick=60, thorough=800)
def cost_inputs(rng):
    """Costs and gradients keep targets, operators, states and pulses."""
    f = [state_case, subspace_case, operation_case, lindblad_case, noise_case][rng.integers(5)]
    WATCH.append(1)
    try:
        return f(rng, bool(rng.integers(2)))
    finally:
        WATCH.pop()
