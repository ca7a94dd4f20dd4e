"""C19-C21: contracts of qopt.cost_functions over an arbitrary solver."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from contracts.matrix import total, a_, elf, lam2, ptrace_spec

C = 'qopt.cost_functions:'
INS = ('any dimension, number of time steps, controls and noise traces; arbitrary propagators, '
       'derivatives and targets')


def lamfun(*a):
    from pyvc.npstub import lamfun as f
    return f(*a)


class Sys:
    """Results of a solver: arbitrary operators, final propagator F(n)."""

    def __init__(self, U, cols=None, sup=False, noise=False, d=None, traces=True):
        self.U = U
        self.d = d = U.dim('d', 2) if d is None else d
        self.D = D = d * d if sup else d
        self.cols = cols = D if cols is None else cols
        self.n, self.nc = n, nc = U.dim('n_t'), U.dim('n_ctrl')
        F = U.input('forward propagators', U.list_of(
            n + 1, lambda t: U.op('F', D, cols, pre=(t,))))
        R = U.input('reversed propagators', U.list_of(
            n + 1, lambda t: U.op('R', D, D, pre=(t,))))
        DD = U.input('derivatives', U.list_of(nc, lambda k: U.list_of(
            n, lambda t: U.op('D', D, D, pre=(k, t)))))
        attrs = dict(forward_propagators=F, reversed_propagators=R, frechet_deriv_propagators=DD,
                     h_ctrl=U.input('h_ctrl', U.list_of(nc, lambda k: U.op('H', d, d, pre=(k,)))),
                     transferred_time=U.input('times', U.arr('tau', n, dtype='f')),
                     propagators=U.input('propagators', U.list_of(
                         n, lambda t: U.op('Pr', D, D, pre=(t,)))))
        if noise:
            self.m = m = U.dim('n_traces')
            attrs.update(
                noise_trace_generator=Opaque('generator', dict(n_traces=num(m, 'int'))),
                forward_propagators_noise=U.input('noise propagators', U.list_of(
                    m, lambda r: U.list_of(n + 1, lambda t: U.op('FN', D, cols, pre=(r, t))))),
                reversed_propagators_noise=U.input('noise reversed', U.list_of(
                    m, lambda r: U.list_of(n + 1, lambda t: U.op('RN', D, D, pre=(r, t))))),
                frechet_deriv_propagators_noise=U.input('noise derivatives', U.list_of(
                    m, lambda r: U.list_of(nc, lambda k: U.list_of(
                        n, lambda t: U.op('DN', D, D, pre=(r, k, t)))))))
        self.solver = Opaque('solver', attrs)

    def F(self, i, j):
        return fn('F', self.n, i, j)

    def FN(self, r):
        return lambda i, j: fn('FN', r, self.n, i, j)

    def variation(self, t, k):
        """Derivative of the final propagator: R(n-1-t) D(k,t) F(t)."""
        D, n = self.D, self.n
        return lambda i, j: total(D, lambda a: total(D, lambda b: fn('R', n - 1 - t, i, a) *
                                                     fn('D', k, t, a, b) * fn('F', t, b, j)))

    def variation_noise(self, r, t, k):
        D, n = self.D, self.n
        return lambda i, j: total(D, lambda a: total(D, lambda b: fn('RN', r, n - 1 - t, i, a) *
                                                     fn('DN', r, k, t, a, b) * fn('FN', r, t, b, j)))

    def derivative(self, cost, t, k):
        """d cost / d u[t, k]: the final propagators vary along the variations."""
        return diff(cost, {
            'F': lambda s, i, j: self.variation(t, k)(i, j) if s == self.n else ZERO,
            'FN': lambda r, s, i, j: self.variation_noise(r, t, k)(i, j)
            if s == self.n else ZERO})


def diff(p, dv):
    """Product rule; dv: derivatives of the uninterpreted functions."""
    out = ZERO
    for m, c in p.terms.items():
        if not (m.fns & set(dv)):
            continue
        bs, atoms = T.open_mono(m)
        if any(r.fns & set(dv) for _, r in bs):
            raise Unsupported('derivative of a range')
        with CTX.ranges([v for v, _ in bs], [r for _, r in bs]):
            for i, (a, e) in enumerate(atoms):
                if not (a.fns & set(dv)):
                    continue
                q = diff_atom(a, dv) * c * e
                for j, (b, f) in enumerate(atoms):
                    f = f - 1 if i == j else f
                    q = q * (P(b) ** f if f >= 0 else T.inv(P(b)) ** (-f))
                for v, n in reversed(bs):
                    q = T.Sum(v, n, q)
                out = out + q
    return out


def diff_atom(a, dv):
    if a.kind == 'f' and a.name in dv and not any(x.fns & set(dv) for x in a.args):
        return dv[a.name](*a.args)
    if a.kind == 'g' and a.name == 'conj':
        return T.conj(diff(a.args[0], dv))
    raise Unsupported('derivative of ' + a.name)


def gradient(U, S, name, cost, grad):
    """The gradient has the layout (time, control) and is the derivative of the cost."""
    U.arr_eq(name + ': derivative of the cost, layout (time, control)', grad, (S.n, S.nc),
             lambda t, k: S.derivative(cost, t, k))


class Comp:
    """Computational states: arbitrary distinct indices."""

    def __init__(self, U, d, on):
        self.on = on
        if not on:
            self.arg, self.n = None, d
            self.idx = lambda i: i
            return
        self.n = U.dim('n_comp')
        self.idx = lambda i: fn('idx', i, sort='i')
        U.no_refute = True
        U.assumed.append('computational states are distinct indices in 0..d-1')
        CTX.fbounds['idx'] = (ZERO, toP(d))
        CTX.injective.add('idx')
        self.arg = U.input('computational states', symlist(
            self.n, lambda i: Num(self.idx(i), 'int')))

    def sub(self, f, ket=False):
        if ket:
            return lambda i, j: f(self.idx(i), j)
        return lambda i, j: f(self.idx(i), self.idx(j))


def abs2(x):
    return x * T.conj(x)


def tgt(i, j):
    return fn('T', i, j)


def new(U, name, *a, **kw):
    return U.I.call(U.cls(C + name), list(a), kw)


def norm2(f, n, m):
    return total(n, lambda i: total(m, lambda j: abs2(f(i, j))))


def laws(U, S, name, cost, n, m, fid, names=('F',), reach=True):
    """Consequences of the documented formula."""
    w = T.exp(T.IM * var('phi', 'r'))
    U.eq(name + ': independent of a global phase', cost, T.subst_fn(cost, {
        'F': lambda *a: w * fn('F', *a)}))
    w = T.exp(T.IM * var('phi', 'r'))
    U.eq(name + ': independent of a phase of the target', cost, T.subst_fn(cost, {
        'T': lambda *a: w * fn('T', *a)}))


def lagrange(U, name, a, b, n, m):
    """|a|^2 |b|^2 - |<a,b>|^2 is half a sum of squares (Cauchy-Schwarz)."""
    inner = total(n, lambda i: total(m, lambda j: T.conj(a(i, j)) * b(i, j)))
    sq = total(n, lambda i: total(m, lambda j: total(n, lambda k: total(m, lambda l: abs2(
        a(i, j) * b(k, l) - a(k, l) * b(i, j))))))
    U.eq(name + ': Cauchy-Schwarz bound of the fidelity',
         norm2(a, n, m) * norm2(b, n, m) - abs2(inner), sq * Fraction(1, 2))


# ------------------------------------------------------------------ C19, C20: states
def state_modes():
    for comp in (False, True):
        for bra in (False, True):
            for target in ('op',):
                yield comp, bra, target


@unit('C19', 'state infidelity', [C + 'StateInfidelity.__init__', C + 'StateInfidelity.costs',
                                  C + 'state_fidelity'], INS)
def _(U):
    for comp, bra, _ in state_modes():
        S = Sys(U, cols=ONE)
        Q = Comp(U, S.d, comp)
        # ket: longer than wide
        t = U.input('target', U.op('T', 1, Q.n) if bra else U.op('T', Q.n, 1))
        nm = 'state infidelity, %s%s' % ('bra' if bra else 'ket', ' in the subspace' * comp)
        if not bra:
            U.I_assume(ge(Q.n - 2))
        tv = (lambda i: T.conj(tgt(ZERO, i))) if bra else (lambda i: tgt(i, ZERO))
        psi = Q.sub(S.F, True)
        ip = total(Q.n, lambda i: T.conj(tv(i)) * psi(i, ZERO))
        c = new(U, 'StateInfidelity', S.solver, target=t, computational_states=Q.arg)

        def post(r):
            U.eq(nm + ' is 1 - |<target|psi>|^2', r, ONE - abs2(ip))
            laws(U, S, nm, pol(r), Q.n, ONE, ip)
        U.run(nm, lambda: U.call(c, 'costs'), post)
        lagrange(U, nm, lambda i, j: tv(i), psi, Q.n, ONE)


@unit('C20', 'state infidelity', [C + 'StateInfidelity.grad', C + 'derivative_state_fidelity'], INS)
def _(U):
    for comp, bra, _ in state_modes():
        S = Sys(U, cols=ONE)
        Q = Comp(U, S.d, comp)
        t = U.input('target', U.op('T', 1, Q.n) if bra else U.op('T', Q.n, 1))
        nm = 'state infidelity, %s%s' % ('bra' if bra else 'ket', ' in the subspace' * comp)
        if not bra:
            U.I_assume(ge(Q.n - 2))
        c = new(U, 'StateInfidelity', S.solver, target=t, computational_states=Q.arg)
        U.run(nm, lambda: (U.call(c, 'costs'), U.call(c, 'grad')),
              lambda r: gradient(U, S, nm, pol(r[0]), r[1]))


# ------------------------------------------------------------------ C19, C20: operations
@unit('C19', 'entanglement infidelity', [C + 'OperationInfidelity.' + m for m in (
    '__init__', 'costs')] + [C + 'entanglement_fidelity'], INS)
def _(U):
    for comp in (False, True):
        S = Sys(U)
        Q = Comp(U, S.d, comp)
        t = U.input('target', U.op('T', Q.n, Q.n))
        nm = 'entanglement infidelity' + ' in the subspace' * comp
        u = Q.sub(S.F)
        tr = total(Q.n, lambda i: total(Q.n, lambda j: T.conj(tgt(j, i)) * u(j, i)))
        c = new(U, 'OperationInfidelity', S.solver, target=t, computational_states=Q.arg)

        def post(r):
            U.eq(nm + ' is 1 - |tr(T^dag U)|^2/d^2', r, ONE - abs2(tr) * T.inv(Q.n * Q.n))
            laws(U, S, nm, pol(r), Q.n, Q.n, tr)
        U.run(nm, lambda: U.call(c, 'costs'), post)
        lagrange(U, nm, tgt, u, Q.n, Q.n)


@unit('C20', 'entanglement infidelity', [C + 'OperationInfidelity.grad',
                                         C + 'derivative_entanglement_fidelity_with_du'], INS)
def _(U):
    for comp in (False, True):
        S = Sys(U)
        Q = Comp(U, S.d, comp)
        t = U.input('target', U.op('T', Q.n, Q.n))
        nm = 'entanglement infidelity' + ' in the subspace' * comp
        c = new(U, 'OperationInfidelity', S.solver, target=t, computational_states=Q.arg)
        U.run(nm, lambda: (U.call(c, 'costs'), U.call(c, 'grad')),
              lambda r: gradient(U, S, nm, pol(r[0]), r[1]))


def sup_trace(Q, d, prop):
    """tr((conj(T) x T)^dag S) over the computational states, S[(a,b),(c,e)]
    with composite indices a*d+b."""
    i = lambda x, y: Q.idx(x) * d + Q.idx(y)
    n = Q.n
    return total(n, lambda a: total(n, lambda b: total(n, lambda c: total(n, lambda e: tgt(
        a, c) * T.conj(tgt(b, e)) * prop(i(a, b), i(c, e))))))


@unit('C19', 'super operator infidelity', [C + 'entanglement_fidelity_super_operator',
                                           C + 'OperationInfidelity.costs'], INS)
def _(U):
    _super(U, False)


@unit('C20', 'super operator infidelity', [C + 'deriv_entanglement_fid_sup_op_with_du',
                                           C + 'OperationInfidelity.grad'], INS)
def _(U):
    _super(U, True)


def _super(U, grad):
    for comp in (False, True):
        S = Sys(U, sup=True)
        Q = Comp(U, S.d, comp)
        t = U.input('target', U.op('T', Q.n, Q.n))
        nm = 'super operator infidelity' + ' in the subspace' * comp
        tr = sup_trace(Q, S.d, S.F)
        c = new(U, 'OperationInfidelity', S.solver, target=t, super_operator_formalism=True,
                computational_states=Q.arg)
        if not grad:
            U.run(nm, lambda: U.call(c, 'costs'), lambda r: U.eq(
                nm + ' is 1 - Re tr((conj(T) x T)^dag S)/d^2', r,
                ONE - T.re(tr) * T.inv(Q.n * Q.n)))
        else:
            U.run(nm, lambda: (U.call(c, 'costs'), U.call(c, 'grad')),
                  lambda r: gradient(U, S, nm, pol(r[0]), r[1]))


# ------------------------------------------------------------------ noise
def neglects():
    """(neglect_systematic_errors, target given, effectively neglected)"""
    return [(True, True, True), (True, False, True), (False, True, False), (False, False, True)]


@unit('C19', 'noise infidelity of operations', [C + 'OperationNoiseInfidelity.' + m for m in (
    '__init__', 'costs', '_effective_target', '_to_comp_space')] + [C + 'entanglement_fidelity'], INS)
def _(U):
    _op_noise(U, False)


@unit('C20', 'noise infidelity of operations', [C + 'OperationNoiseInfidelity.grad',
                                                C + 'derivative_entanglement_fidelity_with_du'], INS)
def _(U):
    _op_noise(U, True)


def _op_noise(U, grad):
    for comp in (False, True):
        for neglect, given, eff in neglects():
            S = Sys(U, noise=True)
            Q = Comp(U, S.d, comp)
            t = U.input('target', U.op('T', Q.n, Q.n)) if given else None
            nm = 'noise infidelity%s, %s%s' % (' in the subspace' * comp, 'against the noise-free '
                                               'result' if eff else 'against the target',
                                               '' if given else ' (no target)')
            c = new(U, 'OperationNoiseInfidelity', S.solver, t, computational_states=Q.arg,
                    neglect_systematic_errors=neglect)
            tt = Q.sub(S.F) if eff else tgt

            def inf(r):
                u = Q.sub(S.FN(r))
                tr = total(Q.n, lambda i: total(Q.n, lambda j: T.conj(tt(j, i)) * u(j, i)))
                return ONE - abs2(tr) * T.inv(Q.n * Q.n)
            want = total(S.m, inf) * T.inv(S.m)
            if not grad:
                U.run(nm, lambda: U.call(c, 'costs'), lambda r: U.eq(
                    nm + ' is the mean of 1 - |tr(T^dag U)|^2/d^2 over the traces', r, want))
            else:
                U.run(nm, lambda: (U.call(c, 'costs'), U.call(c, 'grad')),
                      lambda r: gradient(U, S, nm, pol(r[0]), r[1]))


@unit('C19', 'noise infidelity of states', [C + 'StateNoiseInfidelity.__init__',
                                            C + 'StateNoiseInfidelity.costs'], INS)
def _(U):
    for comp in (False, True):
        for neglect, given, eff in neglects():
            for bra in (False, True) if given else (True,):
                S = Sys(U, cols=ONE, noise=True)
                Q = Comp(U, S.d, comp)
                if not bra:
                    U.I_assume(ge(Q.n - 2))
                t = None if not given else U.input('target', U.op('T', 1, Q.n) if bra else
                                                   U.op('T', Q.n, 1))
                nm = 'state noise infidelity%s, %s%s' % (
                    ' in the subspace' * comp, 'against the noise-free result' if eff else
                    'against the target', '' if given else ' (no target)')
                c = new(U, 'StateNoiseInfidelity', S.solver, t, computational_states=Q.arg,
                        neglect_systematic_errors=neglect)
                f0 = Q.sub(S.F, True)
                tt = (lambda i: f0(i, ZERO)) if eff else (
                    (lambda i: T.conj(tgt(ZERO, i))) if bra else (lambda i: tgt(i, ZERO)))

                def inf(r):
                    u = Q.sub(S.FN(r), True)
                    return ONE - abs2(total(Q.n, lambda i: T.conj(tt(i)) * u(i, ZERO)))
                want = total(S.m, inf) * T.inv(S.m)
                U.run(nm, lambda: U.call(c, 'costs'), lambda r: U.eq(
                    nm + ' is the mean of 1 - |<target|psi>|^2 over the traces', r, want))


def mc_super(S):
    """Mean over the traces of conj(U) x U, entries indexed by ((a,b),(c,e))."""
    d = S.d
    return lambda x, y: total(S.m, lambda r: T.conj(S.FN(r)(T.fdiv(x, d), T.fdiv(y, d))) * S.FN(r)(
        T.mod(x, d), T.mod(y, d))) * T.inv(S.m)


@unit('C19', 'Monte Carlo super operator infidelity', [
    C + 'LiouvilleMonteCarloEntanglementInfidelity.' + m for m in ('__init__', 'costs')], INS)
def _(U):
    for comp in (False, True):
        S = Sys(U, noise=True)
        Q = Comp(U, S.d, comp)
        t = U.input('target', U.op('T', Q.n, Q.n))
        nm = 'Monte Carlo super operator infidelity' + ' in the subspace' * comp
        c = new(U, 'LiouvilleMonteCarloEntanglementInfidelity', S.solver, t,
                computational_states=Q.arg)
        n = Q.n

        def tr(r):
            f = Q.sub(S.FN(r))
            return total(n, lambda a: total(n, lambda b: total(n, lambda c: total(
                n, lambda e: tgt(a, c) * T.conj(tgt(b, e)) * T.conj(f(a, c)) * f(b, e)))))
        U.run(nm, lambda: U.call(c, 'costs'), lambda r: U.eq(
            nm + ' is 1 - Re tr((conj(T) x T)^dag mean(conj(U) x U))/d^2', r,
            ONE - T.re(total(S.m, tr)) * T.inv(S.m) * T.inv(n * n)))
        # a sum of squares: the infidelity is at most one
        U.eq(nm + ': the trace of each member is |tr(T^dag U)|^2', tr(var('q')), abs2(total(
            n, lambda i: total(n, lambda j: T.conj(tgt(j, i)) * Q.sub(S.FN(var('q')))(j, i)))))


# ------------------------------------------------------------------ free functions
def both_kinds(U, name, *shape):
    """The same matrix as operator and as array."""
    return [U.input(name, U.op(name, *shape)), U.input(name, U.arr(name, *shape))]


def P_(i, j):
    return fn('P', i, j)


@unit('C19', 'fidelity functions of operators and arrays', [
    C + 'entanglement_fidelity', C + 'entanglement_fidelity_super_operator', C + 'state_fidelity'],
    'operators and numpy arrays of any dimension in every combination')
def _(U):
    f = lambda n: U.cls(C + n)
    d = U.dim('d', 2)
    for comp in (False, True):
        Q = Comp(U, d, comp)
        n = Q.n
        sx = ' in the subspace' * comp
        for ti in (0, 1):
            for pi in (0, 1):
                nm = '%s and %s%s' % (('operator', 'array')[ti], ('operator', 'array')[pi], sx)
                t = both_kinds(U, 'T', n, n)[ti]
                p = both_kinds(U, 'P', d, d)[pi]
                u = Q.sub(P_)
                tr = total(n, lambda i: total(n, lambda j: T.conj(tgt(j, i)) * u(j, i)))
                U.run(nm, lambda: U.I.call(f('entanglement_fidelity'), [t, p, Q.arg], {}),
                      lambda r: U.eq(nm + ': entanglement fidelity', r,
                                     abs2(tr) * T.inv(n * n)))
                p = both_kinds(U, 'P', d * d, d * d)[pi]
                trs = sup_trace(Q, d, P_)
                U.run(nm, lambda: U.I.call(f('entanglement_fidelity_super_operator'),
                                           [t, p, Q.arg], {}),
                      lambda r: U.eq(nm + ': super operator fidelity', r,
                                     T.re(trs) * T.inv(n * n)))
                t = both_kinds(U, 'T', ONE, n)[ti]
                p = both_kinds(U, 'P', d, ONE)[pi]
                v = Q.sub(P_, True)
                ip = total(n, lambda i: tgt(ZERO, i) * v(i, ZERO))
                U.run(nm, lambda: U.I.call(f('state_fidelity'), [t, p, Q.arg], {}),
                      lambda r: U.eq(nm + ': state fidelity', r, abs2(ip)))
    # scalar products that are no scalars
    k = U.dim('k', 2)
    for nm, a, b in (('operator as state', (ONE, d), (d, k)), ('ket as target', (k, d), (d, ONE))):
        t, p = U.input('target', U.op('T', *a)), U.input('state', U.op('P', *b))
        U.must_raise(nm, lambda: U.I.call(f('state_fidelity'), [t, p], {}), {'ValueError'})


@unit('C19', 'values of special evolutions', [
    C + 'entanglement_fidelity', C + 'entanglement_fidelity_super_operator', C + 'state_fidelity'],
    'any dimension')
def _(U):
    f = lambda n: U.cls(C + n)
    d = U.dim('d', 2)
    w = T.exp(T.IM * var('phi', 'r'))
    ph = lambda g: lambda *a: w * g(*a)
    n2 = norm2(P_, d, d)
    t = U.input('target', U.op('P', d, d))
    p = U.input('propagator', U.opf(ph(P_), d, d))
    U.run('target', lambda: U.I.call(f('entanglement_fidelity'), [t, p], {}), lambda r: U.eq(
        'evolution equal to the target up to a phase: tr(U^dag U)^2/d^2', r,
        n2 * n2 * T.inv(d * d)))
    sup = lambda g: lambda x, y: T.conj(g(T.fdiv(x, d), T.fdiv(y, d))) * g(T.mod(x, d), T.mod(y, d))
    s = U.input('super operator', U.opf(sup(ph(P_)), d * d, d * d))
    U.run('super', lambda: U.I.call(f('entanglement_fidelity_super_operator'), [t, s], {}),
          lambda r: U.eq('super operator of the target up to a phase: tr(U^dag U)^2/d^2', r,
                         n2 * n2 * T.inv(d * d)))
    tt = U.input('target', U.op('T', d, d))
    tr = total(d, lambda i: total(d, lambda j: T.conj(tgt(j, i)) * P_(j, i)))
    U.run('super', lambda: U.I.call(f('entanglement_fidelity_super_operator'), [tt, s], {}),
          lambda r: U.eq('super operator of a unitary: |tr(T^dag U)|^2/d^2', r,
                         abs2(tr) * T.inv(d * d)))
    ket = U.input('state', U.opf(ph(P_), d, 1))
    bra = U.input('bra', U.opf(lambda i, j: T.conj(P_(j, i)), 1, d))
    n1 = norm2(P_, d, ONE)
    U.run('state', lambda: U.I.call(f('state_fidelity'), [bra, ket], {}), lambda r: U.eq(
        'state equal to the target up to a phase: |<psi|psi>|^2', r, n1 * n1))


def closest(f, n):
    """The unitary V W of the singular value decomposition V S W."""
    l = lam2(f, n)
    return lambda i, j: total(n, lambda k: lamfun('svd_u', 'c', [l], i, k) *
                              lamfun('svd_v', 'c', [l], k, j))


@unit('C19', 'mapped to the closest unitary or rescaled', [
    C + 'OperationInfidelity.costs', C + 'OperationNoiseInfidelity.costs',
    C + 'OperationNoiseInfidelity._effective_target', C + 'StateInfidelity.costs',
    C + 'StateNoiseInfidelity.costs', C + 'entanglement_fidelity', C + 'state_fidelity',
    'qopt.matrix:closest_unitary', 'qopt.matrix:DenseOperator.truncate_to_subspace'],
    INS + '; U of the closest unitary = V W with the singular vectors V, W')
def _(U):
    S = Sys(U, noise=True)
    Q = Comp(U, S.d, True)
    n = Q.n
    t = U.input('target', U.op('T', n, n))

    def inf(t, f):
        u = closest(Q.sub(f), n)
        tr = total(n, lambda i: total(n, lambda j: T.conj(t(j, i)) * u(j, i)))
        return ONE - abs2(tr) * T.inv(n * n)
    c = new(U, 'OperationInfidelity', S.solver, target=t, computational_states=Q.arg,
            map_to_closest_unitary=True)
    U.run('operation', lambda: U.call(c, 'costs'), lambda r: U.eq(
        'closest unitary: 1 - |tr(T^dag U)|^2/d^2', r, inf(tgt, S.F)))
    for neglect in (False, True):
        c = new(U, 'OperationNoiseInfidelity', S.solver, t, computational_states=Q.arg,
                neglect_systematic_errors=neglect, map_to_closest_unitary=True)
        tt = closest(Q.sub(S.F), n) if neglect else tgt
        U.run('noise', lambda: U.call(c, 'costs'), lambda r: U.eq(
            'closest unitary: mean of 1 - |tr(T^dag U)|^2/d^2', r,
            total(S.m, lambda q: inf(tt, S.FN(q))) * T.inv(S.m)))
    S = Sys(U, noise=True, cols=ONE)
    Q = Comp(U, S.d, True)
    n = Q.n
    t = U.input('target', U.op('T', ONE, n))

    def fid(t, f):
        v = Q.sub(f, True)
        return abs2(total(n, lambda i: T.conj(t(i)) * v(i, ZERO))), norm2(v, n, ONE)
    tv = lambda i: T.conj(tgt(ZERO, i))
    c = new(U, 'StateInfidelity', S.solver, target=t, computational_states=Q.arg,
            rescale_propagated_state=True)

    def post(r):
        a, b = fid(tv, S.F)
        U.eq('rescaled state: 1 - |<target|psi>|^2/<psi|psi>', (ONE - pol(r)) * b, a)
    U.run('state', lambda: U.call(c, 'costs'), post)


# ------------------------------------------------------------------ subspaces by partial trace
SUBSETS = [(n, s) for n in (1, 2, 3) for k in range(0, n)
           for s in itertools.combinations(range(n), k)]


def subsystem_unit(prop, n, functions, grad, rm=None):
    @unit(prop, 'state infidelity of %d subsystems' % n
          + ('' if rm is None else ', removed %s' % list(rm)), functions,
          INS + '; %d subsystems of any dimensions (bounded)' % n,
          bounded='number of subsystems at most 3')
    def _(U):
        _subsystems(U, n, grad, rm)


for _n in (1, 2, 3):
    subsystem_unit('C19', _n, [C + 'StateInfidelitySubspace.__init__',
                               C + 'StateInfidelitySubspace.costs',
                               C + 'state_fidelity_subspace'], False)
    for _rm in [None] if _n < 3 else [_s for _k, _s in SUBSETS if _k == 3]:
        subsystem_unit('C20', _n, [C + 'StateInfidelitySubspace.grad',
                                   C + 'derivative_state_fidelity_subspace'], True, _rm)


def _subsystems(U, size, grad, only):
    for n, rm in SUBSETS:
        if n != size or only not in (None, rm):
            continue
        for bra in (True, False):
            CTX.push()
            dims = [U.dim('d%d' % q) for q in range(n)]
            N = ONE
            for d in dims:
                N = N * d
            U.I_assume(ge(N - 2))
            S = Sys(U, cols=ONE, d=N)
            keep = [q for q in range(n) if q not in rm]
            K = ONE
            for q in keep:
                K = K * dims[q]
            if not bra:
                U.I_assume(ge(K - 2))
            t = U.input('target', U.op('T', 1, K) if bra else U.op('T', K, 1))
            nm = 'state infidelity of %d subsystems, remove %s, %s' % (n, list(rm),
                                                                      'bra' if bra else 'ket')
            tv = (lambda i: T.conj(tgt(ZERO, i))) if bra else (lambda i: tgt(i, ZERO))

            m, rho = ptrace_spec(lambda i, j: S.F(i, ZERO) * T.conj(S.F(j, ZERO)), dims, list(rm))
            want = ONE - total(K, lambda x: total(K, lambda y: T.conj(tv(x)) * rho(x, y) * tv(y)))
            dl = U.input('dims', plist([num(d, 'int') for d in dims]))
            rl = U.input('remove', plist(list(rm)))
            c = new(U, 'StateInfidelitySubspace', S.solver, target=t, dims=dl, remove=rl)
            if not grad:
                U.run(nm, lambda: U.call(c, 'costs'), lambda r: U.eq(
                    nm + ' is 1 - <target|tr_removed|psi><psi| |target>', r, want))
            else:
                U.run(nm, lambda: (U.call(c, 'costs'), U.call(c, 'grad')),
                      lambda r: gradient(U, S, nm, pol(r[0]), r[1]))
            CTX.pop()


# ------------------------------------------------------------------ C21
def leak(Q, f):
    """1 - tr(P U P U^dag P)/d_c"""
    u = Q.sub(f)
    return ONE - norm2(u, Q.n, Q.n) * T.inv(Q.n)


@unit('C21', 'coherent leakage', [C + 'LeakageError.' + m for m in ('__init__', 'costs', 'grad')], INS)
def _(U):
    S = Sys(U)
    Q = Comp(U, S.d, True)
    c = new(U, 'LeakageError', S.solver, Q.arg)
    want = leak(Q, S.F)

    def post(r):
        v, g = r
        if U.I.branch(Not(ge(-want))):
            U.eq('leakage is 1 - tr(P U P U^dag P)/d_c', v, want)
            gradient(U, S, 'leakage', want, g)
        else:
            U.eq('leakage is not negative', v, ZERO)
    U.run('leakage', lambda: (U.call(c, 'costs'), U.call(c, 'grad')), post)
    U.run('leakage, gradient first', lambda: (U.call(c, 'grad'), U.call(c, 'costs'))[::-1], post)


@unit('C21', 'incoherent leakage', [C + 'IncoherentLeakageError.' + m for m in (
    '__init__', 'costs')], INS)
def _(U):
    S = Sys(U, noise=True)
    Q = Comp(U, S.d, True)
    c = new(U, 'IncoherentLeakageError', S.solver, Q.arg)
    want = total(S.m, lambda r: leak(Q, S.FN(r))) * T.inv(S.m)
    U.run('incoherent leakage', lambda: U.call(c, 'costs'), lambda r: U.eq(
        'incoherent leakage is the mean of the leakage over the traces', r, want))


@unit('C21', 'leakage of super operators', [C + 'LeakageLiouville.' + m for m in (
    '__init__', 'costs')], INS)
def _(U):
    for unitary in (False, True):
        for mc in (False, True):
            S = Sys(U, sup=not unitary, noise=mc)
            d = S.d
            Q = Comp(U, d, True)
            nm = 'leakage of %s, %s' % ('unitaries' if unitary else 'super operators',
                                        'mean over traces' if mc else 'one evolution')
            c = new(U, 'LeakageLiouville', S.solver, Q.arg, input_unitary=unitary, monte_carlo=mc)
            comp = lambda a: total(Q.n, lambda i: eq0(Q.idx(i) - a))

            def value(f):
                if unitary:
                    pop = lambda a, b: abs2(f(a, b))
                else:
                    pop = lambda a, b: f(a * d + a, b * d + b)
                return total(d, lambda a: (ONE - comp(a)) * total(
                    Q.n, lambda i: pop(a, Q.idx(i)))) * T.inv(Q.n)
            want = T.re(total(S.m, lambda r: value(S.FN(r))) * T.inv(S.m) if mc else value(S.F))
            U.run(nm, lambda: U.call(c, 'costs'), lambda r: U.arr_eq(
                nm + ': population outside of the computational states', r, (1,), lambda i: want))


# ------------------------------------------------------------------ C32: operator distances
@unit('C32', 'difference of the operators', [C + 'OperatorMatrixNorm.__init__',
                                             C + 'OperatorMatrixNorm.costs'], INS)
def _(U):
    for mode, n in (('vector', None), ('vector', 2), ('vector', 3), ('scalar', None), (None, None)):
        S = Sys(U, d=toP(n) if n else None)
        d = S.d
        t = U.input('target', U.op('T', d, d))
        nm = 'operator distance, mode %s%s' % (mode, ', dimension %d' % n if n else '')
        kw = {} if mode is None else dict(mode=mode)
        if mode == 'vector' and not n:
            kw['label'] = plist(['a', 'b'])
        # exp(-i phi) U - T with phi the phase of U[0, 0]
        ph = T.conj(S.F(ZERO, ZERO)) * T.inv(T.sqrt(abs2(S.F(ZERO, ZERO))))
        D_ = lambda i, j: S.F(i, j) * ph - tgt(i, j)

        def post(c):
            r, lab = c
            if mode != 'vector':
                return U.eq(nm + ': sum of the moduli', r, total(d, lambda i: total(
                    d, lambda j: T.sqrt(abs2(D_(i, j))))))
            if n:
                want = [p + 'du%d%d' % (i + 1, j + 1) for p in ('re', 'im') for i in range(n)
                        for j in range(n)]
                got = U.I.concrete(lab)
                U.struct(nm + ': labels', got == want, str(got))
            U.eq(nm + ': number of values', r.shape[0], 2 * d * d)
            i, j = P(T.temp()), P(T.temp())
            with CTX.ranges([i.single(), j.single()], [d, d]):
                z = D_(i, j)
                U.eq(nm + ': real parts', r.el(i * d + j), T.re(z))
                U.eq(nm + ': imaginary parts', r.el(d * d + i * d + j), T.im(z))

        def go():
            c = new(U, 'OperatorMatrixNorm', S.solver, target=t, **kw)
            return U.call(c, 'costs'), U.get(c, 'label')
        # the phase of an element close to zero is not defined
        from pyvc.npstub import close_poly
        U.run(nm, go, post, raises=lambda e: close_poly(S.F(ZERO, ZERO), ZERO)
              if e == 'NotImplementedError' else ZERO)
        U.must_raise(nm + ': unknown mode', lambda: new(U, 'OperatorMatrixNorm', S.solver, target=t,
                                                        mode='other'), {'ValueError'})


@unit('C32', 'average gate fidelity', [C + 'averge_gate_fidelity', C + 'default_set_orthorgonal'],
      'any operators of one qubit')
def _(U):
    two = toP(2)
    u, t = U.input('unitary', U.op('F', two, two)), U.input('target', U.op('T', two, two))
    tr = total(two, lambda i: total(two, lambda j: T.conj(fn('F', j, i)) * tgt(j, i)))
    f = lambda: U.I.call(U.cls(C + 'averge_gate_fidelity'), [u, t], {})
    U.run('average gate fidelity', f, lambda r: U.eq(
        'average gate fidelity is (|tr(U^dag T)|^2 + d)/(d(d+1))', r,
        (abs2(tr) + 2) * Fraction(1, 6)))
