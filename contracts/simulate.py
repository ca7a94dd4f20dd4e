"""C24: contracts of qopt.simulator over arbitrary solvers and cost functions."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from contracts.matrix import total

M = 'qopt.simulator:Simulator'
# The environment: a solver is whatever remembers the pulse it was handed last,
# a cost function is any function of that pulse.
GHOST = '''
class Solver:
    def __init__(self, transfer_function, amplitude_function):
        self.pulse = None
        self.transfer_function = transfer_function
        self.amplitude_function = amplitude_function

    def set_optimization_parameters(self, y):
        self.pulse = y


class Cost:
    def __init__(self, solver, values, gradients, label):
        self.solver = solver
        self.values = values
        self.gradients = gradients
        self.label = label

    def costs(self):
        return self.values(self.solver.pulse)

    def grad(self):
        return self.gradients(self.solver.pulse)
'''


def lamfun(*a):
    from pyvc.npstub import lamfun as f
    return f(*a)


def lam(x):
    x = unl(x)
    ts = [T.temp() for _ in x.shape]
    with CTX.ranges(ts, [toP(s) for s in x.shape]):
        return Lam([toP(s) for s in x.shape], ts, x.el(*[P(t) for t in ts]))


def lamf(f, *shape):
    return lam(mkarr(shape, f, 'f'))


class World:
    """m cost functions on p solvers (concrete numbers), any pulse."""

    def __init__(self, U, shapes, p=1, extra=0, dtype='f'):
        self.U, self.shapes, self.p = U, shapes, p
        U.source('ghost', GHOST)
        self.ny, self.k = U.dim('n_t'), U.dim('n_par')
        self.pulse = U.input('pulse', U.arr('y', self.ny, self.k, dtype=dtype))
        self.y = self.pulse.el
        self.nx = [U.dim('n_x%d' % q) for q in range(p)]
        self.nq = [U.dim('n_q%d' % q) for q in range(p)]
        self.nu = [U.dim('n_u%d' % q) for q in range(p)]
        self.n = [U.dim('n_f%d' % i) if s in ('vector', 'row', 'column', 'full') else ONE
                  for i, s in enumerate(shapes)]
        self.new()

    def solver_of(self, i):
        return i % self.p

    def new(self):
        U = self.U
        sol = []
        for q in range(self.p):
            nx, nq, k, ny = self.nx[q], self.nq[q], self.k, self.ny

            def tf(I, a, kw, q=q, nx=nx, nq=nq):
                l = lam(a[0])
                return mkarr((nx, nq), lambda t, j: lamfun('x%d' % q, 'r', [l], t, j), 'f')

            def chain_t(I, a, kw, q=q):
                g = unl(a[0] if a else kw['deriv_by_transferred_par'])
                l = lam(g)
                return mkarr((ny, g.shape[1], k), lambda *j: lamfun('dy%d' % q, 'r', [l], *j), 'f')

            def chain_a(I, a, kw, q=q, nx=nx, nq=nq):
                g = unl(a[0] if a else kw['deriv_by_ctrl_amps'])
                x = unl(a[1] if len(a) > 1 else kw['x'])
                ls = [lam(g), lam(x)]
                return mkarr((nx, g.shape[1], nq), lambda *j: lamfun('dx%d' % q, 'r', ls, *j), 'f')
            sol.append(U.I.call(U.cls('ghost:Solver'), [
                Opaque('transfer function', dict(gradient_chain_rule=Native('chain', chain_t)), tf),
                Opaque('amplitude function', dict(
                    derivative_by_chain_rule=Native('chain', chain_a)))], {}))
        self.solvers = sol
        cost = []
        for i, s in enumerate(self.shapes):
            def val(I, a, kw, i=i, s=s):
                l = lam(a[0])
                e = lambda j=ZERO: lamfun('cost%d' % i, 'r', [l], j)
                n = self.n[i]
                if s == 'float':
                    return Num(e(ZERO), 'float')
                if s == 'numpy':
                    return Num(e(ZERO), 'np.float64')
                if s == '0d':
                    return mkarr((), lambda: e(ZERO), 'f')
                if s == 'row':
                    return mkarr((1, n), lambda _, j: e(j), 'f')
                if s == 'column':
                    return mkarr((n, 1), lambda j, _: e(j), 'f')
                return mkarr((n,), e, 'f')

            def grad(I, a, kw, i=i, s=s):
                q = self.solver_of(i)
                l = lam(a[0])
                e = lambda *j: lamfun('grad%d' % i, 'r', [l], *j)
                if s in ('vector', 'row', 'column', 'full'):
                    return mkarr((self.nx[q], self.n[i], self.nu[q]), e, 'f')
                return mkarr((self.nx[q], self.nu[q]), lambda t, k: e(t, ZERO, k), 'f')
            nl = self.n[i]
            lb = symlist(nl, lambda j, i=i: SStr('label%d' % i, j)) if nl.cint is None else \
                plist(['label %d' % i])
            cost.append(U.I.call(U.cls('ghost:Cost'), [
                sol[self.solver_of(i)], Native('cost', val), Native('gradient', grad), lb], {}))
        self.costs = cost

    def simulator(self, stats, **kw):
        return self.U.I.call(self.U.cls(M), [], dict(
            solvers=plist(list(self.solvers)), cost_funcs=plist(list(self.costs)),
            record_performance_statistics=stats, **kw))

    @property
    def total(self):
        r = ZERO
        for n in self.n:
            r = r + n
        return r

    def pieces(self, j, f):
        """Piece i of the concatenation at index j."""
        lo, out = ZERO, ZERO
        for i, n in enumerate(self.n):
            q = ZERO if n is ONE else j - lo
            out = out + f(i, q) * (eq0(j - lo) if n is ONE else ge(j - lo) * ge(lo + n - 1 - j))
            lo = lo + n
        return out

    def cost(self, y, j):
        l = lamf(y, self.ny, self.k)
        return self.pieces(j, lambda i, q: lamfun('cost%d' % i, 'r', [l], q))

    def jac(self, y, t, j, k):
        l = lamf(y, self.ny, self.k)

        def one(i, q):
            s = self.solver_of(i)
            g = lamf(lambda a, b, c: lamfun('grad%d' % i, 'r', [l], a, b, c),
                     self.nx[s], self.n[i], self.nu[s])
            x = lamf(lambda a, b: lamfun('x%d' % s, 'r', [l], a, b), self.nx[s], self.nq[s])
            dx = lamf(lambda a, b, c: lamfun('dx%d' % s, 'r', [g, x], a, b, c),
                      self.nx[s], self.n[i], self.nq[s])
            return lamfun('dy%d' % s, 'r', [dx], t, q, k)
        return self.pieces(j, one)

    def pulse_set(self, nm, y):
        """Every solver holds the pulse."""
        for q, s in enumerate(self.solvers):
            self.U.arr_eq('%s: solver %d was handed the pulse' % (nm, q), self.U.get(s, 'pulse'),
                          (self.ny, self.k), y)


INS = ('any pulse shape, values and gradients; cost functions of any number of values; '
       'up to three cost functions on up to three solvers')
WORLDS = [(('float',), 1), (('numpy', 'vector'), 2), (('vector', 'float'), 1), (('0d', 'row'), 3),
          (('vector', 'column', 'numpy'), 2)]


def statistics(U, nm, sim, which, calls, m):
    st = U.get(sim, 'stats')
    l = U.get(st, which)
    U.eq(nm + ': one record per call', U.length(l), const(calls))
    for c in range(calls):
        U.eq(nm + ': one time per cost function', U.length(U.item(l, c)), const(m))


@unit('C24', 'cost vector', [M + '.' + x for x in ('__init__', 'wrapped_cost_functions', 'pulse',
                                                   'cost_indices')], INS,
      bounded='at most three cost functions and solvers')
def _(U):
    for shapes, p in WORLDS:
        for stats in (False, True):
            for given in (True, False):
                CTX.push()
                w = World(U, shapes, p)
                nm = '%s on %d solvers, statistics %s, pulse %s' % (
                    ' '.join(shapes), p, stats, 'given' if given else 'set before')
                y2 = U.input('second pulse', U.arr('y2', w.ny, w.k, dtype='f'))

                def go():
                    w.new()
                    s = w.simulator(stats)
                    if given:
                        r = U.call(s, 'wrapped_cost_functions', w.pulse)
                        return s, r, U.call(s, 'wrapped_cost_functions', pulse=y2)
                    s_ = U.I.setattr(s, 'pulse', w.pulse)
                    r = U.call(s, 'wrapped_cost_functions')
                    U.I.setattr(s, 'pulse', y2)
                    return s, r, U.call(s, 'wrapped_cost_functions')

                def post(r):
                    s, a, b = r
                    y2f = lambda t, k: fn('y2', t, k, sort='r')
                    U.arr_eq(nm + ': concatenated costs', a, (w.total,), lambda j: w.cost(w.y, j))
                    U.arr_eq(nm + ': costs of the second pulse', b, (w.total,),
                             lambda j: w.cost(y2f, j))
                    w.pulse_set(nm, y2f)
                    if stats:
                        statistics(U, nm, s, 'cost_func_eval_times', 2, len(shapes))
                    U.eq(nm + ': number of labels', U.length(U.get(s, 'cost_indices')), w.total)
                U.run(nm, go, post)
                CTX.pop()


@unit('C24', 'jacobian', [M + '.wrapped_jac_function'], INS,
      bounded='at most three cost functions and solvers')
def _(U):
    for shapes, p in WORLDS:
        for stats in (False, True):
            for given in (True, False):
                CTX.push()
                w = World(U, shapes, p)
                nm = '%s on %d solvers, statistics %s, pulse %s' % (
                    ' '.join(shapes), p, stats, 'given' if given else 'set before')

                def go():
                    w.new()
                    s = w.simulator(stats)
                    if given:
                        return s, U.call(s, 'wrapped_jac_function', w.pulse)
                    U.I.setattr(s, 'pulse', w.pulse)
                    return s, U.call(s, 'wrapped_jac_function')

                def post(r):
                    s, a = r
                    U.arr_eq(nm + ': converted gradients (time, cost, parameter)', a,
                             (w.ny, w.total, w.k), lambda t, j, k: w.jac(w.y, t, j, k))
                    w.pulse_set(nm, w.y)
                    if stats:
                        statistics(U, nm, s, 'grad_func_eval_times', 1, len(shapes))
                U.run(nm, go, post)
                CTX.pop()


@unit('C24', 'numeric gradient', [M + '.numeric_gradient', M + '.wrapped_jac_function'], INS,
      bounded='at most three cost functions and solvers')
def _(U):
    for dtype, (shapes, p) in [('f', x) for x in WORLDS] + [('i', x) for x in WORLDS[:3]]:
        for sym in (False, True):
            for how in ('direct', 'jacobian', 'set before'):
                CTX.push()
                w = World(U, shapes, p, dtype=dtype)
                nm = '%s on %d solvers, symmetric %s, %s%s' % (
                    ' '.join(shapes), p, sym, how, ', pulse of integers' * (dtype == 'i'))
                eps = U.real('eps', positive=True) if how == 'direct' else None
                e = pol(eps) if eps is not None else toP(Fraction(1, 10 ** 8))
                if how != 'direct' and sym:
                    CTX.pop()
                    continue

                def go():
                    w.new()
                    s = w.simulator(False, numeric_jacobian=how == 'jacobian')
                    if how == 'jacobian':
                        return U.call(s, 'wrapped_jac_function', w.pulse)
                    if how == 'direct':
                        return U.call(s, 'numeric_gradient', w.pulse, delta_eps=eps, symmetric=sym)
                    U.I.setattr(s, 'pulse', w.pulse)
                    return U.call(s, 'numeric_gradient')

                def quotient(t, j, k):
                    up = lambda a, b: w.y(a, b) + e * eq0(a - t) * eq0(b - k)
                    dn = lambda a, b: w.y(a, b) - e * eq0(a - t) * eq0(b - k)
                    if sym:
                        return (w.cost(up, j) - w.cost(dn, j)) * T.inv(2 * e)
                    return (w.cost(up, j) - w.cost(w.y, j)) * T.inv(e)
                U.run(nm, go, lambda r: U.arr_eq(
                    nm + ': difference quotients (time, cost, parameter)', r,
                    (w.ny, w.total, w.k), quotient))
                CTX.pop()


@unit('C24', 'gradient check', [M + '.compare_numeric_to_analytic_gradient',
                                M + '.numeric_gradient', M + '.wrapped_jac_function'], INS,
      bounded='at most three cost functions and solvers')
def _(U):
    for shapes, p in WORLDS[:3]:
        for sym, given in itertools.product((False, True), (False, True)):
            CTX.push()
            w = World(U, shapes, p)
            nm = '%s on %d solvers, symmetric %s, pulse %s' % (
                ' '.join(shapes), p, sym, 'given' if given else 'set before')
            eps = U.real('eps', positive=True)
            e = pol(eps)

            def go():
                w.new()
                s = w.simulator(False)
                if not given:
                    U.I.setattr(s, 'pulse', w.pulse)
                return U.call(s, 'compare_numeric_to_analytic_gradient', delta_eps=eps,
                              symmetric=sym, **(dict(pulse=w.pulse) if given else {}))

            def quotient(t, j, k):
                up = lambda a, b: w.y(a, b) + e * eq0(a - t) * eq0(b - k)
                dn = lambda a, b: w.y(a, b) - e * eq0(a - t) * eq0(b - k)
                if sym:
                    return (w.cost(up, j) - w.cost(dn, j)) * T.inv(2 * e)
                return (w.cost(up, j) - w.cost(w.y, j)) * T.inv(e)

            def norm(f):
                return T.sqrt(total(w.ny, lambda t: total(w.total, lambda j: total(
                    w.k, lambda k: f(t, j, k) * f(t, j, k)))))

            def post(r):
                an = lambda t, j, k: w.jac(w.y, t, j, k)
                d = norm(lambda t, j, k: quotient(t, j, k) - an(t, j, k))
                U.eq(nm + ': norm of the difference', U.item(r, 0), d)
                U.eq(nm + ': relative difference', U.item(r, 1),
                     2 * d * T.inv(norm(quotient) + norm(an)))
            U.run(nm, go, post)
            CTX.pop()


class Family(World):
    """Any number of cost functions of one kind on one of p solvers."""

    def __init__(self, U, kind, p=1):
        super().__init__(U, (), p)
        self.kind = kind
        self.m = U.dim('n_costs')
        self.l = U.dim('n_values') if kind in ('vector', 'column') else ONE

    def new(self):
        super().new()
        U, q = self.U, self.p - 1
        sol = self.solvers[q]

        def one(i):
            def val(I, a, kw):
                l = lam(U.get(sol, 'pulse'))
                e = lambda j=ZERO: lamfun('costs', 'r', [l], i, j)
                if self.kind == 'float':
                    return Num(e(), 'float')
                if self.kind == '0d':
                    return mkarr((), lambda: e(), 'f')
                if self.kind == 'column':
                    return mkarr((self.l, 1), lambda j, _: e(j), 'f')
                return mkarr((self.l,), e, 'f')

            def grad(I, a, kw):
                l = lam(U.get(sol, 'pulse'))
                e = lambda *j: lamfun('grads', 'r', [l], i, *j)
                if self.kind in ('vector', 'column'):
                    return mkarr((self.nx[q], self.l, self.nu[q]), e, 'f')
                return mkarr((self.nx[q], self.nu[q]), lambda t, k: e(t, ZERO, k), 'f')
            return Opaque('cost function', dict(costs=Native('costs', val), grad=Native(
                'grad', grad), solver=sol))
        self.one = one
        if hasattr(self, 'm'):
            self.costs = symlist(self.m, one)

    def simulator(self, stats, **kw):
        return self.U.I.call(self.U.cls(M), [], dict(
            solvers=plist(list(self.solvers)), cost_funcs=self.costs,
            record_performance_statistics=stats, **kw))

    @property
    def total(self):
        return self.m * self.l

    def split(self, j):
        return (j, ZERO) if self.l is ONE else (T.fdiv(j, self.l), j - self.l * T.fdiv(j, self.l))

    def cost(self, y, j):
        i, q = self.split(j)
        return lamfun('costs', 'r', [lamf(y, self.ny, self.k)], i, q)

    def jac(self, y, t, j, k):
        l = lamf(y, self.ny, self.k)
        s = self.p - 1
        i, q = self.split(j)
        g = lamf(lambda a, b, c: lamfun('grads', 'r', [l], i, a, b, c),
                 self.nx[s], self.l, self.nu[s])
        x = lamf(lambda a, b: lamfun('x%d' % s, 'r', [l], a, b), self.nx[s], self.nq[s])
        dx = lamf(lambda a, b, c: lamfun('dx%d' % s, 'r', [g, x], a, b, c),
                  self.nx[s], self.l, self.nq[s])
        return lamfun('dy%d' % s, 'r', [dx], t, q, k)


def times(U, nm, sim, which, w):
    l = U.get(U.get(sim, 'stats'), which)
    U.eq(nm + ': one record per call', U.length(l), ONE)
    U.eq(nm + ': one time per cost function', U.length(U.item(l, 0)), w.m)


@unit('C24', 'any number of cost functions', [M + '.' + x for x in (
    '__init__', 'wrapped_cost_functions', 'wrapped_jac_function', 'numeric_gradient')],
    'any pulse shape, values and gradients; any number of cost functions of the same solver, '
    'with the same number of values')
def _(U):
    for kind in ('float', '0d', 'vector', 'column'):
        for p in (1, 2):
            for stats in (False, True):
                CTX.push()
                w = Family(U, kind, p)
                nm = 'any number of %s costs, solver %d, statistics %s' % (kind, p, stats)

                def go():
                    w.new()
                    s = w.simulator(stats)
                    return s, U.call(s, 'wrapped_cost_functions', w.pulse)

                def post(r):
                    s, a = r
                    U.arr_eq(nm + ': concatenated costs', a, (w.total,), lambda j: w.cost(w.y, j))
                    w.pulse_set(nm, w.y)
                    if stats:
                        times(U, nm, s, 'cost_func_eval_times', w)
                U.run(nm, go, post)

                def go():
                    w.new()
                    s = w.simulator(stats)
                    return s, U.call(s, 'wrapped_jac_function', w.pulse)

                def post(r):
                    s, a = r
                    U.arr_eq(nm + ': converted gradients (time, cost, parameter)', a,
                             (w.ny, w.total, w.k), lambda t, j, k: w.jac(w.y, t, j, k))
                    w.pulse_set(nm, w.y)
                    if stats:
                        times(U, nm, s, 'grad_func_eval_times', w)
                U.run(nm, go, post)
                if stats:
                    CTX.pop()
                    continue
                for sym in (False, True):
                    eps = U.real('eps', positive=True)
                    e = pol(eps)

                    def go():
                        w.new()
                        s = w.simulator(False)
                        return U.call(s, 'numeric_gradient', w.pulse, delta_eps=eps, symmetric=sym)

                    def quotient(t, j, k):
                        up = lambda a, b: w.y(a, b) + e * eq0(a - t) * eq0(b - k)
                        dn = lambda a, b: w.y(a, b) - e * eq0(a - t) * eq0(b - k)
                        if sym:
                            return (w.cost(up, j) - w.cost(dn, j)) * T.inv(2 * e)
                        return (w.cost(up, j) - w.cost(w.y, j)) * T.inv(e)
                    U.run('%s, symmetric %s' % (nm, sym), go, lambda r: U.arr_eq(
                        '%s, symmetric %s: difference quotients (time, cost, parameter)' % (nm, sym),
                        r, (w.ny, w.total, w.k), quotient))
                CTX.pop()
