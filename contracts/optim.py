"""C25, C26, C29: contracts of qopt.optimize over any simulator."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from pyvc import values as V
from pyvc.loops import same_ref
from contracts.matrix import total
from contracts.simulate import lam, lamf, lamfun

O = 'qopt.optimize:'
# Environment: what C24 states about the simulator.
GHOST = '''
class Simulator:
    def __init__(self, values, jacobian, cost_indices, stats):
        self.values = values
        self.jacobian = jacobian
        self.cost_indices = cost_indices
        self.stats = stats

    def wrapped_cost_functions(self, pulse):
        return self.values(pulse)

    def wrapped_jac_function(self, pulse):
        return self.jacobian(pulse)


class Annealer:
    def __init__(self, initial_state):
        self.state = initial_state


class Result:
    pass
'''
INS = 'any pulse shape, number of cost functions, costs, jacobians and weights'
VECTOR, SCALAR = O + 'LeastSquaresOptimizer', O + 'ScalarMinimizingOptimizer'


class World:
    """A simulator with n_f costs of a pulse of n_t times and n_par controls."""

    def __init__(self, U, stats=False, one=False):
        self.U = U
        U.source('ghost', GHOST)
        U.I.stubs = dict(U.I.stubs)
        U.I.stubs['time.time'] = lambda I, a, kw: self.now
        self.t0 = self.now = U.real('start time')
        self.t, self.k = U.dim('n_t'), U.dim('n_par')
        self.f = ONE if one else U.dim('n_f')
        self.stats = stats
        self.pulse = U.input('initial pulse', U.arr('p', self.t, self.k, dtype='f'))
        self.cur = []

    def simulator(self):
        U = self.U

        def val(I, a, kw):
            p = unl(a[0])
            self.cur.append(('cost', p))
            l = lam(p)
            return mkarr((self.f,), lambda j: lamfun('cost', 'r', [l], j), 'f')

        def jac(I, a, kw):
            p = unl(a[0])
            self.cur.append(('jac', p))
            l = lam(p)
            return mkarr((self.t, self.f, self.k), lambda *i: lamfun('jac', 'r', [l], *i), 'f')
        lb = symlist(self.f, lambda j: SStr('label', j)) if self.f.cint is None else \
            plist(['cost'])
        st = U.I.call(U.cls('qopt.performance_statistics:PerformanceStatistics'), [], {}) \
            if self.stats else None
        return U.I.call(U.cls('ghost:Simulator'), [
            Native('costs', val), Native('jacobian', jac), lb, st], {})

    def x(self, name, t, c):
        """Entry of the flat vector x that stands for the pulse entry (t, c)."""
        return fn(name, c * self.t + t, sort='r')

    def flat(self, name):
        return self.U.arr(name, self.k * self.t, dtype='f')

    def entry(self, name):
        return lambda t, c: self.x(name, t, c)

    def lam(self, y):
        return lamf(y, self.t, self.k)

    def cost(self, y, j):
        return lamfun('cost', 'r', [self.lam(y)], j)

    def jac(self, y, t, j, c):
        return lamfun('jac', 'r', [self.lam(y)], t, j, c)

    def norm(self, y):
        return T.sqrt(total(self.f, lambda j: self.cost(y, j) ** 2))

    def weights(self, kind):
        U = self.U
        w = lambda j: fn('w', j, sort='r')
        if kind == 'array':
            return U.input('weights', U.arr('w', self.f, dtype='f')), w
        if kind == 'list':
            return U.input('weights', symlist(self.f, lambda i: Num(w(i), 'float'))), w
        if kind == 'empty':
            return plist([]), lambda j: ONE
        return None, lambda j: ONE

    def optimizer(self, cls, **kw):
        return self.U.I.call(self.U.cls(cls), [], dict(dict(
            system_simulator=self.simulator()), **kw))

    def prepared(self, cls, **kw):
        o = self.optimizer(cls, **kw)
        self.U.call(o, 'prepare_optimization', self.pulse)
        return o

    def vector(self, cls, nm, r, y, w):
        """The value handed to the algorithm."""
        if cls == VECTOR:
            self.U.arr_eq(nm, r, (self.f,), lambda j: self.cost(y, j) * w(j))
        else:
            self.U.eq(nm, r, total(self.f, lambda j: self.cost(y, j) * w(j)))

    def derivative(self, cls, nm, r, y, w):
        r = unl(r)
        d = lambda j, t, c: self.jac(y, t, j, c) * w(j)
        sh = (self.f, self.t * self.k) if cls == VECTOR else (self.t * self.k,)
        self.U.arr_eq(nm + ': shape', r, sh, r.el if isinstance(r, Arr) else None)
        ts = [T.temp() for _ in range(3)]
        j, t, c = [P(a) for a in ts]
        with CTX.ranges(ts, [self.f, self.t, self.k]):
            if cls == VECTOR:
                self.U.eq(nm, r.el(j, c * self.t + t), d(j, t, c))
            else:
                self.U.eq(nm, r.el(c * self.t + t), total(self.f, lambda j: d(j, t, c)))

    def summary(self, nm, o, save, costs, jacs, before=0):
        """The saved steps are those of the given pulses."""
        U = self.U
        s = U.get(o, 'optim_iter_summary')
        if not save:
            return U.struct(nm + ': nothing saved', unl(s) is None)
        U.eq(nm + ': number of saved steps', U.get(s, 'iter_num'), const(len(costs)))
        for what, ys in (('costs', costs), ('parameters', costs), ('gradients', jacs)):
            l = U.get(s, what)
            U.eq('%s: number of saved %s' % (nm, what), U.length(l), const(len(ys)))
            for i, y in enumerate(ys):
                e = U.item(l, i)
                n = '%s: saved %s %d' % (nm, what, i)
                if what == 'costs':
                    U.arr_eq(n, e, (self.f,), lambda j: self.cost(y, j))
                elif what == 'parameters':
                    U.arr_eq(n, e, (self.t, self.k), lambda t, c: y(t, c))
                else:
                    U.arr_eq(n, e, (self.t, self.f, self.k), lambda t, j, c: self.jac(y, t, j, c))


def overwrite(U, x):
    """The algorithm uses the vector for something else."""
    U.I.setitem(x, Ellipsis, 0.)


FS = [O + 'Optimizer.' + x for x in ('__init__', 'prepare_optimization', 'cost_func_wrapper',
                                     'cost_jacobian_wrapper')] + [
    O + 'ScalarMinimizingOptimizer.' + x for x in ('cost_func_wrapper', 'cost_jacobian_wrapper')]


@unit('C25', 'evaluations', FS, INS + '; saved steps on or off', bounded='')
def _(U):
    for cls in (VECTOR, SCALAR):
        for kind in ('none', 'list', 'array', 'empty'):
            for save in (True, False):
                for stats in (False, True):
                    CTX.push()
                    w_ = World(U, stats)
                    weights, w = w_.weights(kind)
                    nm = '%s, weights %s, saved steps %s, statistics %s' % (
                        cls.split(':')[1], kind, save, stats)

                    def go():
                        o = w_.prepared(cls, cost_func_weights=weights,
                                        save_intermediary_steps=save)
                        x = U.I.call(U.I.getattr(w_.flat('x'), 'copy'), [], {})
                        c1 = U.call(o, 'cost_func_wrapper', x)
                        j1 = U.call(o, 'cost_jacobian_wrapper', x)
                        if isinstance(unl(j1), Arr):
                            j1 = unl(j1).copy()
                        # the next point is written over the first one
                        U.I.setitem(x, Ellipsis, w_.flat('z'))
                        c2 = U.call(o, 'cost_func_wrapper', x)
                        j2 = U.call(o, 'cost_jacobian_wrapper', x)
                        overwrite(U, x)
                        return o, c1, j1, c2, j2

                    def post(r):
                        o, c1, j1, c2, j2 = r
                        x, z = w_.entry('x'), w_.entry('z')
                        w_.vector(cls, nm + ': weighted costs', c1, x, w)
                        w_.vector(cls, nm + ': weighted costs of the second point', c2, z, w)
                        w_.derivative(cls, nm + ': weighted jacobian', j1, x, w)
                        w_.derivative(cls, nm + ': weighted jacobian of the second point', j2, z, w)
                        w_.summary(nm, o, save, [x, z], [x, z])
                    U.run(nm, go, post, raises={'WallTimeExceeded'})
                    CTX.pop()


# ------------------------------------------------------------------ results
def scalar_of(v):
    return pol(v)


class Run:
    """The algorithm: evaluates the points in its own vector, then reports."""

    def __init__(self, w, points, history=None):
        self.w, self.points, self.history = w, points, history
        self.U = U = w.U
        self.install()
        self.T = [U.real('time of evaluation %s' % points[i]) for i in range(len(points))]

    def install(self):
        for n in ('least_squares', 'minimize'):
            self.U.I.stubs['scipy.optimize.' + n] = lambda I, a, kw, n=n: self.call(n, a, kw)

    ORDER = {'least_squares': ('fun', 'x0', 'jac', 'bounds', 'method', 'ftol', 'xtol', 'gtol'),
             'minimize': ('fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds',
                          'constraints', 'tol', 'callback', 'options')}

    def call(self, name, a, kw):
        U, w = self.U, self.w
        kw = dict(kw)
        kw.update(zip(self.ORDER[name], a))
        self.name, self.kw = name, kw
        fun, jac = kw['fun'], kw.get('jac')
        x0 = unl(kw['x0'])
        x = x0.copy()
        for i, p in enumerate(self.points):
            w.now = self.T[i]
            if p != 'x0':
                U.I.setitem(x, Ellipsis, w.flat(p))
            m1 = len(V.JOURNAL)
            U.I.call(fun, [x], {})
            m2 = len(V.JOURNAL)
            if jac is not None and not isinstance(jac, str):
                U.I.call(jac, [x], {})
            if i == 0 and self.history is not None:
                o = self.opt
                forget(U, o, m2, self.history, 'jacobian')
                forget(U, o, m1, self.history, 'evaluation')
        overwrite(U, x)
        r = U.I.call(U.cls('ghost:Result'), [], {})
        s = lambda k, v: U.I.setattr(r, k, v)
        s('x', w.flat('found'))
        if name == 'least_squares':
            s('fun', U.arr('reported', w.f, dtype='f'))
            s('grad', U.arr('g', w.k * w.t, dtype='f'))
        else:
            s('fun', U.npreal('reported'))
            if kw.get('method') == 'L-BFGS-B':
                s('jac', U.arr('g', w.k * w.t, dtype='f'))
        s('nfev', num(var('nfev'), 'int'))
        s('status', num(var('status'), 'int'))
        s('message', SStr('message'))
        w.now = U.real('end time')
        return r

    def entry(self, p):
        if p == 'x0':
            return lambda t, c: fn('p', t, c, sort='r')
        return self.w.entry(p)

    def exceeded(self, i, limit):
        """Wall time exceeded at evaluation i."""
        return ONE - ge(limit - (pol(self.T[i]) - pol(self.w.t0)))

    def outcome(self, limit):
        """Index of the evaluation that ended the run on this path, or None."""
        for i in range(len(self.points)):
            e = self.exceeded(i, limit)
            if CTX.entails(e):
                return i
            if not CTX.entails(Not(e)):
                return 'undecided'
        return None


def best(w, nm, run, o, points):
    """The reported pulse and costs are those of the best evaluated point."""
    U = w.U
    ys = [run.entry(p) for p in points]
    ns = [w.norm(y) for y in ys]
    ok = [i for i in range(len(ys)) if all(
        i == q or CTX.entails(ge(ns[q] - ns[i])) for q in range(len(ys)))]
    fp, fc = unl(U.get(o, 'final_parameters')), unl(U.get(o, 'final_cost'))
    good = []
    for i in ok:
        ts = [T.temp() for _ in range(3)]
        t, c, j = [P(a) for a in ts]
        with CTX.ranges(ts, [w.t, w.k, w.f]):
            if isinstance(fp, Arr) and isinstance(fc, Arr) and fp.ndim == 2 and fc.ndim == 1 and \
                    U.prover.zero(fp.el(t, c) - ys[i](t, c))[0] == 'discharged' and \
                    U.prover.zero(fc.el(j) - w.cost(ys[i], j))[0] == 'discharged':
                good.append(i)
    i = good[0] if good else (ok[0] if ok else None)
    if i is None:
        U.record(nm + ': the best point is known', 'open', '', path_text())
        return
    U.arr_eq(nm + ': best pulse', fp, (w.t, w.k), ys[i])
    U.arr_eq(nm + ': its unweighted costs', fc, (w.f,), lambda j: w.cost(ys[i], j))


DEFAULTS = {'min_gradient_norm': Fraction(1, 10 ** 7), 'min_cost_gain': Fraction(1, 10 ** 7),
            'max_wall_time': 600, 'max_iterations': 10000, 'min_amplitude_change':
            Fraction(1, 10 ** 8), 'max_cost_func_calls': 10 ** 6}
PASSED = {'least_squares': {'ftol': 'min_cost_gain', 'xtol': 'min_amplitude_change',
                            'gtol': 'min_gradient_norm', 'max_nfev': 'max_iterations'},
          'L-BFGS-B': {'ftol': 'min_cost_gain', 'gtol': 'min_gradient_norm',
                       'maxiter': 'max_iterations'},
          'Nelder-Mead': {'maxiter': 'max_iterations'}, 'Powell': {}}


def lookup(U, d, k):
    for a, b in unl(d).pairs:
        if a == k:
            return b
    return None


def conditions(U, nm, run, want):
    """The algorithm was given the termination conditions."""
    kw = run.kw
    key = run.name if run.name == 'least_squares' else kw.get('method')
    opts = kw if run.name == 'least_squares' else kw.get('options')
    for a, b in PASSED[key].items():
        if run.name == 'least_squares':
            v = opts.get(a)
        else:
            v = None if opts is None else lookup(U, opts, a)
        if v is None:
            U.struct('%s: %s is given' % (nm, a), False, 'missing')
        else:
            U.eq('%s: %s is the given condition' % (nm, a), v, toP(want[b]) if not isinstance(
                want[b], Num) else pol(want[b]))


def forget(U, o, mark, n, what):
    """The bookkeeping of one evaluation becomes that of n evaluations: every
    number and every list below the optimiser that the evaluation changed.
    Returns {list: element function}."""
    got = {}
    cells = reach(o)
    for (c, key), old in list(modified(mark).items()):
        if c not in cells or old is MISSING:
            continue
        new = c.slots[key]
        if type(new) is int and type(old) is int:
            jset(c, key, Num(n, 'int'))
        elif isinstance(c, LStore) and new[0] == 'items' and len(new[1]) == len(old[1]) + 1 == 1:
            e = unl(new[1][0])
            nm = '%s %d' % (what, len(got))
            f = lambda i, *j, nm=nm: fn(nm, i, *j, sort='r')
            if isinstance(e, Arr):
                l = U.list_of(n, lambda i, f=f, e=e: mkarr(e.shape, lambda *j: f(i, *j), 'f'))
            else:
                l = symlist(n, lambda i, f=f: Num(f(i), 'float'))
            jset(c, 'content', l.content)
            got[c] = f
    return got


def same_state(U, nm, a, b, ignore):
    """All other attributes agree."""
    for k in sorted(set(a.slots) | set(b.slots)):
        if (a, k) in ignore:
            continue
        x, y = unl(a.slots.get(k, MISSING)), unl(b.slots.get(k, MISSING))
        n = '%s: attribute %s' % (nm, k)
        if isinstance(x, Arr) and isinstance(y, Arr):
            U.arr_eq(n, x, y.shape, y.el)
        elif isnum(x) and isnum(y) and not any(isinstance(v, float) for v in (x, y)):
            U.eq(n, x, y)
        elif isinstance(x, DictV) and isinstance(y, DictV):
            U.struct(n, len(x.pairs) == len(y.pairs) and all(
                lookup(U, y, k) is not None and pol(lookup(U, y, k)) == pol(v)
                for k, v in x.pairs))
        elif isinstance(x, Obj) and isinstance(y, Obj) and x.cls is y.cls and x is not y and \
                'Summary' in x.cls.name:
            for z in set(x.slots) | set(y.slots):
                u, v = unl(x.slots.get(z)), unl(y.slots.get(z))
                if (x, z) in ignore or isinstance(u, PList) and u.st in [c for c, _ in ignore]:
                    continue
                U.struct('%s.%s' % (n, z), same_ref(u, v))
        elif isinstance(x, PList) and isinstance(y, PList) and x.items is not None and \
                y.items is not None:
            U.struct(n, len(x.items) == len(y.items) and all(
                same_ref(u, v) or isnum(u) and isnum(v) and pol(u) == pol(v)
                for u, v in zip(x.items, y.items)))
        else:
            U.struct(n, same_ref(x, y) or x == y, '%s and %s' % (describe(x), describe(y)))


@unit('C25', 'any number of evaluations', FS + [O + 'Optimizer.write_state_to_result'], INS +
      '; any number of evaluations before')
def any_history(U):
    for cls in (VECTOR, SCALAR):
        for kind in ('none', 'array'):
            for save in (True, False):
                CTX.push()
                w = World(U)
                weights, wt = w.weights(kind)
                n, m = U.dim('n_eval'), U.dim('n_jac')
                limit = U.real('max_wall_time', positive=True)
                U.assume(ge(limit.p), '')
                nm = '%s, weights %s, saved steps %s' % (cls.split(':')[1], kind, save)
                cond = DictV((('max_wall_time', limit),))

                sim = w.simulator()

                def one(name):
                    o = w.prepared(cls, system_simulator=sim, cost_func_weights=weights, termination_cond=cond,
                                   save_intermediary_steps=save)
                    x = w.flat(name)
                    m1 = len(V.JOURNAL)
                    U.call(o, 'cost_func_wrapper', x)
                    m2 = len(V.JOURNAL)
                    U.call(o, 'cost_jacobian_wrapper', x)
                    return o, x, m1, m2

                def go():
                    o, x, m1, m2 = one('x')
                    ign = set(k for k, v in modified(m1).items() if type(k[0].slots[k[1]]) is int or
                              isinstance(k[0], LStore))
                    got = forget(U, o, m2, m, 'jacobian')
                    got2 = forget(U, o, m1, n, 'evaluation')
                    for c in got:
                        got2.pop(c, None)
                    U.I.setitem(x, Ellipsis, w.flat('z'))
                    c = U.call(o, 'cost_func_wrapper', x)
                    j = U.call(o, 'cost_jacobian_wrapper', x)
                    overwrite(U, x)
                    return o, c, j, got, got2, ign, one('x')[0], one('z')[0]

                def post(r):
                    o, c, j, got, got2, ign, ox, oz = r
                    x, z = w.entry('x'), w.entry('z')
                    w.vector(cls, nm + ': weighted costs', c, z, wt)
                    w.derivative(cls, nm + ': weighted jacobian', j, z, wt)
                    if save:
                        s = U.get(o, 'optim_iter_summary')
                        U.eq(nm + ': number of saved steps', U.get(s, 'iter_num'), n + 1)
                        U.struct(nm + ': lists of saved steps', len(got2) == 2 and len(got) == 1,
                                 '%d and %d' % (len(got2), len(got)))
                        for what, k, g, el, sh in (
                                ('costs', n, got2, lambda j: w.cost(z, j), (w.f,)),
                                ('parameters', n, got2, z, (w.t, w.k)),
                                ('gradients', m, got, lambda t, j, c: w.jac(z, t, j, c),
                                 (w.t, w.f, w.k))):
                            l = unl(U.get(s, what))
                            f = g.get(l.st)
                            U.list_eq('%s: saved %s' % (nm, what), l, k + 1, lambda e, i: U.arr_eq(
                                '%s: saved %s' % (nm, what), e, sh, lambda *a: ite(
                                    eq0(i - k), el(*a), f(i, *a))))
                    nx, nz = w.norm(x), w.norm(z)
                    # what is left of the history is its best evaluation
                    if CTX.entails(ge(nz - nx)):
                        if CTX.entails(ge(nx - nz)):
                            U.record(nm + ': tie', 'open', '', 'tie')
                        same_state(U, nm + ': as after the first alone', o, ox, ign | {(o, k) for (
                            c, k) in ign})
                    else:
                        U.true(nm + ': the second point is better', ge(nx - nz))
                        same_state(U, nm + ': as after the second alone', o, oz, ign)
                    res = U.call(o, 'write_state_to_result')
                    best(w, nm, AsRun(w), res, ['x', 'z'])
                U.run(nm, go, post)
                CTX.pop()


class AsRun:
    def __init__(self, w):
        self.entry = w.entry


CONFIG = [('%s %s' % (c.split(':')[1], m), c, m) for c, m in (
    (VECTOR, 'trf'), (SCALAR, 'L-BFGS-B'), (SCALAR, 'Nelder-Mead'), (SCALAR, 'Powell'))]
FR = [O + x for x in ('Optimizer.__init__', 'Optimizer.prepare_optimization',
                      'Optimizer.cost_func_wrapper', 'Optimizer.cost_jacobian_wrapper',
                      'Optimizer.write_state_to_result', 'LeastSquaresOptimizer.run_optimization',
                      'LeastSquaresOptimizer.__init__', 'ScalarMinimizingOptimizer.__init__',
                      'ScalarMinimizingOptimizer.run_optimization')]


def cond_dict(U, which):
    want = {k: U.real(k) for k in which}
    return DictV(tuple((k, v) for k, v in want.items())), dict(DEFAULTS, **want)


def run_unit(points, variants, history=False):
    def body(U):
        for label, cls, method in CONFIG:
            for v in variants:
                CTX.push()
                v = dict(v)
                w_ = World(U, v.get('stats', False))
                weights, _ = w_.weights(v.get('weights', 'none'))
                nm = label + ''.join(', %s %s' % (a, len(b) if a == 'given' else b)
                                     for a, b in sorted(v.items()))
                cond, want = cond_dict(U, v.get('given', ('max_wall_time',)))
                bounds = None
                if v.get('bounds'):
                    bounds = U.input('bounds', Opaque('bounds', {}))
                store, save = v.get('store', False), v.get('save', True)
                jacobian = v.get('jacobian', True)
                n = U.dim('n_before') if history else None
                run = Run(w_, points, n)
                first = Run(w_, ['u'], None) if v.get('second run') else None
                limit = pol(want['max_wall_time']) if isinstance(want['max_wall_time'], Num) else \
                    toP(want['max_wall_time'])

                def go():
                    w_.now = w_.t0
                    sim = w_.simulator()
                    o = U.I.call(U.cls(cls), [], dict(
                        system_simulator=sim, termination_cond=cond, method=method, bounds=bounds,
                        use_jacobian_function=jacobian, cost_func_weights=weights,
                        store_optimizer=store, save_intermediary_steps=save))
                    run.opt = o
                    # another optimiser with other conditions in between
                    U.I.call(U.cls(cls), [], dict(
                        system_simulator=sim, method=method, termination_cond=DictV(tuple(
                            (k, U.real('other ' + k)) for k in DEFAULTS))))
                    before = None
                    if first is not None:
                        first.install()
                        w_.now = U.real('first start')
                        CTX.assume(ge(limit - (pol(first.T[0]) - pol(w_.now))))
                        before = U.call(o, 'run_optimization', U.arr('p1', w_.t, w_.k, dtype='f'))
                    run.install()
                    w_.now = w_.t0
                    return o, U.call(o, 'run_optimization', w_.pulse), before

                def post(r):
                    o, res, before = r
                    end = run.outcome(limit)
                    if end == 'undecided':
                        return U.record(nm + ': wall time is checked at every evaluation', 'open', '',
                                        path_text())
                    x0 = unl(run.kw['x0'])
                    ts = [T.temp() for _ in range(2)]
                    with CTX.ranges(ts, [w_.t, w_.k]):
                        t, c = [P(a) for a in ts]
                        U.eq(nm + ': start', x0.el(c * w_.t + t), fn('p', t, c, sort='r'))
                    U.struct(nm + ': method', run.kw.get('method') == method)
                    if bounds is not None:
                        U.struct(nm + ': bounds', run.kw.get('bounds') is bounds)
                    conditions(U, nm, run, want)
                    if jacobian and method in ('trf', 'L-BFGS-B'):
                        U.struct(nm + ': jacobian in use', not isinstance(
                            run.kw.get('jac'), (str, type(None))))
                    if not jacobian:
                        U.struct(nm + ': jacobian not in use', isinstance(
                            run.kw.get('jac'), (str, type(None))))
                    U.struct(nm + ': optimiser stored on demand', (
                        U.get(res, 'optimizer') is o) if store else U.get(res, 'optimizer') is None)
                    lb = U.get(res, 'indices')
                    U.list_eq(nm + ': labels', lb, w_.f, lambda s, j: U.struct(
                        nm + ': label', same_ref(s, SStr('label', j)), repr(s)))
                    done = const(len(points) if end is None else end)
                    if history and end != 0:
                        done = done - 1 + n
                    if save:
                        s = U.get(res, 'optim_summary')
                        for what in ('costs', 'parameters'):
                            l = U.get(s, what)
                            U.eq(nm + ': number of saved ' + what, U.length(l), done)
                    if before is not None:
                        s = U.get(before, 'optim_summary')
                        U.eq(nm + ': number of saved steps of the first run', U.length(
                            U.get(s, 'costs')), ONE)
                        U.arr_eq(nm + ': saved point of the first run', U.item(U.get(
                            s, 'parameters'), 0), (w_.t, w_.k), w_.entry('u'))
                        U.arr_eq(nm + ': saved costs of the first run', U.item(U.get(
                            s, 'costs'), 0), (w_.f,), lambda j: w_.cost(w_.entry('u'), j))
                    if w_.stats:
                        st = U.get(res, 'optimization_stats')
                        U.struct(nm + ': start and end time', U.get(st, 'start_t_opt') is not None
                                 and U.get(st, 'end_t_opt') is not None)
                        U.eq(nm + ': start time', U.get(st, 'start_t_opt'), pol(w_.t0))
                    if end is None:
                        fp = U.get(res, 'final_parameters')
                        U.arr_eq(nm + ': final pulse', fp, (w_.t, w_.k), w_.entry('found'))
                        if cls == VECTOR:
                            U.arr_eq(nm + ': final costs', U.get(res, 'final_cost'), (w_.f,),
                                     lambda j: fn('reported', j, sort='r'))
                        else:
                            U.eq(nm + ': final costs', U.get(res, 'final_cost'), var('reported', 'r'))
                        U.eq(nm + ': status', U.get(res, 'status'), var('status'))
                        U.struct(nm + ': reason', same_ref(U.get(res, 'termination_reason'),
                                                           SStr('message')))
                    elif end > 0:
                        best(w_, '%s, ended at %d' % (nm, end), run, res, points[:end])
                U.run(nm, go, post)
                CTX.pop()
    return body


VAR = [dict(), dict(weights='list', store=True, given=tuple(DEFAULTS)),
       dict(weights='array', save=False, stats=True, given=('min_cost_gain',), jacobian=False),
       dict(bounds=True, stats=True)]
unit('C26', 'runs', FR, INS + '; wall time exceeded at any of two evaluations or never')(
    run_unit(['x0', 'z'], VAR))
unit('C26', 'runs of any length', FR, INS + '; any number of evaluations, wall time exceeded at '
     'any of them or never')(run_unit(['x', 'z', 'v'], VAR[:2], True))
unit('C26', 'second run of an optimiser', FR, INS)(
    run_unit(['x0', 'z'], [{'second run': True}, {'second run': True, 'weights': 'list'}]))
# what is left of a history is its best evaluation
unit('C26', 'any number of evaluations', FS + [O + 'Optimizer.write_state_to_result'], INS +
     '; any number of evaluations before')(any_history)


# ------------------------------------------------------------------ annealing
def annealer_stubs(U, steps=None):
    """Contract of simanneal.Annealer: keeps a copy of the initial state, changes
    it only through move, evaluates it through energy."""
    deep = U.I.stubs['copy.deepcopy']

    def init(I, a, kw):
        a = list(a)
        st = kw['initial_state'] if 'initial_state' in kw else a[1]
        I.setattr(a[0], 'state', deep(I, [st], {}))

    def reach(I, o, nm):
        """Any number of moves (contract of move, unit moves): another array of integers
        of the same shape."""
        old = unl(I.getattr(o, 'state'))
        I.setattr(o, 'state', mkarr(old.shape, lambda *i: ifn(nm, *i), 'i'))

    def anneal(I, a, kw):
        o = a[0]
        if steps == 'any':
            e = U.call(o, 'energy')
            reach(I, o, 'best')
            best, e = deep(I, [I.getattr(o, 'state')], {}), U.call(o, 'energy')
            reach(I, o, 'last')
            U.call(o, 'energy')
            I.setattr(o, 'state', deep(I, [best], {}))
            return plist([best, e], True)
        best, e = deep(I, [I.getattr(o, 'state')], {}), U.call(o, 'energy')
        for q in range(steps or 0):
            U.call(o, 'move')
            n = U.call(o, 'energy')
            if I.branch(ge(var('accepted %d' % q) - 1)):
                best, e = deep(I, [I.getattr(o, 'state')], {}), n
        I.setattr(o, 'state', deep(I, [best], {}))
        return plist([best, e], True)
    U.I.stubs['simanneal.Annealer.__init__'] = init
    U.I.stubs['simanneal.Annealer.anneal'] = anneal


def ifn(*a):
    return fn(*a, sort='i')


def clip(x, lo, hi):
    return ite(ge(lo - x - 1), lo, ite(ge(x - hi - 1), hi, x))


@unit('C29', 'moves', [O + 'PulseAnnealer.move', O + 'PulseAnnealer.__init__'],
      'any integer pulse within any integer bounds, any step size, ratio and random draws; '
      'inductive: any number of moves')
def _(U):
    U.I.stubs = dict(U.I.stubs)
    annealer_stubs(U)
    for kind in ('i', 'f'):
        for how in ('array', 'list'):
            for setup in ('constructor', 'state'):
                CTX.push()
                t, k = U.dim('n_t'), U.dim('n_par')
                step = U.dim('step')
                ratio = U.real('ratio')
                nm = 'values of kind %s, bounds as %s, state from %s' % (kind, how, setup)
                p = lambda a, b: clip(ifn('p', a, b), ifn('lo', a, b), hi(a, b))
                # lower bound, upper bound not below it, pulse in between
                hi = lambda a, b: ite(ge(ifn('hi', a, b) - ifn('lo', a, b)), ifn('hi', a, b),
                                      ifn('lo', a, b))
                pulse = U.input('pulse', mkarr((t, k), p, kind))
                if how == 'array':
                    bounds = mkarr((2, t, k), lambda s, a, b: ite(eq0(s), ifn('lo', a, b), hi(a, b)),
                                   kind)
                else:
                    bounds = plist([U.arr('lo', t, k, dtype='i'), mkarr((t, k), hi, 'i')])
                bounds = U.input('bounds', bounds)

                def go():
                    a = U.I.call(U.cls(O + 'PulseAnnealer'), [], dict(
                        initial_state=pulse if setup == 'constructor' else 0, bounds=bounds,
                        energy_function=None, step_size=num(step, 'int'), step_ratio=ratio,
                        Tmax=1., Tmin=.1, steps=1, updates=0))
                    if setup == 'state':
                        U.I.setattr(a, 'state', pulse)
                    old = U.get(a, 'state')
                    U.call(a, 'move')
                    return old, U.get(a, 'state')

                def post(r):
                    old, new = unl(r[0]), unl(r[1])
                    U.arr_eq(nm + ': previous state', old, (t, k), p)
                    U.arr_eq(nm + ': shape', new, (t, k), new.el)
                    U.struct(nm + ': new state', new.buf is not old.buf)
                    ts = [T.temp() for _ in range(2)]
                    with CTX.ranges(ts, [t, k]):
                        i = [P(x) for x in ts]
                        d = new.el(*i) - p(*i)
                        U.true(nm + ': at most one step up', ge(step - d))
                        U.true(nm + ': at most one step down', ge(step + d))
                        U.true(nm + ': above the lower bound', ge(new.el(*i) - ifn('lo', *i)))
                        U.true(nm + ': below the upper bound', ge(hi(*i) - new.el(*i)))
                        U.struct(nm + ': integer steps', new.el(*i).is_int())
                U.run(nm, go, post)
                CTX.pop()


FA = [O + x for x in ('SimulatedAnnealing.__init__', 'SimulatedAnnealing.prepare_optimization',
                      'SimulatedAnnealing.run_optimization', 'PulseAnnealer.energy',
                      'PulseAnnealer.__init__', 'PulseAnnealer.move',
                      'Optimizer.cost_func_wrapper')]


def annealing(U, w, kw):
    k = lambda a, b: ifn('p', a, b)
    pulse = U.input('pulse', mkarr((w.t, w.k), k, 'i'))
    lo = lambda s, a, b: ite(eq0(s), k(a, b) - ifn('below', a, b) ** 2,
                             k(a, b) + ifn('above', a, b) ** 2)
    bounds = U.input('bounds', mkarr((2, w.t, w.k), lo, 'i'))
    return pulse, k, lambda: U.I.call(U.cls(O + 'SimulatedAnnealing'), [], dict(dict(
        system_simulator=w.simulator(), bounds=bounds), **kw))


@unit('C29', 'energy', FA, INS + '; any state')
def _(U):
    for seq in (0, 1):
        for how in ('prepared', 'moved', 'state set'):
            CTX.push()
            w = World(U, stats=bool(seq))
            annealer_stubs(U)
            pulse, k, make = annealing(U, w, dict(step_size=num(U.dim('step'), 'int')))
            nm = 'energy, %s, statistics %s' % (how, bool(seq))

            def go():
                o = make()
                U.call(o, 'prepare_optimization', pulse)
                a = U.get(o, 'annealer')
                if how == 'moved':
                    U.call(a, 'move')
                if how == 'state set':
                    U.I.setattr(a, 'state', mkarr((w.t, w.k), lambda *i: ifn('q', *i), 'i'))
                s = unl(U.get(a, 'state'))
                e = U.call(a, 'energy')
                # a second evaluation of the same state
                return s, e, U.call(a, 'energy'), unl(U.get(a, 'state'))

            def post(r):
                s, e, e2, s2 = r
                for x in (e, e2):
                    U.eq(nm + ': norm of the costs of the current state', x, w.norm(
                        lambda t, c: s.el(t, c)))
                U.arr_eq(nm + ': state kept', s2, (w.t, w.k), s.el)
            U.run(nm, go, post)
            CTX.pop()


def annealing_run(U):
    for steps in (0, 1, 'any'):
        for kw in (dict(), dict(store_optimizer=True)):
            for stats in (False, True):
                CTX.push()
                w = World(U, stats)
                annealer_stubs(U, steps)
                pulse, k, make = annealing(U, w, dict(kw, step_size=num(U.dim('step'), 'int')))
                nm = '%s moves, %s, statistics %s' % (steps, sorted(kw), stats)

                def go():
                    o = make()
                    return o, U.call(o, 'run_optimization', pulse)

                def post(r):
                    o, res = r
                    p = unl(U.get(res, 'final_parameters'))
                    U.arr_eq(nm + ': layout', p, (w.t, w.k), p.el)
                    if steps == 0:
                        U.arr_eq(nm + ': pulse', p, (w.t, w.k), k)
                    U.eq(nm + ': costs of the reported pulse', U.get(res, 'final_cost'),
                         w.norm(p.el))
                    U.arr_eq(nm + ': reported pulse is the state', U.get(U.get(
                        o, 'annealer'), 'state'), (w.t, w.k), p.el)
                    U.struct(nm + ': optimiser stored on demand', (
                        U.get(res, 'optimizer') is o) if kw else U.get(res, 'optimizer') is None)
                    U.list_eq(nm + ': labels', U.get(res, 'indices'), w.f, lambda s, j: U.struct(
                        nm + ': label', same_ref(s, SStr('label', j)), repr(s)))
                    if stats:
                        st = U.get(res, 'optimization_stats')
                        U.struct(nm + ': times', U.get(st, 'start_t_opt') is not None and
                                 U.get(st, 'end_t_opt') is not None)
                U.run(nm, go, post)
                CTX.pop()


unit('C26', 'annealing', FA, INS + '; any number of moves, by the contract of move')(annealing_run)
unit('C29', 'annealing', FA, INS + '; any number of moves, by the contract of move'
     )(annealing_run)
