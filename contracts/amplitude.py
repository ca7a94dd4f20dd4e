"""C18: contracts of qopt.amplitude_functions."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from contracts.matrix import total

A = 'qopt.amplitude_functions:'
INS = 'any number of steps, parameters, amplitudes and cost functions'


def setup(U, amps=True):
    n, p, f = U.dim('n_t'), U.dim('n_par'), U.dim('n_cost')
    k = U.dim('n_amp') if amps else p
    x = U.input('x', U.arr('x', n, p, dtype='f'))
    g = U.input('derivatives', U.arr('g', n, f, k, dtype='f'))
    return n, p, f, k, x, g


def both(U, make, x, g):
    """Values and derivatives of the same instance, in this order and reversed."""
    def go():
        a = make()
        v = U.call(a, '__call__', x)
        return v, U.call(a, 'derivative_by_chain_rule', g, x)

    def rev():
        a = make()
        d = U.call(a, 'derivative_by_chain_rule', g, x)
        return U.call(a, '__call__', x), d

    def kw():
        a = make()
        return U.call(a, '__call__', x), U.call(a, 'derivative_by_chain_rule',
                                                deriv_by_ctrl_amps=g, x=x)
    return (('', go), (', derivatives first', rev), (', by keyword', kw))


@unit('C18', 'custom functions', [A + 'CustomAmpFunc.' + m for m in (
    '__init__', '__call__', 'derivative_by_chain_rule')],
    INS + '; any value function and derivative function')
def _(U):
    n, p, f, k, x, g = setup(U)
    xe, ge_ = x.el, g.el

    def lam(el):
        t, m = T.temp(), T.temp()
        with CTX.ranges([t, m], [n, p]):
            return Lam([n, p], [t, m], el(P(t), P(m)))

    def lamfun(*a):
        from pyvc.npstub import lamfun as f
        return f(*a)
    value = Native('value', lambda I, a, kw: mkarr((n, k), lambda t, j: lamfun(
        'u', 'r', [lam(I.unlazy(a[0]).el)], t, j), 'f'))
    deriv = Native('derivative', lambda I, a, kw: mkarr((n, p, k), lambda t, m, j: lamfun(
        'du', 'r', [lam(I.unlazy(a[0]).el)], t, m, j), 'f'))
    l = lam(xe)
    for nm, go in both(U, lambda: U.I.call(U.cls(A + 'CustomAmpFunc'), [value, deriv], {}), x, g):
        U.run('custom' + nm, go, lambda r: (
            U.arr_eq('values' + nm, r[0], (n, k), lambda t, j: lamfun('u', 'r', [l], t, j)),
            U.arr_eq('derivatives' + nm, r[1], (n, f, p), lambda t, c, m: total(
                k, lambda j: lamfun('du', 'r', [l], t, m, j) * ge_(t, c, j)))))


@unit('C18', 'unary functions and identity', [A + c + m for c in (
    'UnaryAnalyticAmpFunc.', 'IdentityAmpFunc.') for m in (
    '__init__', '__call__', 'derivative_by_chain_rule')],
    INS + '; any scalar function and derivative')
def _(U):
    n, p, f, k, x, g = setup(U, False)
    xe, ge_ = x.el, g.el
    for ty in ('float', 'np.float64'):
        value = Native('value', lambda I, a, kw: Num(fn('v', pol(a[0]), sort='r'), ty))
        deriv = Native('derivative', lambda I, a, kw: Num(fn('dv', pol(a[0]), sort='r'), ty))
        for nm, go in both(U, lambda: U.I.call(U.cls(A + 'UnaryAnalyticAmpFunc'),
                                               [value, deriv], {}), x, g):
            U.run('unary' + nm, go, lambda r: (
                U.arr_eq('values' + nm, r[0], (n, p), lambda t, j: fn('v', xe(t, j), sort='r')),
                U.arr_eq('derivatives' + nm, r[1], (n, f, p), lambda t, c, m: fn(
                    'dv', xe(t, m), sort='r') * ge_(t, c, m))))
    for nm, go in both(U, lambda: U.I.call(U.cls(A + 'IdentityAmpFunc'), [], {}), x, g):
        U.run('identity' + nm, go, lambda r: (
            U.arr_eq('identity: values' + nm, r[0], (n, p), xe),
            U.arr_eq('identity: derivatives' + nm, r[1], (n, f, p), ge_)))


@unit('C18', 'functions that return integers in places', [A + 'UnaryAnalyticAmpFunc.__call__'],
      INS + '; a value function with integer and float branches')
def _(U):
    n, p, f, k, x, g = setup(U, False)
    xe, ge_ = x.el, g.el

    def piece(I, a, kw):
        v = pol(a[0])
        if I.branch(ge(v)):
            return Num(v * v, 'float')
        return 1
    fun = Native('piecewise', piece)
    want = lambda v: ite(ge(v), v * v, ONE)
    for nm, go in both(U, lambda: U.I.call(U.cls(A + 'UnaryAnalyticAmpFunc'), [fun, fun], {}), x, g):
        U.run('piecewise' + nm, go, lambda r: (
            U.arr_eq('values' + nm, r[0], (n, p), lambda t, j: want(xe(t, j))),
            U.arr_eq('derivatives' + nm, r[1], (n, f, p), lambda t, c, m: want(
                xe(t, m)) * ge_(t, c, m))))


REUSE = """
def reuse(a, g, x, dx):
    a(x)
    a.derivative_by_chain_rule(g, x)
    x += dx
    d = a.derivative_by_chain_rule(g, x)
    v = a(x)
    g += 1
    return v, d, a(x), a.derivative_by_chain_rule(g, x)
"""


@unit('C18', 'reused after changes in place', [A + c + m for c in (
    'UnaryAnalyticAmpFunc.', 'IdentityAmpFunc.', 'CustomAmpFunc.') for m in (
    '__call__', 'derivative_by_chain_rule')],
    INS + '; the arrays of the first call are changed in place before the second one')
def _(U):
    U.source('history', REUSE)
    n, p, f, k, x, g = setup(U, False)
    dx = U.arr('dx', n, p, dtype='f')
    xe, ge_, de = x.el, g.el, dx.el
    new = lambda t, j: xe(t, j) + de(t, j)
    value = Native('value', lambda I, a, kw: Num(fn('v', pol(a[0]), sort='r'), 'float'))
    deriv = Native('derivative', lambda I, a, kw: Num(fn('dv', pol(a[0]), sort='r'), 'float'))

    def arrays(nm):
        l = lambda I, a: I.unlazy(a[0])

        def call(I, a, kw):
            e = l(I, a).el
            r = (lambda t, j: fn('v', e(t, j), sort='r')) if nm == 'v' else (
                lambda t, i, j: fn('dv', e(t, j), sort='r') * eq0(i - j))
            return mkarr((n, p) if nm == 'v' else (n, p, p), r, 'f')
        return Native(nm, call)
    for cls, args in (('UnaryAnalyticAmpFunc', [value, deriv]), ('IdentityAmpFunc', []),
                      ('CustomAmpFunc', [arrays('v'), arrays('dv')])):
        ident = cls == 'IdentityAmpFunc'
        v = (lambda e: e) if ident else (lambda e: fn('v', e, sort='r'))
        d = (lambda e: ONE) if ident else (lambda e: fn('dv', e, sort='r'))

        def go():
            return U.I.call(U.mod('history').env.slots['reuse'], [
                U.I.call(U.cls(A + cls), list(args), {}), g.copy(), x.copy(), dx], {})

        def post(r):
            v1, d1, v2, d2 = [unl(e) for e in U.I.concrete(r)]
            for q, e in enumerate((v1, v2)):
                U.arr_eq('%s: values after change %d' % (cls, q), e, (n, p),
                         lambda t, j: v(new(t, j)))
            for q, e in enumerate((d1, d2)):
                if ident and q == 0:
                    # the identity hands its argument through, which is changed afterwards
                    continue
                U.arr_eq('%s: derivatives after change %d' % (cls, q), e, (n, f, p),
                         lambda t, c, m: d(new(t, m)) * (ge_(t, c, m) + q))
        U.run(cls, go, post)
