"""C09-C13: contracts of qopt.matrix."""
import ast

from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from pyvc.npstub import lamfun

MI = -P(T.IM)
ADD, SUB, MUL, DIV = ast.Add(), ast.Sub(), ast.Mult(), ast.Div()
D = 'qopt.matrix:DenseOperator.'
ANY = 'operators of any size with arbitrary complex entries'


def total(n, f):
    """sum_{k<n} f(k)"""
    t = T.temp()
    with CTX.ranges([t], [toP(n)]):
        b = f(P(t))
    return T.Sum(t, toP(n), b)


def a_(x):
    """Element function of an array or operator captured before a call."""
    if isinstance(x, Arr):
        s = x.copy()
        return s.el
    raise TypeError(x)


# ------------------------------------------------------------------ C09
OPS = {'add': (ADD, 'is the sum'), 'sub': (SUB, 'is the difference'), 'mul': (MUL, 'is the product'),
       'div': (DIV, 'is the quotient')}


def operand(U, kind, n, m):
    if kind == 'op':
        return U.op('B', n, m)
    if kind == 'arr':
        return U.arr('B', n, m)
    if kind == 'realarr':
        return U.arr('B', n, m, dtype='f')
    return {'int': lambda: Num(var('s', 'i'), 'int'), 'float': lambda: U.real('s'),
            'complex': lambda: U.cplx('s'), 'np.float64': lambda: Num(var('s', 'r'), 'np.float64'),
            'np.complex128': lambda: Num(var('s', 'c'), 'np.complex128'),
            'np.int64': lambda: Num(var('s', 'i'), 'np.int64')}[kind]()


SCALARS = ['int', 'float', 'complex', 'np.float64', 'np.complex128', 'np.int64']


def elf(U, x):
    """Element function of an operand (value at this moment)."""
    if isinstance(x, Obj):
        return a_(U.data(x))
    if isinstance(x, Arr):
        return a_(x)
    return lambda *i: pol(x)


def spec(op, A, B, k, scalar):
    if op == 'add':
        return lambda i, j: A(i, j) + B(i, j)
    if op == 'sub':
        return lambda i, j: A(i, j) - B(i, j)
    if op == 'mul':
        if scalar:
            return lambda i, j: A(i, j) * B(i, j)
        return lambda i, j: total(k, lambda l: A(i, l) * B(l, j))
    return lambda i, j: A(i, j) * T.inv(B(i, j))


@unit('C09', 'binary operators', [D + '__add__', D + '__sub__', D + '__mul__', D + '__truediv__',
                                  D + '__rmul__', D + 'copy', D + '__init__'], ANY)
def _(U):
    n, m, k = U.dim('n'), U.dim('m'), U.dim('k')
    for op, (o, text) in OPS.items():
        for kind in ['op', 'arr', 'realarr'] + SCALARS:
            if op == 'div' and kind == 'op':
                continue
            scalar = kind in SCALARS
            A = U.input('left operand', U.op('A', n, m))
            sh = (m, k) if op == 'mul' else (n, m)
            B = U.input('right operand', operand(U, kind, *sh))
            f = spec(op, elf(U, A), elf(U, B), m, scalar)
            rs = (n, k) if op == 'mul' and not scalar else (n, m)

            def post(r, f=f, rs=rs, text=text, kind=kind):
                U.op_eq('operator %s %s %s' % (op, kind, text), r, rs, f)
                U.fresh('%s %s: result shares no memory with the operands' % (op, kind), r)
            U.run('%s with %s' % (op, kind), lambda: U.I.binop(o, A, B), post)
    for kind in SCALARS:
        A = U.input('right operand', U.op('A', n, m))
        s = operand(U, kind, 0, 0)
        f = spec('mul', elf(U, A), elf(U, s), m, True)

        def post(r, f=f):
            U.op_eq('%s * operator is the product' % kind, r, (n, m), f)
            U.fresh('%s * operator: result is fresh' % kind, r)
        U.run('%s * operator' % kind, lambda: U.I.binop(MUL, s, A), post)


@unit('C09', 'in-place operators', [D + '__iadd__', D + '__isub__', D + '__imul__',
                                    D + '__itruediv__'], ANY)
def _(U):
    n, m = U.dim('n'), U.dim('m')
    for op, (o, text) in OPS.items():
        for kind in ['op', 'arr', 'realarr'] + SCALARS:
            if op == 'div' and kind == 'op':
                continue
            scalar = kind in SCALARS
            A = U.op('A', n, m)
            sh = (m, m) if op == 'mul' else (n, m)
            B = U.input('right operand', operand(U, kind, *sh))
            f = spec(op, elf(U, A), elf(U, B), m, scalar)

            def post(r, f=f, A=A, text=text, kind=kind):
                U.struct('%s= %s stores into the left operand' % (op, kind), r is A)
                U.op_eq('operator %s= %s %s' % (op, kind, text), A, (n, m), f)
                U.fresh('%s= %s: right operand is not shared' % (op, kind), A)
            U.run('%s= with %s' % (op, kind), lambda: U.I.iop(o, A, B), post)


@unit('C09', 'operand shared with the left operand', [D + '__iadd__', D + '__isub__',
                                                      D + '__imul__'], ANY)
def _(U):
    n = U.dim('n')
    for op in ('add', 'sub', 'mul'):
        A = U.op('A', n, n)
        a = elf(U, A)
        f = spec(op, a, a, n, False)
        U.run(op, lambda: U.I.iop(OPS[op][0], A, A),
              lambda r: U.op_eq('operator %s= itself' % op, r, (n, n), f))
        A = U.input('operand', U.op('A', n, n))
        a = elf(U, A)
        f = spec(op, a, a, n, False)
        U.run(op, lambda: U.I.binop(OPS[op][0], A, A),
              lambda r: U.op_eq('operator %s itself' % op, r, (n, n), f))


@unit('C09', 'unsupported operands are rejected', [D + '__add__', D + '__sub__', D + '__mul__',
                                                   D + '__truediv__', D + '__rmul__'], ANY)
def _(U):
    n, m = U.dim('n'), U.dim('m')
    for nm, bad in [('string', 'x'), ('None', None), ('list', plist([1, 2])),
                    ('dict', DictV())]:
        for op, (o, _) in OPS.items():
            A = U.input('left operand', U.op('A', n, m))
            U.must_raise('operator %s %s' % (op, nm), lambda: U.I.binop(o, A, bad))
            U.must_raise('operator %s= %s' % (op, nm), lambda: U.I.iop(o, A, bad))
    A, B = U.op('A', n, m), U.op('B', n, m)
    U.must_raise('operator / operator', lambda: U.I.binop(DIV, A, B))


@unit('C09', 'item access, copy and constructor', [D + '__getitem__', D + '__setitem__',
                                                   D + 'copy', D + '__init__'], ANY)
def _(U):
    n, m = U.dim('n'), U.dim('m')
    A = U.op('A', n, m)
    a = elf(U, A)
    i, j = U.index('i', n), U.index('j', m)
    s = U.cplx('s')
    ij = plist([num(i, 'int'), num(j, 'int')], True)
    U.run('A[i, j]', lambda: U.I.getitem(A, ij), lambda r: U.eq('element', r, a(i, j)))

    def put():
        U.I.setitem(A, ij, s)
        return A
    U.run('A[i, j] = s', put, lambda r: U.op_eq(
        'exactly this element is set', A, (n, m),
        lambda x, y: T.ite(eq0(x - i) * eq0(y - j), pol(s), a(x, y))))
    B = U.input('operator', U.op('A', n, m))
    U.run('copy', lambda: U.call(B, 'copy'), lambda r: (
        U.op_eq('copy has the same entries', r, (n, m), a), U.fresh('copy shares nothing', r)))
    C = U.cls('qopt.matrix:DenseOperator')
    for dt in 'fi':
        x = U.input('array', U.arr('X', n, m, dtype=dt))
        f = elf(U, x)
        U.run('constructor', lambda: U.I.call(C, [x], {}), lambda r: U.op_eq(
            'constructor keeps the entries', r, (n, m), f))
    U.run('constructor of an operator', lambda: U.I.call(C, [B], {}), lambda r: U.op_eq(
        'constructor keeps the entries of an operator', r, (n, m), a))
    U.must_raise('constructor of a string', lambda: U.I.call(C, ['abc'], {}))
    U.run('shape', lambda: U.get(B, 'shape'), lambda r: (
        U.eq('rows', U.item(r, 0), n), U.eq('columns', U.item(r, 1), m)))


# ------------------------------------------------------------------ C10
@unit('C10', 'adjoint, conjugate, transpose', [D + 'dag', D + 'conj', D + 'conjugate',
                                               D + 'transpose'], ANY)
def _(U):
    n, m = U.dim('n'), U.dim('m')
    S = {'dag': ((m, n), lambda a: lambda i, j: T.conj(a(j, i))),
         'conj': ((n, m), lambda a: lambda i, j: T.conj(a(i, j))),
         'conjugate': ((n, m), lambda a: lambda i, j: T.conj(a(i, j))),
         'transpose': ((m, n), lambda a: lambda i, j: a(j, i))}
    for name, (shp, g) in S.items():
        for kw in ({}, dict(do_copy=True)):
            A = U.input('operator', U.op('A', n, m))
            f = g(elf(U, A))

            def post(r):
                U.op_eq('%s(%s) has the entries' % (name, kw), r, shp, f)
                U.fresh('%s(%s): result is independent of the operand' % (name, kw), r)
            U.run(name, lambda: U.call(A, name, **kw), post)
        A = U.op('A', n, m)
        f = g(elf(U, A))

        def post2(r):
            U.op_eq('%s(do_copy=False): result' % name, r, shp, f)
            U.op_eq('%s(do_copy=False): operand takes the value' % name, A, shp, f)
        U.run(name + ' in place', lambda: U.call(A, name, do_copy=False), post2)


@unit('C10', 'Kronecker product', [D + 'kron'], ANY)
def _(U):
    n, m, p, q = U.dim('n'), U.dim('m'), U.dim('p'), U.dim('q')
    for kind in ('op', 'arr'):
        A = U.input('left', U.op('A', n, m))
        B = U.input('right', operand(U, kind, p, q))
        a, b = elf(U, A), elf(U, B)

        def post(r):
            d = U.data(r)
            U.arr_eq('shape and entries [i*p+k, j*q+l]', d, (n * p, m * q), lambda x, y:
                     a(T.fdiv(x, p), T.fdiv(y, q)) * b(T.mod(x, p), T.mod(y, q)))
            i, k, j, l = [P(T.temp()) for _ in range(4)]
            with CTX.ranges([i.single(), k.single(), j.single(), l.single()], [n, p, m, q]):
                U.eq('entry [i*p+k, j*q+l] is A[i,j]B[k,l] (%s)' % kind,
                     d.el(i * p + k, j * q + l), a(i, j) * b(k, l))
            U.fresh('result is fresh', r)
        U.run('kron with ' + kind, lambda: U.call(A, 'kron', B), post)
    A = U.op('A', n, m)
    U.must_raise('kron with a scalar', lambda: U.call(A, 'kron', 3))


@unit('C10', 'trace, identity, norm, flatten', [D + 'tr', D + 'identity_like', D + 'norm',
                                                D + 'flatten'], ANY)
def _(U):
    n, m = U.dim('n'), U.dim('m')
    A = U.input('operator', U.op('A', n, n))
    a = elf(U, A)
    U.run('trace', lambda: U.call(A, 'tr'),
          lambda r: U.eq('trace is the sum of the diagonal', r, total(n, lambda i: a(i, i))))
    U.run('identity', lambda: U.call(A, 'identity_like'), lambda r: (
        U.op_eq('identity of the same dimension', r, (n, n), lambda i, j: eq0(i - j)),
        U.fresh('identity is fresh', r)))
    B = U.input('operator', U.op('A', n, m))
    b = elf(U, B)
    U.run('norm', lambda: U.call(B, 'norm'), lambda r: U.eq(
        'Frobenius norm squared', pol(r) * pol(r),
        total(n, lambda i: total(m, lambda j: b(i, j) * T.conj(b(i, j))))))
    U.run('flatten', lambda: U.call(B, 'flatten'), lambda r: U.arr_eq(
        'flatten reads row by row', r, (n * m,), lambda x: b(T.fdiv(x, m), T.mod(x, m))))
    C = U.op('A', n, m)
    U.assume(Not(eq0(n - m)))
    U.must_raise('identity of a rectangular operator', lambda: U.call(C, 'identity_like'))


@unit('C10', 'Pauli operators', ['qopt.matrix:OperatorMatrix.pauli_' + x for x in '0xyzmp'],
      'all')
def _(U):
    C = U.cls('qopt.matrix:DenseOperator')
    V_ = {'pauli_0': [1, 0, 0, 1], 'pauli_x': [0, 1, 1, 0], 'pauli_y': [0, -1j, 1j, 0],
          'pauli_z': [1, 0, 0, -1], 'pauli_m': [0, 0, 1, 0], 'pauli_p': [0, 1, 0, 0]}
    for n, v in V_.items():
        U.run(n, lambda: U.call(C, n), lambda r: [U.eq(
            '%s[%d,%d]' % (n, i, j), U.data(r).el(const(i), const(j)), toP(v[2 * i + j]))
            for i in range(2) for j in range(2)])


# ------------------------------------------------------------------ C12
@unit('C12', 'vectorisation', ['qopt.matrix:ket_vectorize_density_matrix',
                               'qopt.matrix:convert_ket_vectorized_density_matrix_to_square'],
      'square matrices of any size, as operator and as array')
def _(U):
    d = U.dim('d')
    M = U.mod('qopt.matrix').env.slots
    for kind in ('op', 'arr'):
        A = U.input('matrix', operand(U, kind, d, d))
        a = elf(U, A)
        vec = M['ket_vectorize_density_matrix']
        sq = M['convert_ket_vectorized_density_matrix_to_square']
        get = (lambda r: U.data(r)) if kind == 'op' else (lambda r: r)

        def post(r):
            i, j = P(T.temp()), P(T.temp())
            x = get(r)
            U.arr_eq('column vector of length d*d (%s)' % kind, x, (d * d, 1),
                     lambda k, z: a(T.mod(k, d), T.fdiv(k, d)))
            with CTX.ranges([i.single(), j.single()], [d, d]):
                U.eq('entry i+d*j is A[i,j] (%s)' % kind, x.el(i + d * j, ZERO), a(i, j))
        U.run('vectorise ' + kind, lambda: U.I.call(vec, [A], {}), post)

        def both():
            return U.I.call(sq, [U.I.call(vec, [A], {})], {})
        U.run('back and forth ' + kind, both, lambda r: U.arr_eq(
            'converting back returns the matrix (%s)' % kind, get(r), (d, d), a))
    n = U.dim('n')
    U.assume(Not(eq0(n - d)))
    for kind in ('op', 'arr'):
        B = operand(U, kind, n, d)
        U.must_raise('not square (%s)' % kind, lambda: U.I.call(vec, [B], {}))


@unit('C12', 'super operator', ['qopt.matrix:convert_unitary_to_super_operator'],
      'square matrices of any size, as operator and as array')
def _(U):
    d = U.dim('d')
    M = U.mod('qopt.matrix').env.slots
    f = M['convert_unitary_to_super_operator']
    vec = M['ket_vectorize_density_matrix']
    for kind in ('op', 'arr'):
        A = U.input('unitary', operand(U, kind, d, d))
        R = U.input('rho', U.op('R', d, d) if kind == 'op' else U.arr('R', d, d))
        a, r_ = elf(U, A), elf(U, R)
        get = (lambda r: U.data(r)) if kind == 'op' else (lambda r: r)

        def go():
            S = U.I.call(f, [A], {})
            v = U.I.call(vec, [R], {})
            return plist([S, U.I.binop(MUL if kind == 'op' else ast.MatMult(), S, v)], True)

        def post(r):
            S, v = U.item(r, 0), U.item(r, 1)
            U.arr_eq('entries of the super operator (%s)' % kind, get(S), (d * d, d * d),
                     lambda x, y: T.conj(a(T.fdiv(x, d), T.fdiv(y, d))) *
                     a(T.mod(x, d), T.mod(y, d)))
            i, j = P(T.temp()), P(T.temp())
            with CTX.ranges([i.single(), j.single()], [d, d]):
                U.eq('S vec(rho) = vec(U rho U^dag) (%s)' % kind, get(v).el(i + d * j, ZERO),
                     total(d, lambda k: total(d, lambda l: a(i, k) * r_(k, l) *
                                              T.conj(a(j, l)))))
            U.fresh('super operator is fresh', S)
        U.run('super operator ' + kind, go, post)
    U.must_raise('super operator of a string', lambda: U.I.call(f, ['x'], {}))


# ------------------------------------------------------------------ C11
def ptrace_spec(a, dims, remove):
    """Entries of the partial trace over the subsystems in remove."""
    keep = [q for q in range(len(dims)) if q not in remove]

    def flat(ix):
        r = ZERO
        for q, d in enumerate(dims):
            r = r * d + ix[q]
        return r

    def f(x, y):
        ix, iy = {}, {}
        for q in reversed(keep):
            if q == keep[0]:
                ix[q], iy[q] = x, y
            else:
                ix[q], iy[q] = T.mod(x, dims[q]), T.mod(y, dims[q])
                x, y = T.fdiv(x, dims[q]), T.fdiv(y, dims[q])

        def rec(rest):
            if not rest:
                return a(flat(ix), flat(iy))
            q = rest[0]

            def g(k):
                ix[q] = iy[q] = k
                return rec(rest[1:])
            return total(dims[q], g)
        return rec(list(remove))
    n = ONE
    for q in keep:
        n = n * dims[q]
    return n, f


def _ptrace(U, sizes, ket, only=None):
    for n in sizes:
        dims = [U.dim('d%d' % q) for q in range(n)]
        N = ONE
        for d in dims:
            N = N * d
        subsets = [s for s in itertools.chain.from_iterable(
            itertools.combinations(range(n), k) for k in range(0, n))]
        for rm in subsets:
            if only is not None and len(rm) != only:
                continue
            for order in ([list(rm)] if len(rm) < 2 else [list(rm), list(rm)[::-1]]):
                A = U.input('operator', U.op('A', N, ONE if ket else N))
                CTX.push()
                U.I_assume(ge(N - 2))
                a0 = elf(U, A)
                a = (lambda i, j: a0(i, ZERO) * T.conj(a0(j, ZERO))) if ket else a0
                m, f = ptrace_spec(a, dims, list(rm))
                dl = U.input('dims', plist([num(d, 'int') for d in dims]))
                rl = U.input('remove', plist(order))
                nm = '%d subsystems, remove %s%s' % (n, order, ', ket' if ket else '')

                def post(r):
                    # entries indexed by the remaining subsystems
                    d = U.data(r)
                    keep = [q for q in range(n) if q not in rm]
                    ts = [P(T.temp()) for _ in keep]
                    us = [P(T.temp()) for _ in keep]
                    with CTX.ranges([t.single() for t in ts + us],
                                    [dims[q] for q in keep] * 2):
                        x = y = ZERO
                        for q, t, u in zip(keep, ts, us):
                            x, y = x * dims[q] + t, y * dims[q] + u
                        U.struct(nm + ': matrix', isinstance(d, Arr) and d.ndim == 2)
                        U.eq(nm + ': rows', d.shape[0], m)
                        U.eq(nm + ': columns', d.shape[1], m)
                        U.eq(nm + ': entries', d.el(x, y), sum_spec(a, dims, rm, keep, ts, us))
                    U.fresh(nm + ': result is fresh', r)
                U.run(nm, lambda: U.call(A, 'ptrace', dl, rl), post)
                CTX.pop()


def sum_spec(a, dims, rm, keep, ts, us):
    def rec(rest, ix, iy):
        if not rest:
            x = y = ZERO
            for q, d in enumerate(dims):
                x, y = x * d + ix[q], y * d + iy[q]
            return a(x, y)
        q = rest[0]
        return total(dims[q], lambda k: rec(rest[1:], dict(ix, **{q: k}) if False else
                                            {**ix, q: k}, {**iy, q: k}))
    return rec(list(rm), dict(zip(keep, ts)), dict(zip(keep, us)))


@unit('C11', 'partial trace of operators', [D + 'ptrace'],
      'up to 4 subsystems (bounded) of any dimensions, every set of removed subsystems',
      bounded='number of subsystems at most 4')
def _(U):
    _ptrace(U, (1, 2, 3), False)


def four(k):
    @unit('C11', 'partial trace of operators with 4 subsystems, %d removed' % k, [D + 'ptrace'],
          '4 subsystems of any dimensions, every set of %d removed subsystems' % k,
          bounded='number of subsystems at most 4')
    def _(U):
        _ptrace(U, (4,), False, k)


for _k in range(4):
    four(_k)


@unit('C11', 'partial trace of kets', [D + 'ptrace'],
      'up to 3 subsystems (bounded) of any dimensions', bounded='number of subsystems at most 3')
def _(U):
    _ptrace(U, (1, 2, 3), True)


@unit('C11', 'partial trace in place', [D + 'ptrace'], '3 subsystems of any dimension',
      bounded='3 subsystems')
def _(U):
    dims = [U.dim('d%d' % q) for q in range(3)]
    N = dims[0] * dims[1] * dims[2]
    A = U.op('A', N, N)
    U.I_assume(ge(N - 2))
    a = elf(U, A)
    dl, rl = plist([num(d, 'int') for d in dims]), plist([1])
    ts = [P(T.temp()) for _ in range(4)]

    def post(r):
        U.struct('operand takes the value', r is A)
        with CTX.ranges([t.single() for t in ts], [dims[0], dims[2]] * 2):
            U.eq('entries', U.data(A).el(ts[0] * dims[2] + ts[1], ts[2] * dims[2] + ts[3]),
                 sum_spec(a, dims, [1], [0, 2], ts[:2], ts[2:]))
    U.run('ptrace', lambda: U.call(A, 'ptrace', dl, rl, do_copy=False), post)
    B = U.op('B', N + 1, N + 1)
    U.must_raise('wrong dimensions', lambda: U.call(B, 'ptrace', dl, rl))


@unit('C11', 'truncation to a subspace', [D + 'truncate_to_subspace'],
      'operators, bras and kets of any size, index lists of any length and order')
def _(U):
    n, s = U.dim('n', 2), U.dim('s')
    idx = lambda i: fn('idx', i, sort='i')
    U.no_refute = True
    U.assumed.append('subspace indices lie in 0..d-1')

    def ilist():
        return U.input('index list', symlist(s, lambda i: Num(idx(i), 'int')))

    def ranges():
        t = T.temp()
        return None
    CTX.fbounds['idx'] = (ZERO, n)
    for shp, out, g in [((n, n), (s, s), lambda a: lambda i, j: a(idx(i), idx(j))),
                        ((n, ONE), (s, ONE), lambda a: lambda i, j: a(idx(i), ZERO)),
                        ((ONE, n), (ONE, s), lambda a: lambda i, j: a(ZERO, idx(j)))]:
        A = U.input('operator', U.op('A', *shp))
        a = elf(U, A)
        nm = 'x'.join(str(x.cint or 'n') for x in shp)

        def post(r):
            U.op_eq('%s: rows and columns of the list' % nm, r, out, g(a))
            U.fresh('%s: result is fresh' % nm, r)
        l = ilist()
        U.run(nm, lambda: U.call(A, 'truncate_to_subspace', l), post)
        U.run(nm + ' no list', lambda: U.call(A, 'truncate_to_subspace', None),
              lambda r: U.op_eq('no list: unchanged', r, shp, a))
        if shp != (n, n):
            U.run(nm + ' rescaled', lambda: U.call(A, 'truncate_to_subspace', l,
                                                   map_to_closest_unitary=True),
                  lambda r: rescaled(U, r, out, g(a), nm))


def rescaled(U, r, out, f, nm):
    d = U.data(r)
    N = total(out[0], lambda i: total(out[1], lambda j: f(i, j) * T.conj(f(i, j))))
    i, j = P(T.temp()), P(T.temp())
    with CTX.ranges([i.single(), j.single()], out):
        U.eq(nm + ' rescaled: divided by the norm', d.el(i, j) * T.sqrt(N), f(i, j))
    U.eq(nm + ' rescaled: unit norm', total(out[0], lambda i: total(out[1], lambda j: d.el(i, j) *
                                                                    T.conj(d.el(i, j)))), ONE)


# ------------------------------------------------------------------ C13
def matpow(f, g, n):
    return lambda i, j: total(n, lambda k: f(i, k) * g(k, j))


def taylor(a, tau, n, order):
    """Taylor polynomial of exp(tau A)."""
    one = lambda i, j: eq0(i - j)
    res, p, c = [one], one, ONE
    for q in range(1, order + 1):
        p = a if q == 1 else matpow(p, a, n)
        c = c * tau * Fraction(1, q)
        res.append(lambda i, j, p=p, c=c: p(i, j) * c)
    return lambda i, j: sum((g(i, j) for g in res), ZERO)


def dtaylor(a, e, tau, n, order):
    """Derivative of the Taylor polynomial in the direction e."""
    terms = [lambda i, j: e(i, j) * tau]
    if order >= 2:
        terms += [lambda i, j: (matpow(a, e, n)(i, j) + matpow(e, a, n)(i, j)) *
                  tau * tau * Fraction(1, 2)]
    if order >= 3:
        aa = matpow(a, a, n)
        terms += [lambda i, j: (matpow(aa, e, n)(i, j) + matpow(a, matpow(e, a, n), n)(i, j) +
                                matpow(e, aa, n)(i, j)) * tau * tau * tau * Fraction(1, 6)]
    return lambda i, j: sum((g(i, j) for g in terms), ZERO)


def lam2(f, n):
    t, u = T.temp(), T.temp()
    with CTX.ranges([t, u], [n, n]):
        return Lam([n, n], [t, u], f(P(t), P(u)))


def expm(f, n):
    """Element function of the matrix exponential of f."""
    l = lam2(f, n)
    return lambda i, j: T.expm_el(l, i, j)


def frechet(f, e, n):
    l, m = lam2(f, n), lam2(e, n)
    return lambda i, j: lamfun('frechet', 'c', [l, m], i, j)


ORDER = {'first_order': 1, 'second_order': 2, 'third_order': 3}


def taus(U):
    return [('complex', U.cplx('tau')), ('float', U.real('tau')),
            ('np.float64', U.npreal('tau'))]


@unit('C13', 'exponential', [D + 'exp', D + 'prop'],
      'square operators of any size, any duration, Frechet, approx and Taylor methods')
def _(U):
    n = U.dim('n')
    for tn, tau in taus(U):
        for meth in ('Frechet', 'approx', 'first_order', 'second_order', 'third_order'):
            for sk in (False, True):
                A = U.input('operator', U.op('A', n, n))
                a = elf(U, A)
                t = pol(tau)
                f = taylor(a, t, n, ORDER[meth]) if meth in ORDER else \
                    expm(lambda i, j: a(i, j) * t, n)
                nm = '%s, %s duration' % (meth, tn)

                def post(r):
                    U.op_eq(nm, r, (n, n), f)
                    U.fresh(nm + ': fresh', r)
                U.run(nm, lambda: U.call(A, 'exp', tau, method=meth, is_skew_hermitian=sk), post)
    A = U.input('operator', U.op('A', n, n))
    U.must_raise('unknown method', lambda: U.call(A, 'exp', U.real('tau'), method='nonsense'))


AGAIN = '''
def exp(a, b, tau, method, skew):
    a.exp(tau, method=method, is_skew_hermitian=skew)
    a += b
    return a.exp(tau, method=method, is_skew_hermitian=skew)

def dexp(a, b, e, tau, method):
    a.exp(tau, method=method)
    a.dexp(e, tau, method=method)
    a += b
    a.dexp(e, tau, method=method)
    e -= b
    return a.dexp(e, tau, method=method)
'''


@unit('C13', 'reused after changes in place', [D + 'exp', D + 'prop', D + 'dexp', D + '__iadd__',
      D + '__isub__'], 'square operators of any size, changed in place between the calls; '
      'Frechet, approx (exponential) and Taylor methods')
def _(U):
    n = U.dim('n')
    U.source('history', AGAIN)
    for meth in ('Frechet', 'approx', 'first_order', 'second_order', 'third_order'):
        for sk in (False, True):
            tau = U.real('tau')
            A, B, E = U.op('A', n, n), U.op('B', n, n), U.op('E', n, n)
            a0, b, e0 = elf(U, A), elf(U, B), elf(U, E)
            a = lambda i, j: a0(i, j) + b(i, j)
            e = lambda i, j: e0(i, j) - b(i, j)
            t = pol(tau)
            at = lambda i, j: a(i, j) * t
            f = taylor(a, t, n, ORDER[meth]) if meth in ORDER else expm(at, n)
            nm = '%s, skew %s' % (meth, sk)
            U.run(nm, lambda: U.I.call(U.mod('history').env.slots['exp'], [
                A, B, tau, meth, sk], {}), lambda r: U.op_eq(nm, r, (n, n), f))
        if meth != 'approx':
            A, E = U.op('A', n, n), U.op('E', n, n)
            f = dtaylor(a, e, t, n, ORDER[meth]) if meth in ORDER else frechet(
                at, lambda i, j: e(i, j) * t, n)
            nm = meth + ', derivative'
            U.run(nm, lambda: U.I.call(U.mod('history').env.slots['dexp'], [
                A, B, E, tau, meth], {}), lambda r: U.op_eq(nm, r, (n, n), f))


@unit('C13', 'directional derivative', [D + 'dexp'],
      'square operators of any size, any duration and direction, Frechet, approx and Taylor '
      'methods')
def _(U):
    n = U.dim('n')
    for tn, tau in taus(U):
        for meth in ('Frechet', 'approx', 'first_order', 'second_order', 'third_order'):
            for kind in ('op', 'arr'):
                A = U.input('operator', U.op('A', n, n))
                E = U.input('direction', operand(U, kind, n, n))
                a, e = elf(U, A), elf(U, E)
                t = pol(tau)
                ex = expm(lambda i, j: a(i, j) * t, n)
                if meth in ORDER:
                    f = dtaylor(a, e, t, n, ORDER[meth])
                elif meth == 'Frechet':
                    f = frechet(lambda i, j: a(i, j) * t, lambda i, j: e(i, j) * t, n)
                else:
                    eps = var('epsilon', 'r')
                    e2 = expm(lambda i, j: (a(i, j) + eps * e(i, j)) * t, n)
                    f = lambda i, j: (e2(i, j) - ex(i, j)) * T.inv(eps)
                kw = dict(method=meth)
                if meth == 'approx':
                    kw['epsilon'] = Num(eps, 'float')
                nm = '%s, %s duration, direction %s' % (meth, tn, kind)

                def post(r):
                    U.op_eq(nm, r, (n, n), f)
                    U.fresh(nm + ': fresh', r)

                def post2(r):
                    U.op_eq(nm + ': exact exponential', U.item(r, 0), (n, n), ex)
                    U.op_eq(nm + ': derivative with exponential', U.item(r, 1), (n, n), f)
                    U.fresh(nm + ': both fresh', r)
                U.run(nm, lambda: U.call(A, 'dexp', E, tau, **kw), post)
                U.run(nm + ' with exponential', lambda: U.call(
                    A, 'dexp', E, tau, compute_expm=True, **kw), post2)
    A, E = U.op('A', n, n), U.op('E', n, n)
    U.must_raise('unknown method', lambda: U.call(A, 'dexp', E, U.real('tau'), method='nonsense'))


# ------------------------------------------------------------------ spectral method
def biorthogonal(p):
    """Eigenvectors: sum_j inv(V)[i, j] V[j, k] = delta_ik = sum_j V[i, j] inv(V)[j, k], the
    inverse of the eigenvectors of Hermitian matrices is their adjoint."""
    for _ in range(20):
        q = _contract(p)
        if q is None:
            return p
        p = q
    return p


def _factor(a):
    """(row, column, lambda of the basis, inverse?) of an entry of V or inv(V)."""
    if a.kind != 'g':
        return None
    if a.name in ('eig_vec', 'eigh_vec'):
        return a.args[1], a.args[2], (a.name, a.args[0]), False
    if a.name == 'matinv':
        b = a.args[0].body.single()
        vs = [P(v) for v in a.args[0].vars]
        if b is not None and b.kind == 'g' and b.name in ('eig_vec', 'eigh_vec') and \
                list(b.args[1:]) == vs:
            return a.args[1], a.args[2], (b.name, b.args[0]), True
    if a.name == 'conj':
        b = a.args[0].single()
        if b is not None and b.kind == 'g' and b.name == 'eigh_vec':
            return b.args[2], b.args[1], (b.name, b.args[0]), True
    return None


def _contract(p):
    for m, c in p.terms.items():
        if not m.binders:
            continue
        bs, atoms = T.open_mono(m)
        fs = [(x, _factor(a)) for x, (a, e) in enumerate(atoms) if e == 1]
        fs = [(x, f) for x, f in fs if f is not None]
        for x, f in fs:
            for y, g in fs:
                if x == y or f[2] != g[2] or f[3] == g[3]:
                    continue
                v = f[1].single()
                b = [z for z, (w, r) in enumerate(bs) if w is v]
                if v is None or g[0].single() is not v or not b:
                    continue
                z = b[0]
                rest = [q for w, q in enumerate(atoms) if w not in (x, y)]
                if any(v in a.free for a, e in rest) or v in f[0].free or v in g[1].free or \
                        any(v in r.free for _, r in bs) or bs[z][1] != f[2][1].shape[0]:
                    continue
                out = p - Poly({m: c})
                left = [q for w, q in enumerate(bs) if w != z]
                with CTX.ranges([w for w, _ in left], [r for _, r in left]):
                    t = T._mono_poly(rest) * eq0(f[0] - g[1])
                for w, r in reversed(left):
                    t = T.Sum(w, r, t)
                return out + t * c
    return None


def eigenbasis(U, p, a, n, tau):
    """(w, V, inv(V)) of the operator a, from the decomposition that the result p is built of."""
    ls = {}
    todo, seen = [p], set()
    while todo:
        q = todo.pop()
        for m in q.terms:
            for x, _ in m.atoms:
                if x.key in seen:
                    continue
                seen.add(x.key)
                if x.kind == 'g' and x.name in ('eig_vec', 'eigh_vec'):
                    ls[x.name, x.args[0].key] = (x.name, x.args[0])
                for y in x.args:
                    if isinstance(y, Poly):
                        todo.append(y)
                    elif isinstance(y, Lam):
                        todo.append(y.body)
    if len(ls) != 1:
        return None
    (name, l), = ls.values()
    for c in (ONE, MI, -MI, tau, MI * tau, -MI * tau, -ONE):
        if lam2(lambda i, j: a(i, j) * c, n) == l:
            break
    else:
        return None
    herm = name == 'eigh_vec'
    if herm:
        i, j = P(T.temp()), P(T.temp())
        with CTX.ranges([i.single(), j.single()], (n, n)):
            U.eq('matrix given to eigh is Hermitian', a(i, j) * c, T.conj(a(j, i) * c))
    w = lambda j: lamfun(name[:-3] + 'val', 'r' if herm else 'c', [l], j) * T.inv(c)
    v = lambda i, j: lamfun(name, 'c', [l], i, j)
    if herm:
        return w, v, lambda i, j: T.conj(v(j, i))
    vl = lam2(v, n)
    return w, v, lambda i, j: lamfun('matinv', 'c', [vl], i, j)


def spectral(U, nm, d, a, e, n, t):
    """d is exp(t a), or its derivative in the direction e, by spectral calculus."""
    i, k = P(T.temp()), P(T.temp())
    with CTX.ranges([i.single(), k.single()], (n, n)):
        p = d.el(i, k)
        b = eigenbasis(U, p, a, n, t)
        if b is None:
            f = expm(lambda i, j: a(i, j) * t, n) if e is None else \
                frechet(lambda i, j: a(i, j) * t, lambda i, j: e(i, j) * t, n)
            U.eq(nm, p, f(i, k))
            return
        w, v, vi = b
        if e is None:
            U.eq(nm, p, total(n, lambda j: v(i, j) * T.exp(t * w(j)) * vi(j, k)))
            return
        tr = lambda x, y: total(n, lambda q: total(n, lambda r: vi(x, q) * e(q, r) * v(r, y)))

        def om(x, y):
            z = t * (w(y) - w(x))
            return eq0(z) * t * T.exp(t * w(x)) + (ONE - eq0(z)) * t * T.inv(z) * (
                T.exp(t * w(y)) - T.exp(t * w(x)))
        U.eq(nm, p, total(n, lambda x: total(n, lambda y: v(i, x) * om(x, y) * tr(x, y) *
                                             vi(y, k))))


SPECTRAL = ('spectral calculus: A V = V diag(w) with invertible V gives exp(t A) = V diag(exp(t w)) '
            'inv(V) and its derivative by divided differences; eigenvectors are biorthogonal to the '
            'rows of their inverse (complete eigenbasis)')


@unit('C13', 'spectral method', [D + x for x in ('exp', 'dexp', '_exp_diagonalize',
                                                 '_dexp_diagonalization')],
      'square operators of any size with a complete eigenbasis, any duration and direction')
def _(U):
    n = U.dim('n')
    U.assumed.append(SPECTRAL)
    U.prover.lemmas.append(biorthogonal)
    for tn, tau in taus(U):
        for skew in (False, True):
            A = U.op('A', n, n)
            if skew:
                h = lambda i, j: fn('H', i, j)
                A = U.I.call(U.cls(D[:-1]), [mkarr((n, n), lambda i, j: MI * (
                    h(i, j) + T.conj(h(j, i))), 'c')], {})
            A = U.input('operator', A)
            a = elf(U, A)
            t = pol(tau)
            nm = '%s duration, skew %s' % (tn, skew)
            U.run(nm, lambda: U.call(A, 'exp', tau, method='spectral', is_skew_hermitian=skew),
                  lambda r: spectral(U, nm + ': exponential', U.data(r), a, None, n, t))
            for kind in ('op', 'arr'):
                E = U.input('direction', operand(U, kind, n, n))
                e = elf(U, E)
                m = nm + ', direction ' + kind
                kw = dict(method='spectral', is_skew_hermitian=skew)
                U.run(m, lambda: U.call(A, 'dexp', E, tau, **kw), lambda r: spectral(
                    U, m + ': derivative', U.data(r), a, e, n, t))

                def post(r):
                    spectral(U, m + ': exponential along', U.data(U.item(r, 0)), a, None, n, t)
                    spectral(U, m + ': derivative along', U.data(U.item(r, 1)), a, e, n, t)
                U.run(m + ', both', lambda: U.call(A, 'dexp', E, tau, compute_expm=True, **kw), post)
