"""C09-C13: operators."""
import copy
import numpy as np
import scipy.linalg as la
from oracle.frame import case, known
from oracle.lib import *

SCALARS = [2, -1.5, 0.5 - 2j, np.float64(1.25), np.float32(.5), np.complex128(1 - 3j),
           np.int64(3), np.int32(-2), np.int8(2), np.int16(4), np.complex64(2j),
           np.float16(.25), 1, 0, -1j]


def shapes(rng):
    return tuple(int(x) for x in rng.integers(1, 5, size=2))


def storage(rng, m):
    """The same matrix in different memory layouts."""
    m = np.array(m, dtype=complex)
    k = rng.integers(4)
    if k == 0:
        return m
    if k == 1:
        return np.asfortranarray(m)
    if k == 2:
        big = np.zeros((m.shape[0] * 2, m.shape[1] * 2), dtype=complex)
        big[::2, ::2] = m
        return big[::2, ::2]
    return np.ascontiguousarray(m.T).T


def val(o):
    return np.array(arr(o))


def no_share(out, *operands):
    for o in operands:
        if isinstance(o, (DO, np.ndarray)) and np.shares_memory(out.data, arr(o)):
            fail('the result shares memory with an operand')


def isolated(out, *operands):
    """Using the result in place does not change the operands and vice versa."""
    before = [val(o) for o in operands]
    keep = val(out)
    out *= 3.
    out += 1.
    for o, b in zip(operands, before):
        eq(o, b, 'operand after in-place use of the result')
    for o in operands:
        if isinstance(o, DO):
            o2 = o
            o2 *= 2.
    eq(out, keep * 3 + 1, 'result after in-place use of an operand')


# -------------------------------------------------------------------- C09
@case('C09', quick=400, thorough=6000)
def binary_operations(rng):
    sh = shapes(rng)
    a = cmat(rng, *sh)
    op = ['+', '-', '*', '/', 'r*'][rng.integers(5)]
    rk = ['op', 'arr', 'scalar'][rng.integers(3)]
    if op == '/' and rk == 'op':
        rk = 'scalar'
    if op == 'r*':
        rk = 'scalar'
    if op in '+-' or op == '/':
        b = cmat(rng, *sh)
    else:
        b = cmat(rng, sh[1], int(rng.integers(1, 5)))
    A = DO(storage(rng, a))
    if rk == 'scalar':
        b = SCALARS[rng.integers(len(SCALARS))]
        if op == '/' and b == 0:
            b = 2
        if rng.integers(6) == 0 and op in '+-*':
            b = 0
        B = b
    else:
        B = DO(storage(rng, b)) if rk == 'op' else storage(rng, b)
    with np.errstate(all='ignore'):
        if op == '+':
            out, want = A + B, a + b
        elif op == '-':
            out, want = A - B, a - b
        elif op == '*':
            out = A * B
            want = a * b if rk == 'scalar' else a @ b
        elif op == '/':
            out, want = A / B, a / b
        else:
            out, want = B * A, b * a
    msg = '%s %s (%s, %s)' % (op, rk, sh, B if rk == 'scalar' else b.shape)
    true(type(out) is DO, 'type of ' + msg)
    eq(out, want, msg, 1e-12)
    eq(A, a, 'left operand after ' + msg, 0)
    eq(B if rk == 'arr' else (B.data if rk == 'op' else B), b, 'right operand after ' + msg, 0)
    no_share(out, A, B)
    true(out is not A and out is not B, 'a new object is returned')
    isolated(out, A, B) if rk == 'op' else isolated(out, A)
    return msg


@case('C09', quick=300, thorough=4000)
def in_place_operations(rng):
    n = int(rng.integers(1, 5))
    op = ['+', '-', '*', '/'][rng.integers(4)]
    rk = ['op', 'arr', 'scalar', 'self'][rng.integers(4)]
    if op == '/' and rk in ('op', 'self'):
        rk = 'arr'
    sh = (n, n) if op == '*' else shapes(rng)
    a, b = cmat(rng, *sh), cmat(rng, *sh)
    if op == '*' and rng.integers(2):
        sh = shapes(rng)
        a, b = cmat(rng, *sh), cmat(rng, sh[1], sh[1])
        if rk == 'self':
            rk = 'op'
    A = DO(np.array(a))
    if rk == 'scalar':
        B = b = SCALARS[rng.integers(len(SCALARS) - 2)]
        if b == 0:
            B = b = 2.
    elif rk == 'self':
        B, b = A, a.copy()
    else:
        B = DO(storage(rng, b)) if rk == 'op' else storage(rng, b)
    ref = A
    if op == '+':
        A += B
        want = a + b
    elif op == '-':
        A -= B
        want = a - b
    elif op == '*':
        A *= B
        want = a * b if rk == 'scalar' else a @ b
    else:
        A /= B
        want = a / b
    msg = '%s= %s %s' % (op, rk, sh)
    true(A is ref, msg + ' returns the left operand')
    eq(A, want, msg, 1e-12)
    if rk in ('op', 'arr'):
        eq(B, b, 'right operand after ' + msg, 0)
        true(not np.shares_memory(A.data, arr(B)), msg + ' shares memory')
    return msg


@case('C09', quick=60, thorough=400)
def rejected_operands(rng):
    A = DO(cmat(rng, 2))
    bad = ['a', None, [1, 2], (1,), {}, object()]
    b = bad[rng.integers(len(bad))]
    fs = {'+': lambda: A + b, '-': lambda: A - b, '*': lambda: A * b, '/': lambda: A / b,
          '/op': lambda: A / DO(np.eye(2))}

    def ip(op):
        def f():
            X = A.copy()
            if op == '+':
                X += b
            elif op == '-':
                X -= b
            elif op == '*':
                X *= b
            else:
                X /= b
        return f
    for k in '+-*/':
        fs[k + '='] = ip(k)
    before = val(A)
    for k, f in fs.items():
        raises(f, 'operator %s %r' % (k, b))
        eq(A, before, 'operand after rejected operation', 0)
    return repr(b)[:20]


@case('C09', quick=60, thorough=400)
def expressions(rng):
    """Compound expressions and copies."""
    n = int(rng.integers(1, 4))
    ms = [cmat(rng, n) for _ in range(4)]
    o = dense_ops(ms)
    a, b, c, d = ms
    A, B, C, D = o
    eq((A + B) * (C - D) / 2, (a + b) @ (c - d) / 2, 'compound expression', 1e-11)
    eq(2j * A * B - C * 3, 2j * a @ b - 3 * c, 'compound expression 2', 1e-11)
    E = A.copy()
    true(type(E) is DO and not np.shares_memory(E.data, A.data), 'copy shares memory')
    E[0, 0] = 7
    eq(A, a, 'operand after changing a copy', 0)
    eq(E[0, 0], 7, 'item assignment')
    eq(A[0, n - 1], a[0, n - 1], 'item access')
    for x, m in zip(o, ms):
        eq(x, m, 'operands after compound expressions', 0)
    true(A.shape == (n, n), 'shape')
    return str(n)


@case('C09', quick=150, thorough=3000)
def magnitudes_of_operands(rng):
    """Entries and factors in arbitrary units: every entry to its own precision."""
    sh = shapes(rng)
    a = cmat(rng, *sh) * magnitudes(rng, *sh)
    c = complex(cmat(rng, 1)[0, 0] * magnitudes(rng, 1)[0])
    if rng.integers(2):     # parts of very different size
        c = complex(c.real, c.imag * magnitudes(rng, 1)[0])
    if rng.integers(3) == 0:
        c = [c.real, 1j * c.imag][rng.integers(2)]
    c = [c, np.complex128(c)][rng.integers(2)]
    E = 1e-14

    def parts(got, want, msg, bound=None):
        # real and imaginary part of an entry may differ in size as well
        eq_bound(got.data.real, want.real, msg + ', real part', E * np.abs(want)
                 if bound is None else bound)
        eq_bound(got.data.imag, want.imag, msg + ', imaginary part', E * np.abs(want)
                 if bound is None else bound)
    A = DO(a.copy())
    parts(A * c, a * c, 'product with %s' % c)
    parts(c * A, a * c, 'product of %s and operator' % c)
    B = A.copy()
    B *= c
    parts(B, a * c, 'in-place product with %s' % c)
    if abs(c) > 1e-40:
        parts(A / c, a / c, 'quotient with %s' % c)
    b = cmat(rng, *sh) * magnitudes(rng, *sh)
    bd = E * (np.abs(a) + np.abs(b))
    parts(A + DO(b), a + b, 'sum', bd)
    parts(A - DO(b), a - b, 'difference', bd)
    m = cmat(rng, sh[1], 2) * magnitudes(rng, sh[1], 2)
    parts(A * DO(m), a @ m, 'product', E * (np.abs(a) @ np.abs(m)))
    parts(DO(a), a, 'operator from array', 0)
    eq(A, a, 'operand', 0)
    return '%s %s' % (sh, c)


# -------------------------------------------------------------------- C10
@case('C10', quick=100, thorough=2000)
def magnitudes_of_entries(rng):
    sh, s2 = shapes(rng), shapes(rng)
    a, b = cmat(rng, *sh), cmat(rng, *s2)
    a = a.real * magnitudes(rng, *sh) + 1j * a.imag * magnitudes(rng, *sh)
    b = b * magnitudes(rng, *s2)
    A = DO(a.copy())
    for name, want in (('dag', a.conj().T), ('conj', a.conj()), ('transpose', a.T)):
        out = getattr(A, name)()
        eq_bound(out.data.real, want.real, name + ', real part', 0)
        eq_bound(out.data.imag, want.imag, name + ', imaginary part', 0)
        B = A.copy()
        getattr(B, name)(do_copy=False)
        eq_bound(B.data.imag, want.imag, name + ' in place, imaginary part', 0)
    want = np.kron(a, b)
    eq_bound(A.kron(DO(b)), want, 'kron', 1e-14 * np.abs(want))
    f = np.sqrt(np.sum(np.abs(a) ** 2))
    eq_bound(np.array(A.norm('fro')), f, 'norm', 1e-13 * f)
    n = min(sh)
    t = np.trace(a[:n, :n])
    eq_bound(np.array(DO(a[:n, :n].copy()).tr()), t, 'trace',
             1e-14 * np.sum(np.abs(np.diag(a[:n, :n]))))
    return '%s %s' % (sh, s2)


# the rest of C10
@case('C10', quick=300, thorough=5000)
def adjoints(rng):
    sh = shapes(rng)
    a = cmat(rng, *sh)
    special = rng.integers(6)
    if special == 0:
        a = a.real + 0j
    elif special == 1 and sh[0] == sh[1]:
        a = a + [1, -1][rng.integers(2)] * (a.T if rng.integers(2) else a.conj().T)
    elif special == 2:
        a = 1j * a.imag
    name = ['dag', 'conj', 'conjugate', 'transpose'][rng.integers(4)]
    want = {'dag': a.conj().T, 'conj': a.conj(), 'conjugate': a.conj(),
            'transpose': a.T}[name]
    src = storage(rng, a)
    A = DO(src)
    mode = rng.integers(3)
    msg = '%s of shape %s' % (name, sh)
    if mode == 0:
        out = getattr(A, name)()
    elif mode == 1:
        out = getattr(A, name)(do_copy=True)
    else:
        out = getattr(A, name)(do_copy=False)
        true(out is A, msg + ' without copying returns the operand')
        eq(A, want, msg + ' without copying', 0)
        # the operand remains usable in place
        A *= 2.
        A += 1.
        eq(A, want * 2 + 1, msg + ' in-place use afterwards')
        return msg + ' in place'
    eq(out, want, msg, 0)
    eq(A, a, 'operand of ' + msg, 0)
    true(out is not A, msg + ' returns a new operator')
    isolated(out, A)
    # twice is the identity
    B = DO(a.copy())
    eq(getattr(getattr(B, name)(), name)(), a, msg + ' twice', 0)
    return msg


@case('C10', quick=200, thorough=3000)
def kron_trace_identity(rng):
    s1, s2 = shapes(rng), shapes(rng)
    a, b = cmat(rng, *s1), cmat(rng, *s2)
    A = DO(storage(rng, a))
    B = DO(storage(rng, b)) if rng.integers(2) else storage(rng, b)
    out = A.kron(B)
    want = np.zeros((s1[0] * s2[0], s1[1] * s2[1]), dtype=complex)
    for i in range(s1[0]):
        for j in range(s1[1]):
            want[i * s2[0]:(i + 1) * s2[0], j * s2[1]:(j + 1) * s2[1]] = a[i, j] * b
    eq(out, want, 'kron %s %s' % (s1, s2), 1e-13)
    eq(A, a, 'left operand of kron', 0)
    eq(B, b, 'right operand of kron', 0)
    no_share(out, A, B)
    raises(lambda: A.kron(3), 'kron with a number')
    n = int(rng.integers(1, 6))
    m = cmat(rng, n)
    M = DO(storage(rng, m))
    eq(M.tr(), sum(m[i, i] for i in range(n)), 'trace', 1e-12)
    eq(M, m, 'operand of trace', 0)
    I = M.identity_like()
    eq(I, np.eye(n), 'identity_like', 0)
    I *= 2.
    eq(M, m, 'operand after using the identity', 0)
    eq(M.flatten(), m.reshape(-1), 'flatten')
    eq(M.norm('fro'), np.sqrt(np.sum(np.abs(m) ** 2)), 'norm')
    return '%s %s %d' % (s1, s2, n)


# -------------------------------------------------------------------- C11
def ref_ptrace(m, dims, remove):
    n = len(dims)
    keep = [i for i in range(n) if i not in remove]
    dk = [dims[i] for i in keep]
    nk = int(np.prod(dk)) if dk else 1
    out = np.zeros((nk, nk), dtype=complex)
    idx = list(np.ndindex(*dims))
    pos = {}
    for i, ii in enumerate(idx):
        pos[ii] = i
    keepidx = {kk: r for r, kk in enumerate(np.ndindex(*dk))} if dk else {(): 0}
    for ii in idx:
        for jj in idx:
            if all(ii[q] == jj[q] for q in remove):
                r = keepidx[tuple(ii[q] for q in keep)]
                c = keepidx[tuple(jj[q] for q in keep)]
                out[r, c] += m[pos[ii], pos[jj]]
    return out


@case('C11', quick=200, thorough=3000)
def partial_trace(rng):
    n = int(rng.integers(1, 5))
    dims = [int(x) for x in rng.integers(1, 4, size=n)]
    if np.prod(dims) > 24:
        raise Skip
    k = int(rng.integers(0, n + 1))
    remove = [int(x) for x in rng.permutation(n)[:k]]
    D = int(np.prod(dims))
    if rng.integers(3) == 0:
        v = cmat(rng, D, 1)
        m = v @ v.conj().T
        if D == 1:
            m = v @ v.conj().T
        A = DO(v.copy())
        src = v
    else:
        m = cmat(rng, D)
        if D == 1:      # a 1x1 operator is indistinguishable from a ket
            raise Skip
        A = DO(storage(rng, m))
        src = m
    args = (list(dims), list(remove))
    do_copy = bool(rng.integers(4))
    out = A.ptrace(args[0], args[1]) if do_copy else A.ptrace(args[0], args[1], do_copy=False)
    want = ref_ptrace(m, dims, remove)
    msg = 'ptrace dims=%s remove=%s' % (dims, remove)
    eq(out, want, msg, 1e-10)
    true(args == (list(dims), list(remove)), 'arguments of ptrace were changed')
    if do_copy:
        eq(A, src, 'operand of ' + msg, 0)
        isolated(out, A)
    else:
        true(out is A, 'in-place ' + msg)
    raises(lambda: DO(cmat(rng, D + 1)).ptrace(list(dims), list(remove)),
           'ptrace with wrong dimensions')
    return msg


@case('C11', quick=200, thorough=3000)
def truncation(rng):
    d = int(rng.integers(2, 7))
    k = int(rng.integers(1, d + 1))
    sub = [int(x) for x in rng.permutation(d)[:k]]
    if rng.integers(2):
        sub = sorted(sub)
    kind = ['op', 'ket', 'bra'][rng.integers(3)]
    sh = {'op': (d, d), 'ket': (d, 1), 'bra': (1, d)}[kind]
    a = cmat(rng, *sh)
    if rng.integers(5) == 0:
        a = a.real.astype(complex)
    A = DO(storage(rng, a))
    s2 = list(sub)
    want = {'op': lambda: np.array([[a[i, j] for j in sub] for i in sub]),
            'ket': lambda: np.array([[a[i, 0]] for i in sub]),
            'bra': lambda: np.array([[a[0, i] for i in sub]])}[kind]()
    resc = bool(rng.integers(2))
    out = A.truncate_to_subspace(s2, map_to_closest_unitary=resc) if rng.integers(2) or resc \
        else A.truncate_to_subspace(s2)
    msg = 'truncation of %s to %s (rescale %s)' % (kind, sub, resc)
    if not resc:
        eq(out, want, msg, 0)
    elif kind == 'op':
        u, s, vh = la.svd(want)
        true(type(out) is DO, 'type')
        eq(out, u @ vh, msg, 1e-7 / max(1e-3, s.min()))
        eq(out.data @ out.data.conj().T, np.eye(k), 'unitarity after ' + msg, 1e-8)
    else:
        eq(out, want / np.linalg.norm(want), msg, 1e-10)
    eq(A, a, 'operand of ' + msg, 0)
    true(s2 == sub, 'the index list was changed')
    isolated(out, A)
    eq(A.truncate_to_subspace(None), 2 * a, 'no truncation', 1e-12)
    return msg


@case('C11', quick=60, thorough=1000)
def magnitudes_of_states(rng):
    dims = [int(x) for x in rng.integers(1, 4, size=int(rng.integers(1, 4)))]
    k = int(rng.integers(0, len(dims) + 1))
    remove = [int(x) for x in rng.permutation(len(dims))[:k]]
    D = int(np.prod(dims))
    ket = bool(rng.integers(2)) or D == 1
    src = cmat(rng, D, 1 if ket else D) * magnitudes(rng, D, 1 if ket else D)
    m = src @ src.conj().T if ket else src
    eq_bound(DO(src.copy()).ptrace(list(dims), list(remove)), ref_ptrace(m, dims, remove),
             'partial trace', 1e-13 * np.abs(ref_ptrace(np.abs(m), dims, remove)))
    if D > 1:
        sub = [int(x) for x in rng.permutation(D)[:int(rng.integers(1, D + 1))]]
        eq_bound(DO(m.copy()).truncate_to_subspace(sub), m[np.ix_(sub, sub)], 'truncation', 0)
        eq_bound(DO(src[:, :1].copy()).truncate_to_subspace(sub), src[sub, :1],
                 'truncation of a ket', 0)
    return '%s %s %s' % (dims, remove, ket)


# -------------------------------------------------------------------- C12
@case('C12', quick=100, thorough=1500)
def magnitudes_of_matrices(rng):
    d = int(rng.integers(1, 5))
    a = cmat(rng, d)
    a = a.real * magnitudes(rng, d, d) + 1j * a.imag * magnitudes(rng, d, d)
    op = bool(rng.integers(2))
    wrap = DO if op else (lambda x: x)
    v = qm.ket_vectorize_density_matrix(wrap(a.copy()))
    eq_bound(v, a.T.reshape(-1, 1), 'vector', 0)
    eq_bound(qm.convert_ket_vectorized_density_matrix_to_square(v), a, 'matrix from vector', 0)
    # a unitary with small angles next to a matrix with entries of any size
    phi = rng.normal(size=d) * magnitudes(rng, d)
    u = [np.diag(np.exp(1j * phi)), a, np.eye(d) + 1j * a.imag][rng.integers(3)]
    s = arr(qm.convert_unitary_to_super_operator(wrap(u.copy())))
    want = np.kron(u.conj(), u)
    re, im = u.real, u.imag
    for got, w, b, what in (
            (s.real, want.real, np.kron(np.abs(u), np.abs(u)), 'real'),
            (s.imag, np.kron(re, im) - np.kron(im, re),
             np.kron(abs(re), abs(im)) + np.kron(abs(im), abs(re)), 'imaginary')):
        eq_bound(got, w, 'super operator, %s part' % what, 1e-14 * b)
    return 'd=%d op=%s' % (d, op)


# C12, sizes of order one
@case('C12', quick=250, thorough=3000)
def vectorisation(rng):
    d = int(rng.integers(1, 6))
    a = cmat(rng, d)
    use_op = bool(rng.integers(2))
    A = DO(storage(rng, a)) if use_op else storage(rng, a)
    v = qm.ket_vectorize_density_matrix(A)
    eq(arr(v).shape, (d * d, 1), 'shape of the vector')
    for i in range(d):
        for j in range(d):
            eq(arr(v)[i + d * j, 0], a[i, j], 'vector entry for [%d, %d]' % (i, j), 0)
    w = qm.convert_ket_vectorized_density_matrix_to_square(v)
    eq(w, a, 'square matrix from vector', 0)
    eq(A, a, 'operand', 0)
    if use_op:
        true(type(v) is DO and type(w) is DO, 'types')
        isolated(w, A)
    u = unitary(rng, d) if rng.integers(2) else cmat(rng, d)
    U = DO(storage(rng, u)) if rng.integers(2) else storage(rng, u)
    s = qm.convert_unitary_to_super_operator(U)
    eq(arr(s) @ arr(v), (u @ a @ u.conj().T).T.reshape(-1, 1),
       'super operator on a vectorised matrix', 1e-10)
    eq(s, np.kron(u.conj(), u), 'super operator', 1e-10)
    eq(U, u, 'unitary after conversion', 0)
    true(type(s) is type(U), 'type of the super operator')
    raises(lambda: qm.ket_vectorize_density_matrix(DO(cmat(rng, d, d + 1))), 'non square')
    raises(lambda: qm.convert_ket_vectorized_density_matrix_to_square(
        DO(cmat(rng, 4, 2))), 'non ket')
    raises(lambda: qm.convert_unitary_to_super_operator([[1]]), 'list')
    return 'd=%d op=%s' % (d, use_op)


# -------------------------------------------------------------------- C13
def gen_matrix(rng, d):
    """(matrix, is_skew_hermitian usable, name)"""
    k = ['skew', 'general', 'degenerate', 'zero', 'diag', 'real', 'jordan'][rng.integers(7)]
    if k == 'skew':
        return -1j * herm(rng, d), True, k
    if k == 'general':
        return cmat(rng, d), False, k
    if k == 'degenerate':
        u = unitary(rng, d)
        ev = rng.choice([0., 1., -1.], size=d)
        return -1j * (u * ev) @ u.conj().T, True, k
    if k == 'zero':
        return np.zeros((d, d), dtype=complex), True, k
    if k == 'diag':
        return -1j * np.diag(rng.normal(size=d)).astype(complex), True, k
    if k == 'real':
        a = rng.normal(size=(d, d))
        return (a - a.T).astype(complex), True, k
    a = np.diag(np.full(d, .3 - .2j)) + np.diag(np.ones(d - 1), 1)
    return a.astype(complex), False, k


@case('C13', quick=400, thorough=6000)
def exponentials(rng):
    d = int(rng.integers(1, 6))
    a, skew, k = gen_matrix(rng, d)
    m = METHODS[rng.integers(len(METHODS))]
    tau = [1, 1., .37, -0.8, 2.5, 0., np.float64(1.3)][rng.integers(7)]
    sk = skew and bool(rng.integers(2))
    if k == 'jordan' and m == 'spectral' and d > 1:
        raise Skip
    A = DO(storage(rng, a))
    out = A.exp(tau=tau, method=m, is_skew_hermitian=sk)
    msg = 'exp method=%s tau=%s %s d=%d skew flag=%s' % (m, tau, k, d, sk)
    true(type(out) is DO, 'type of ' + msg)
    eq(out, ref_exp(a * tau, m), msg, 1e-9)
    eq(A, a, 'operand of ' + msg, 0)
    isolated(out, A)
    return msg


@case('C13', quick=400, thorough=6000)
def exponential_derivatives(rng):
    d = int(rng.integers(1, 6))
    a, skew, k = gen_matrix(rng, d)
    e = -1j * herm(rng, d) if rng.integers(2) else cmat(rng, d)
    m = METHODS[rng.integers(len(METHODS))]
    tau = [1, 1., .37, -0.8, 1.7, np.float64(1.3)][rng.integers(6)]
    sk = skew and bool(rng.integers(2))
    if k == 'jordan' and m == 'spectral' and d > 1:
        raise Skip
    A, E = DO(storage(rng, a)), DO(storage(rng, e))
    if rng.integers(4) == 0:
        E = storage(rng, e)
    msg = 'dexp method=%s tau=%s %s d=%d skew flag=%s' % (m, tau, k, d, sk)
    want = ref_dexp(a * tau, e * tau, m)
    tol = {'approx': 3e-4 * (1 + np.linalg.norm(a * tau))}.get(m, 1e-7 if m == 'spectral' else 1e-9)
    g = A.dexp(E, tau=tau, method=m, is_skew_hermitian=sk)
    true(type(g) is DO, 'type of ' + msg)
    eq(g, want, msg, tol)
    p, g2 = A.dexp(E, tau=tau, compute_expm=True, method=m, is_skew_hermitian=sk)
    true(type(p) is DO and type(g2) is DO, 'types of ' + msg)
    eq(g2, want, msg + ' with exponential', tol)
    eq(p, expm(a * tau), 'exponential returned by ' + msg, 1e-8)
    eq(A, a, 'operand of ' + msg, 0)
    eq(E, e, 'direction of ' + msg, 0)
    return msg


@case('C13', quick=150, thorough=3000)
def changed_in_place(rng):
    """The same operators and directions are changed in place between calls."""
    d = int(rng.integers(1, 5))
    m = METHODS[rng.integers(len(METHODS))]
    tau = [1, .37, -0.8, 1.7][rng.integers(4)]
    A, E = DO(-1j * herm(rng, d)), DO(-1j * herm(rng, d))
    msg = 'after %d changes in place, method ' + m + ' tau=%s d=%d' % (tau, d)
    for q in range(3):
        if rng.integers(2):
            eq(A.exp(tau=tau, method=m, is_skew_hermitian=True), ref_exp(A.data * tau, m),
               'exp ' + msg % q, 1e-9)
        tol = {'approx': 3e-4 * (1 + np.linalg.norm(A.data * tau))}.get(
            m, 1e-7 if m == 'spectral' else 1e-9)
        eq(A.dexp(E, tau=tau, method=m, is_skew_hermitian=True),
           ref_dexp(A.data * tau, E.data * tau, m), 'dexp ' + msg % q, tol)
        for X in (A, E):
            c = rng.integers(4)
            if c == 0:
                X += DO(-1j * herm(rng, d))
            elif c == 1:
                X *= 1.5
            elif c == 2:
                X.data[...] = -1j * herm(rng, d)
    return msg


@case('C13', quick=60, thorough=600)
def near_degenerate(rng):
    """Spectral derivative with (nearly) equal eigenvalues and large norms."""
    d = int(rng.integers(2, 6))
    u = unitary(rng, d)
    ev = rng.choice([0., 1., -1.], size=d) + 10. ** -float(rng.integers(1, 16)) * rng.normal(size=d)
    ev *= float(rng.choice([1., 20.]))
    a = -1j * (u * ev) @ u.conj().T
    e = -1j * herm(rng, d)
    sk = bool(rng.integers(2))
    tau = float(rng.choice([1., .1, 1e-3]))
    A, E = DO(a.copy()), DO(e.copy())
    if not sk and True:
        g = A.dexp(E, tau=tau, method='Frechet')
        eq(g, frechet(a * tau, e * tau), 'Frechet', 1e-8)
        return 'Frechet %s' % ev
    g = A.dexp(E, tau=tau, method='spectral', is_skew_hermitian=True)
    eq(g, frechet(a * tau, e * tau), 'spectral derivative, eigenvalues %s' % ev, 1e-6)
    eq(A.exp(tau=tau, method='spectral', is_skew_hermitian=True), expm(a * tau), 'spectral', 1e-8)
    return 'spectral %s' % ev


@case('C13', quick=1, thorough=1, fixed=True)
def unknown_methods(rng):
    A = DO(np.eye(2, dtype=complex))
    raises(lambda: A.exp(1., method='nope'), 'unknown exponential method')
    raises(lambda: A.dexp(A, 1., method='nope'), 'unknown derivative method')
    eq(DO(-1j * np.diag([1., 2.])).exp(), np.diag(np.exp([-1j, -2j])), 'default method')
    return 'unknown methods'


@case('C08', quick=100, thorough=2000)
def operator_inputs(rng):
    """Computations with operators keep their operands."""
    d = int(rng.integers(2, 5))
    a, e, u = (qm.DenseOperator(cmat(rng, d)) for _ in range(3))
    h = qm.DenseOperator(1j * herm(rng, d))
    psi = qm.DenseOperator(ket(rng, d))
    big = qm.DenseOperator(cmat(rng, 2 * d))
    cs = [int(i) for i in rng.permutation(d)[:int(rng.integers(1, d + 1))]]
    fz = Frozen(a=a, direction=e, u=u, h=h, state=psi, big=big, subspace=cs)
    for m in ('spectral', 'Frechet', 'approx', 'first_order', 'second_order', 'third_order'):
        for op, skew in ((a, False), (h, True)):
            op.exp(.3, method=m, is_skew_hermitian=skew)
            fz.check('exp ' + m)
            op.dexp(e, .3, compute_expm=bool(rng.integers(2)), method=m, is_skew_hermitian=skew)
            fz.check('dexp ' + m)
    for name, f in (
            ('ptrace', lambda: big.ptrace([2, d], [int(rng.integers(2))])),
            ('ptrace of a ket', lambda: psi.ptrace([d, 1], [1])),
            ('truncation', lambda: a.truncate_to_subspace(cs, bool(rng.integers(2)))),
            ('truncation of a ket', lambda: psi.truncate_to_subspace(cs, bool(rng.integers(2)))),
            ('closest unitary', lambda: qm.closest_unitary(a)),
            ('super operator', lambda: qm.convert_unitary_to_super_operator(u)),
            ('kron', lambda: a.kron(e)), ('norm', a.norm), ('trace', a.tr),
            ('flatten', a.flatten), ('adjoint', a.dag), ('transpose', a.transpose),
            ('conjugate', a.conj), ('arithmetic', lambda: (a + e) * u - 2 * a / 3)):
        f()
        fz.check(name)
    return 'd=%d subspace=%s' % (d, cs)
