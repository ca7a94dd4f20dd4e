"""Contracts of numpy, scipy, copy, time, ... used at call sites (trusted)."""
import ast

from .values import *
from . import terms as T
from .builtins_ import BUILTINS
from .interp import Slice, TupIdx, SetV, SStr, ExcV

RANK = 'bifc'
STUBS = {}
ASSUMED = {}


def stub(*paths, note=None):
    def deco(f):
        for p in paths:
            STUBS[p] = f
            if note:
                ASSUMED[p] = note
        return f
    return deco


# ------------------------------------------------------------------ scalars
def promote(*kinds):
    return max(kinds, key=RANK.index)


def sty(kind, np_):
    return NPTY[kind] if np_ else {'b': 'bool', 'i': 'int', 'f': 'float', 'c': 'complex'}[kind]


def is_np(v):
    return isinstance(v, Arr) or isinstance(v, Num) and v.ty.startswith('np.')


def kind_of(v):
    if isinstance(v, Arr):
        return v.dtype
    return kindof(tyof(v))


def badfloat(v):
    return isinstance(v, float) and (v != v or v in (float('inf'), float('-inf')))


def scalar_op(I, n, a, b):
    ka, kb = kind_of(a), kind_of(b)
    np_ = is_np(a) or is_np(b)
    if badfloat(a) or badfloat(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'add': a + b, 'sub': a - b, 'mul': a * b}[n]
        raise Unsupported('arithmetic with inf or nan')
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) \
            and not isinstance(b, bool) and n in ('add', 'sub', 'mul', 'floordiv', 'mod'):
        if n in ('floordiv', 'mod'):
            if b == 0:
                I.raise_('ZeroDivisionError')
            return a // b if n == 'floordiv' else a % b
        return {'add': a + b, 'sub': a - b, 'mul': a * b}[n]
    p, q = pol(a), pol(b)
    k = promote(ka, kb)
    if k == 'b' and n not in ('and', 'or'):
        if np_ and n == 'sub':
            I.raise_('TypeError', 'boolean subtract')
        if not np_:
            k = 'i'
    if n == 'add':
        if k == 'b':
            return num(Or(p, q), sty('b', np_))
        return num(p + q, sty(k, np_))
    if n == 'sub':
        return num(p - q, sty(k, np_))
    if n == 'mul':
        return num(p * q, sty(k, np_))
    if n == 'truediv':
        k = promote(k, 'f')
        if q.const == 0:
            if not np_:
                I.raise_('ZeroDivisionError')
            raise Unsupported('division by zero')
        return num(p * T.inv(q), sty(k, np_))
    if n in ('floordiv', 'mod'):
        if k not in 'bi':
            if n == 'floordiv' and k == 'f':
                return num(gfun('floor', p * T.inv(q)), sty(k, np_))
            if k == 'f':
                return num(p - q * gfun('floor', p * T.inv(q)), sty(k, np_))
            I.raise_('TypeError', 'complex floor')
        if not CTX.entails_ge(q - 1):
            if not I.branch(ge(q - 1)):
                raise Unsupported('floor division by a non-positive number')
        return num(T.fdiv(p, q) if n == 'floordiv' else T.mod(p, q), sty('i', np_))
    if n == 'pow':
        return num(power(I, p, q, k), sty(k if q.cint is None or q.cint >= 0
                                          else promote(k, 'f'), np_))
    if n == 'and':
        if k == 'b':
            return num(p * q, sty('b', np_))
    if n == 'or':
        if k == 'b':
            return num(Or(p, q), sty('b', np_))
    raise Unsupported('scalar operator %s' % n)


def power(I, p, q, k='c'):
    if q.cint is not None and abs(q.cint) <= 12:
        return p ** q.cint if q.cint >= 0 else T.inv(p) ** (-q.cint)
    if q.const == Fraction(1, 2):
        return T.sqrt(p)
    if p.const == 1:
        return ONE
    return gfun('pow', p, q, sort='c' if k == 'c' else 'r')


def asarray(I, v, dtype=None):
    """Array of a value (a view of arrays)."""
    if isinstance(v, Arr):
        if dtype is not None and dtype != v.dtype:
            return cast(v, dtype)
        return v
    if isinstance(v, Num) or isinstance(v, (int, float, complex)):
        k = dtype or kind_of(v)
        if badfloat(v):
            if v == v:
                raise Unsupported('inf or nan in an array')
            # undefined values stay visible in everything computed from them
            p = var('nan', 'r')
            return mkarr((), lambda: p, 'c' if k == 'c' else 'f')
        p = pol(v)
        return mkarr((), lambda: p, k)
    if isinstance(v, Range):
        return nested(I, v, dtype)
    if isinstance(v, PList):
        return nested(I, v, dtype)
    if v is None or isinstance(v, (Obj, str, DictV, SStr)):
        raise Unsupported('array of objects')
    raise Unsupported('array of %s' % describe(v))


def nested(I, v, dtype):
    s = I.seq(v)
    n = s.n
    if n.cint is not None:
        if n.cint == 0:
            return mkarr((0,), lambda i: ZERO, dtype or 'f')
        if n.cint <= 70:
            els = [asarray(I, s.at(const(i))) for i in range(n.cint)]
            shp = els[0].shape
            for e in els[1:]:
                if len(e.shape) != len(shp) or any(
                        not CTX.entails_eq(x, y) for x, y in zip(e.shape, shp)):
                    if len(e.shape) != len(shp):
                        I.raise_('ValueError', 'inhomogeneous')
                    for x, y in zip(e.shape, shp):
                        if not I.branch(eq0(x - y)):
                            I.raise_('ValueError', 'inhomogeneous')
            k = dtype or promote(*[e.dtype for e in els])
            return stack_items(els, shp, k)
    t = T.temp()
    with CTX.ranges([t], [n]):
        e = asarray(I, s.at(P(t)))
    shp = e.shape
    if shp and not isinstance(v, Range) and not CTX.entails_ge(n - 1) and I.branch(eq0(n)):
        return mkarr((0,), lambda i: ZERO, dtype or 'f')
    if any(t in x.free for x in shp):
        raise Unsupported('array of lists of different lengths')

    def el(i, *rest):
        x = asarray(I, s.at(i))
        return x.el(*rest)
    return mkarr((n,) + shp, el, dtype or e.dtype)


def stack_items(els, shp, k):
    def el(i, *rest):
        if i.cint is not None:
            return els[i.cint].el(*rest)
        tot = ZERO
        for j, e in enumerate(els):
            g = eq0(i - j)
            if g.terms:
                tot = tot + g * e.el(*rest)
        return tot
    return mkarr((len(els),) + tuple(shp), el, k)


def cast(a, k):
    if RANK.index(k) < RANK.index(a.dtype):
        if a.dtype == 'c':
            return mkarr(a.shape, lambda *i: T.re(a.el(*i)), k if k == 'f' else 'f')
        if k == 'b':
            return mkarr(a.shape, lambda *i: Not(eq0(a.el(*i))), k)
        if k == 'i':
            return mkarr(a.shape, lambda *i: toint(a.el(*i)), k)
    return mkarr(a.shape, a.el, k)


def toint(p):
    if p.is_int():
        return p
    if p.const is not None:
        return const(int(p.const))
    q = T.cancel(p)
    if q is not None and q.is_int():
        return q
    return gfun('int', p, sort='i')


def dkind(I, d):
    if d is None:
        return None
    if isinstance(d, Ext):
        n = d.path.split('.')[-1]
        for k, names in dict(c=('complex', 'complex128', 'complex64'),
                             f=('float', 'float64', 'float32'), i=('int', 'int64', 'int32', 'intp'),
                             b=('bool', 'bool_')).items():
            if n in names:
                return k
    if isinstance(d, Native):
        return dkind(I, Ext(d.name))
    if isinstance(d, str):
        return dkind(I, Ext(d))
    if isinstance(d, DType):
        return d.kind
    raise Unsupported('dtype %s' % describe(d))


class DType:
    def __init__(self, kind):
        self.kind = kind


def deq(I, a, b):
    """Equal dimensions? (decides on the path)"""
    if a == b or CTX.entails_eq(a, b):
        return True
    return I.branch(eq0(a - b))


def broadcast_shapes(I, *shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if x.const == 1:
                continue
            if d.const == 1:
                d = x
            elif not (x == d or CTX.entails_eq(x, d)):
                if I.branch(eq0(x - d)):
                    continue
                if I.branch(eq0(x - 1)):
                    continue
                if I.branch(eq0(d - 1)):
                    d = x
                    continue
                I.raise_('ValueError', 'shapes')
        out.append(d)
    return tuple(out)


def bmap(I, a, shape):
    """Element function of a broadcast to shape."""
    off = len(shape) - len(a.shape)
    one = []
    for k, s in enumerate(a.shape):
        d = shape[k + off]
        if s.const == 1 or not (s == d or CTX.entails_eq(s, d)):
            one.append(True)
        else:
            one.append(False)

    def el(*idx):
        return a.el(*[ZERO if o else i for o, i in zip(one, idx[off:])])
    return el


def elementwise(I, f, k, *arrs):
    shape = broadcast_shapes(I, *[a.shape for a in arrs])
    els = [bmap(I, a, shape) for a in arrs]
    r = mkarr(shape, lambda *i: f(*[e(*i) for e in els]), k)
    return unscal(r)


def unscal(a):
    """numpy functions return scalars instead of 0-d arrays."""
    if isinstance(a, Arr) and a.ndim == 0:
        return num(a.el(), a.ty())
    return a


def arith(I, n, a, b):
    if n == 'matmul':
        return matmul(I, a, b)
    for v in (a, b):
        if v is None or isinstance(v, (PyClass, PyFunc, DictV, SStr, str, Bound)):
            I.raise_('TypeError', 'operand')
        if isinstance(v, (Opaque, Ext, Native)):
            raise Unsupported('operand %s' % describe(v))
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        if isnum(a) and isnum(b):
            return scalar_op(I, n, a, b)
        if isinstance(a, SetV) or isinstance(b, SetV):
            I.raise_('TypeError', 'set operand')
        raise Unsupported('operands %s %s' % (describe(a), describe(b)))
    if isinstance(a, Masked) or isinstance(b, Masked):
        m = a if isinstance(a, Masked) else b
        for v in (a, b):
            if isinstance(v, Masked) and not (len(v.mask.shape) == m.mask.ndim and all(
                    deq(I, x, y) for x, y in zip(v.mask.shape, m.mask.shape))
                    and same_el(v.mask, m.mask)):
                raise Unsupported('elements of another mask')
            if isinstance(v, Arr) and v.ndim:
                raise Unsupported('selected elements with an array')
        return Masked(arith(I, n, a.arr if isinstance(a, Masked) else a,
                            b.arr if isinstance(b, Masked) else b), m.mask)
    A, B = asarray(I, a), asarray(I, b)
    ka, kb = kind_of(A), kind_of(B)
    k = promote(ka, kb)
    if n in ('truediv',):
        k = promote(k, 'f')
    if n == 'pow' and B.ndim == 0 and B.el().cint is not None and B.el().cint < 0 and k == 'i':
        I.raise_('ValueError', 'negative integer power')

    def f(p, q):
        if n == 'add':
            return p + q if k != 'b' else Or(p, q)
        if n == 'sub':
            return p - q
        if n == 'mul':
            return p * q
        if n == 'truediv':
            if q.const == 0:
                raise Unsupported('division by zero')
            return p * T.inv(q)
        if n == 'pow':
            return power(I, p, q, k)
        if n == 'floordiv':
            return T.fdiv(p, q)
        if n == 'mod':
            return T.mod(p, q)
        if n in ('and', 'or') and k == 'b':
            return p * q if n == 'and' else Or(p, q)
        raise Unsupported('array operator ' + n)
    if n in ('floordiv', 'mod'):
        if k not in 'i' or B.ndim or not CTX.entails_ge(B.el() - 1):
            raise Unsupported('array floor division')
    return elementwise(I, f, k, A, B)


def iarith(I, n, a, b):
    if n == 'matmul':
        r = matmul(I, a, b)
    else:
        r = arith(I, n, a, b)
    if isinstance(r, Num) or isnum(r):
        r = asarray(I, r)
    if RANK.index(r.dtype) > RANK.index(a.dtype):
        I.raise_('TypeError', 'UFuncTypeError cast')
    store(I, a, None, r)
    return a


def store(I, view, cond, val):
    """view[...] = val with broadcasting."""
    val = asarray(I, val) if not isinstance(val, Arr) else val
    if len(val.shape) > len(view.shape):
        extra = len(val.shape) - len(view.shape)
        if not all(s.const == 1 for s in val.shape[:extra]):
            I.raise_('ValueError', 'could not broadcast')
        v0 = val
        val = mkarr(v0.shape[extra:], lambda *i: v0.el(*([ZERO] * extra + list(i))), v0.dtype)
    off = len(view.shape) - len(val.shape)
    for s, d in zip(val.shape, view.shape[off:]):
        if s.const == 1:
            continue
        if not deq(I, s, d):
            if not I.branch(eq0(s - 1)):
                I.raise_('ValueError', 'could not broadcast')
    if view.dtype in 'fi' and val.dtype == 'c':
        I.raise_('TypeError', 'complex into real array')
    conv = (lambda p: toint(p)) if view.dtype == 'i' and val.dtype == 'f' else (lambda p: p)
    el = bmap(I, val, view.shape)
    # the value is evaluated before the write
    snap = mkarr(view.shape, lambda *i: conv(el(*i)), view.dtype)
    view.write(cond, snap.el)
    sync(I, view.buf)


def sync(I, buf):
    """Whether the reshape of an array that is not contiguous is a view depends on its memory
    layout and sizes: a change in place is checked for both cases."""
    if getattr(buf, 'maybe', None) is None:
        return
    src, out, g = buf.maybe
    if I.branch(eq0(T.var('reshapes_are_copies', 'i'))):
        return
    src.write(None, lambda *i: out.el(*g(*i)))
    sync(I, src.buf)


def matmul(I, a, b):
    if isinstance(a, (Obj, type(None), str)) or isinstance(b, (Obj, type(None), str)):
        I.raise_('TypeError', 'matmul')
    A, B = asarray(I, a), asarray(I, b)
    if A.ndim == 0 or B.ndim == 0:
        I.raise_('ValueError', 'matmul of scalars')
    k = promote(A.dtype, B.dtype)
    n = A.shape[-1]
    m = B.shape[-2] if B.ndim > 1 else B.shape[0]
    if not deq(I, n, m):
        I.raise_('ValueError', 'matmul shapes')
    if n.cint is None and m.cint is not None:
        n = m
    a1, b1 = A.ndim == 1, B.ndim == 1
    ba = A.shape[:-2] if not a1 else ()
    bb = B.shape[:-2] if not b1 else ()
    bs = broadcast_shapes(I, ba, bb) if (ba or bb) else ()
    shape = bs + (() if a1 else (A.shape[-2],)) + (() if b1 else (B.shape[-1],))
    nb = len(bs)

    def el(*idx):
        lead = idx[:nb]
        rest = list(idx[nb:])
        i = None if a1 else rest.pop(0)
        j = None if b1 else rest.pop(0)
        t = T.temp()
        with CTX.ranges([t], [n]):
            x = A.el(*(blead(lead, ba, nb) + ([] if a1 else [i]) + [P(t)]))
            y = B.el(*(blead(lead, bb, nb) + [P(t)] + ([] if b1 else [j])))
            body = x * y
        return T.Sum(t, n, body)
    return unscal(mkarr(shape, el, k))


def blead(lead, shp, nb):
    off = nb - len(shp)
    return [ZERO if s.const == 1 else l for s, l in zip(shp, lead[off:])]


# ------------------------------------------------------------------ comparison
def compare(I, n, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, (str, Obj)) or isinstance(b, (str, Obj)):
            if n == 'eq':
                return False
            if n == 'ne':
                return True
            I.raise_('TypeError', 'comparison')
        A, B = asarray(I, a), asarray(I, b)
        return elementwise(I, lambda p, q: cmp_poly(n, p, q), 'b', A, B)
    if isnum(a) and isnum(b):
        if badfloat(a) or badfloat(b):
            return cmp_inf(n, a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b,
                    'ge': a >= b}[n]
        if n not in ('eq', 'ne') and promote(kind_of(a), kind_of(b)) == 'c':
            I.raise_('TypeError', 'complex comparison')
        return num(cmp_poly(n, pol(a), pol(b)), 'np.bool_' if is_np(a) or is_np(b) else 'bool')
    if isinstance(a, str) and isinstance(b, str):
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[n]
    if isinstance(a, SStr) or isinstance(b, SStr):
        raise Unsupported('comparison of computed strings')
    if n in ('eq', 'ne'):
        if isinstance(a, Obj):
            c, f = a.cls.lookup('__eq__')
            if f is not None:
                r = I.call(Bound(f, a), [b], {})
                return r if n == 'eq' else not I.truth(r)
        r = equal(I, a, b)
        if isinstance(r, Poly):
            return num(r if n == 'eq' else Not(r), 'bool')
        return r if n == 'eq' else not r
    if isinstance(a, SetV) and isinstance(b, SetV):
        raise Unsupported('set comparison')
    if a is None or b is None or type(a) is not type(b):
        I.raise_('TypeError', 'comparison')
    raise Unsupported('comparison of %s and %s' % (describe(a), describe(b)))


def cmp_inf(n, a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[n]
    fa = a if badfloat(a) else 0.
    fb = b if badfloat(b) else 0.
    return cmp_inf(n, fa, fb)        # symbolic numbers are finite


def equal(I, a, b):
    if a is b:
        return True
    if isinstance(a, PList) and isinstance(b, PList):
        if a.tup != b.tup:
            return False
        if a.same(b):
            return True
        na, nb = a.length(), b.length()
        if not deq(I, na, nb):
            return False
        r = ONE
        for x, y in zip(I.concrete(a), I.concrete(b)):
            e = compare(I, 'eq', x, y)
            if isinstance(e, bool):
                if not e:
                    return False
            elif isinstance(e, Num):
                r = r * e.p
            else:
                raise Unsupported('comparison of lists of arrays')
        return True if r.const == 1 else r
    if isinstance(a, SetV) and isinstance(b, SetV):
        return sorted(map(repr, a.items)) == sorted(map(repr, b.items))
    if isinstance(a, DType) or isinstance(b, DType):
        try:
            return dkind(I, a) == dkind(I, b)
        except Unsupported:
            return False
    if isinstance(a, Range) and isinstance(b, Range):
        raise Unsupported('comparison of ranges')
    if isinstance(a, (Native, Ext)) and isinstance(b, (Native, Ext)):
        return a.name == b.name
    return False


def cmp_poly(n, p, q):
    if any(a.key.startswith('v:nan') for x in (p, q) for a in x.free):
        raise Unsupported('comparison of undefined values')
    if n == 'eq':
        return eq0(p - q)
    if n == 'ne':
        return Not(eq0(p - q))
    d = {'lt': q - p, 'le': q - p, 'gt': p - q, 'ge': p - q}[n]
    if n in ('le', 'ge'):
        return ge(d)
    if d.is_int():
        return ge(d - 1)
    return Not(ge(-d))


def invert(I, v):
    if isinstance(v, Arr) and v.dtype == 'b':
        return elementwise(I, Not, 'b', v)
    if isinstance(v, Num) and kind_of(v) == 'b':
        return num(Not(v.p), v.ty)
    if isinstance(v, int) and not isinstance(v, bool):
        return ~v
    raise Unsupported('invert')


def set_op(I, n, a, b):
    def has(c, x):
        r = I.contains(c, x)
        return r if isinstance(r, bool) else I.branch(r)
    if n == 'sub':
        return SetV([x for x in a.items if not has(b, x)])
    if n == 'and':
        return SetV([x for x in a.items if has(b, x)])
    if n == 'or':
        return SetV(list(a.items) + [x for x in b.items if not has(a, x)])
    raise Unsupported('set operator')


# ------------------------------------------------------------------ indexing
class Ix:
    """Result of np.ix_."""

    def __init__(self, arrs):
        self.arrs = arrs


def prep_index(I, a, idx):
    if len(idx) == 1 and isinstance(idx[0], Ix):
        return idx
    idx = list(idx)
    n = sum(1 for i in idx if i is not None and i is not Ellipsis)
    if sum(1 for i in idx if i is Ellipsis) > 1:
        I.raise_('IndexError')
    if n > a.ndim:
        I.raise_('IndexError', 'too many indices')
    if Ellipsis in [i for i in idx if not isinstance(i, (Arr, PList, Num))]:
        p = [k for k, i in enumerate(idx) if i is Ellipsis][0]
        idx[p:p + 1] = [Slice(None, None, None)] * (a.ndim - n)
    else:
        idx += [Slice(None, None, None)] * (a.ndim - n)
    out = []
    for i in idx:
        if isinstance(i, PList):
            i = asarray(I, i)
        if isinstance(i, Range):
            i = asarray(I, i)
        if isinstance(i, Arr) and i.ndim == 0:
            i = I.unbox(i)
        if isinstance(i, (float, complex)) or isinstance(i, Num) and kind_of(i) in 'fc':
            I.raise_('IndexError', 'only integers are valid indices')
        if isinstance(i, (str, Obj)):
            I.raise_('IndexError')
        out.append(i)
    return out


def getitem(I, a, idx):
    if isinstance(a, Arr) and len(idx) == 1 and isinstance(idx[0], Ix):
        return take_ix(I, a, idx[0])
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dtype == 'b' and \
            idx[0].ndim == a.ndim > 0 and all(deq(I, x, y) for x, y in zip(idx[0].shape, a.shape)):
        return Masked(a.copy(), idx[0].copy())
    idx = prep_index(I, a, idx)
    if any(isinstance(i, Arr) for i in idx):
        return fancy(I, a, idx)
    return basic(I, a, idx)


def basic(I, a, idx):
    shape, ops, ax = [], [], 0
    for i in idx:
        if i is None:
            shape.append(ONE)
            ops.append(('new',))
        elif isinstance(i, Slice):
            lo, hi, st = (None if x is None else unarr(I, x) for x in (i.lo, i.hi, i.st))
            m, f = I.slice_map(a.shape[ax], lo, hi, st)
            shape.append(m)
            ops.append(('slice', f))
            ax += 1
        elif isinstance(i, (int, Num)):
            if isinstance(i, bool):
                raise Unsupported('boolean index')
            j = I.norm_index(pol(i), a.shape[ax])
            ops.append(('int', j))
            ax += 1
        else:
            raise Unsupported('index %s' % describe(i))

    def f(*o):
        out, k = [], 0
        for op in ops:
            if op[0] == 'new':
                k += 1
            elif op[0] == 'slice':
                out.append(op[1](o[k]))
                k += 1
            else:
                out.append(op[1])
        return out
    if not shape:
        return num(a.el(*f()), a.ty())
    return a.view(shape, f)


def unarr(I, x):
    return I.unbox(x) if isinstance(x, Arr) else x


def check_range(I, A, n):
    """All elements of an index array are valid; returns the wrapping function."""
    ts = [T.temp() for _ in A.shape]
    with CTX.ranges(ts, A.shape):
        x = A.el(*[P(t) for t in ts])
        if CTX.entails_ge(x) and CTX.entails_ge(n - 1 - x):
            return lambda p: p
        if CTX.entails_ge(-x - 1) and CTX.entails_ge(n + x):
            return lambda p: p + n
    raise Unsupported('index array not provably within range')


class Masked:
    """a[mask]: the selected elements in order."""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask


def same_el(a, b):
    ts = [T.temp() for _ in a.shape]
    with CTX.ranges(ts, a.shape):
        i = [P(t) for t in ts]
        return a.el(*i) == b.el(*i)


def fancy(I, a, idx):
    if any(isinstance(i, Arr) and i.dtype == 'b' for i in idx):
        raise Unsupported('boolean mask')
    adv = [k for k, i in enumerate(idx) if isinstance(i, Arr)]
    ints = [k for k, i in enumerate(idx) if isinstance(i, (int, Num))]
    for k in adv:
        if idx[k].dtype != 'i':
            if idx[k].shape[0].const == 0:
                continue
            I.raise_('IndexError', 'index arrays must be integers')
    arrs = [idx[k] for k in adv]
    bs = broadcast_shapes(I, *[x.shape for x in arrs])
    allk = sorted(adv + ints)
    if allk != list(range(allk[0], allk[-1] + 1)):
        pos = 0
    else:
        pos = sum(1 for i in idx[:allk[0]])
    plan, ax, shape = [], 0, []
    els = {k: bmap(I, idx[k], bs) for k in adv}
    for k, i in enumerate(idx):
        if i is None:
            plan.append(('new',))
            shape.append(ONE)
            continue
        n = a.shape[ax]
        if isinstance(i, Slice):
            m, f = I.slice_map(n, i.lo, i.hi, i.st)
            plan.append(('slice', f))
            shape.append(m)
        elif isinstance(i, Arr):
            plan.append(('adv', k, check_range(I, i, n)))
        else:
            plan.append(('int', I.norm_index(pol(i), n)))
        ax += 1
    nb = len(bs)
    full = shape[:pos] + list(bs) + shape[pos:]

    def el(*o):
        b = o[pos:pos + nb]
        rest = list(o[:pos]) + list(o[pos + nb:])
        out, k = [], 0
        for p in plan:
            if p[0] == 'new':
                k += 1
            elif p[0] == 'slice':
                out.append(p[1](rest[k]))
                k += 1
            elif p[0] == 'adv':
                out.append(p[2](els[p[1]](*b)))
            else:
                out.append(p[1])
        return a.el(*out)
    return mkarr(full, el, a.dtype)


def take_ix(I, a, ix):
    n = len(ix.arrs)
    if n > a.ndim:
        I.raise_('IndexError')
    fs = [check_range(I, x, a.shape[k]) for k, x in enumerate(ix.arrs)]
    shape = [x.shape[0] for x in ix.arrs] + list(a.shape[n:])

    def el(*o):
        return a.el(*([f(x.el(i)) for f, x, i in zip(fs, ix.arrs, o)] + list(o[n:])))
    return mkarr(shape, el, a.dtype)


def setitem(I, a, idx, v):
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dtype == 'b':
        m = idx[0]
        if m.ndim != a.ndim:
            raise Unsupported('mask of different rank')
        if isinstance(v, Masked):
            # elements selected by the same mask, in the same order
            if not (len(v.mask.shape) == m.ndim and all(
                    deq(I, x, y) for x, y in zip(v.mask.shape, m.shape)) and same_el(m, v.mask)):
                raise Unsupported('elements of another mask')
            store(I, a, lambda *i: m.el(*i), v.arr)
            return
        val = asarray(I, v)
        if val.ndim:
            raise Unsupported('masked assignment of arrays')
        store(I, a, lambda *i: m.el(*i), val)
        return
    idx = prep_index(I, a, idx)
    if any(isinstance(i, (Arr, Ix)) for i in idx):
        scatter(I, a, idx, v)
        return
    # a scalar element needs a 0-d view
    sub = basic_view(I, a, idx)
    store(I, sub, None, asarray(I, v))


def scatter(I, a, idx, v):
    """Assignment to index arrays: one assignment after the other."""
    if isinstance(idx[0], Ix):
        m = len(idx[0].arrs)
        if m > a.ndim:
            I.raise_('IndexError')
        arrs = {k: mkarr([ONE] * k + [x.shape[0]] + [ONE] * (m - 1 - k),
                         lambda *i, k=k, x=x.copy(): x.el(i[k]), 'i')
                for k, x in enumerate(idx[0].arrs)}
        idx = [None] * m + [Slice(None, None, None)] * (a.ndim - m)
        ints = {}
    else:
        if any(i is None for i in idx) or any(isinstance(i, Arr) and i.dtype == 'b' for i in idx):
            raise Unsupported('assignment to masks or new axes')
        arrs = {k: i.copy() for k, i in enumerate(idx) if isinstance(i, Arr)}
        for x in arrs.values():
            if x.dtype != 'i' and x.shape[0].const != 0:
                I.raise_('IndexError', 'index arrays must be integers')
        ints = {k: i for k, i in enumerate(idx) if isinstance(i, (int, Num))}
    bs = broadcast_shapes(I, *[x.shape for x in arrs.values()])
    for k, x in arrs.items():
        check_range(I, x, a.shape[k])
    els = {k: bmap(I, x, bs) for k, x in arrs.items()}
    places = sorted(list(arrs) + list(ints))
    pos = places[0] if places == list(range(places[0], places[-1] + 1)) else 0
    rest = [I.slice_map(a.shape[k], *[None if x is None else unarr(I, x) for x in (
        i.lo, i.hi, i.st)])[0] for k, i in enumerate(idx) if isinstance(i, Slice)]
    val = asarray(I, v).copy()
    f = bmap(I, val, rest[:pos] + list(bs) + rest[pos:])

    def at(b):
        if len(b) < len(bs):
            I.iterate(Range(bs[len(b)], toP), lambda j: at(b + (j,)))
            return
        sub = [num(els[k](*b), 'int') if k in els else i for k, i in enumerate(idx)]
        new = mkarr(rest, lambda *r: f(*(r[:pos] + b + r[pos:])), val.dtype)
        store(I, basic_view(I, a, sub), None, new)
    at(())


def basic_view(I, a, idx):
    r = None
    if all(isinstance(i, (int, Num)) for i in idx):
        js = [I.norm_index(pol(i), n) for i, n in zip(idx, a.shape)]
        r = a.view((), lambda *o: js)
    else:
        r = basic(I, a, idx)
    return r


# ------------------------------------------------------------------ reshaping
def ints_of(I, v):
    if isinstance(v, (int, Num)):
        return [pol(v)]
    if isinstance(v, Arr) and v.ndim == 0:
        return [v.el()]
    return [pol(unarr(I, x)) for x in I.concrete(v)]


def prod(ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


def contiguous(a):
    return len(a.shape) == len(a.buf.shape) and all(
        m.key == IXP[k].key for k, m in enumerate(a.maps)) and all(
        s == t for s, t in zip(a.shape, a.buf.shape))


def reshape(I, a, shape):
    shape = list(shape)
    size = prod(a.shape)
    neg = [k for k, s in enumerate(shape) if s.const == -1]
    if neg:
        rest = prod([s for k, s in enumerate(shape) if k != neg[0]])
        q = T.div_exact(size, rest)
        if q is None:
            if rest.cint and size.cint is not None:
                I.raise_('ValueError', 'reshape')
            q = T.fdiv(size, rest)
            if not I.branch(eq0(q * rest - size)):
                I.raise_('ValueError', 'reshape')
        shape[neg[0]] = q
    elif not deq(I, prod(shape), size):
        I.raise_('ValueError', 'reshape')
    src = a.shape

    if contiguous(a):
        return a.view(shape, regrouped(src, shape))
    f, g = regrouped(src, shape), regrouped(shape, src)
    out = mkarr(shape, lambda *o: a.el(*f(*o)), a.dtype)
    if not a.ro and not a.buf.ro:
        out.buf.maybe = (a, out, g)
    return out


def regrouped(src, dst):
    """Index map of the reshape of src to dst: index in dst -> index in src."""
    def f(*o):
        # common leading and trailing dimensions keep their index
        s1, s2, o = list(src), list(dst), list(o)
        head, tail = [], []
        while s1 and s2 and s1[0] == s2[0]:
            head.append(o.pop(0))
            s1.pop(0)
            s2.pop(0)
        while s1 and s2 and s1[-1] == s2[-1]:
            tail.insert(0, o.pop())
            s1.pop()
            s2.pop()
        flat = ZERO
        for n, i in zip(s2, o):
            if n.const == 1:
                continue
            flat = flat * n + i
        out = []
        st = ONE
        full = prod(s1)
        for n in reversed(s1):
            if n.const == 1:
                out.append(ZERO)
                continue
            out.append(T.mod(T.fdiv(flat, st), n) if not (st * n == full) else T.fdiv(flat, st))
            st = st * n
        out = out[::-1]
        return head + out + tail
    return f


def ranged_view(a, shape, f):
    return a.view(shape, f)


def transpose(I, a, axes=None):
    n = a.ndim
    axes = list(range(n))[::-1] if axes is None else [norm_axis(I, x, n) for x in axes]
    if sorted(axes) != list(range(n)):
        I.raise_('ValueError', 'axes')

    def f(*o):
        out = [None] * n
        for k, ax in enumerate(axes):
            out[ax] = o[k]
        return out
    return a.view([a.shape[x] for x in axes], f)


def norm_axis(I, x, n):
    x = pol(x).cint if not isinstance(x, int) else x
    if x is None:
        raise Unsupported('symbolic axis')
    if not -n <= x < n:
        I.raise_('ValueError', 'axis')
    return x % n


def axes_of(I, axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, (int, Num)):
        return [norm_axis(I, axis, n)]
    return [norm_axis(I, x, n) for x in I.concrete(axis)]


def reduce_sum(I, a, axis=None, keepdims=False, k=None):
    if axis is None and a.ndim == 0:
        return num(a.el(), a.ty())
    axs = axes_of(I, axis, a.ndim)
    kd = [s for i, s in enumerate(a.shape) if i not in axs]
    k = k or ('i' if a.dtype == 'b' else a.dtype)

    def el(*o):
        o = list(o)
        ts = {i: T.temp() for i in axs}
        with CTX.ranges([ts[i] for i in axs], [a.shape[i] for i in axs]):
            idx = [P(ts[i]) if i in ts else o.pop(0) for i in range(a.ndim)]
            b = a.el(*idx)
        for i in reversed(axs):
            b = T.Sum(ts[i], a.shape[i], b)
        return b
    if keepdims:
        sh = [ONE if i in axs else s for i, s in enumerate(a.shape)]
        return mkarr(sh, lambda *o: el(*[x for i, x in enumerate(o) if i not in axs]), k)
    return unscal(mkarr(kd, el, k))


def reduce_fn(I, name, a, axis=None, sort='r', k=None):
    """Uninterpreted reduction (max, min, ...) of the elements along axes."""
    axs = axes_of(I, axis, a.ndim)
    kd = [s for i, s in enumerate(a.shape) if i not in axs]
    k = k or a.dtype

    def el(*o):
        o = list(o)
        ts = {i: T.temp() for i in axs}
        with CTX.ranges([ts[i] for i in axs], [a.shape[i] for i in axs]):
            idx = [P(ts[i]) if i in ts else o.pop(0) for i in range(a.ndim)]
            b = a.el(*idx)
        if all(a.shape[i].const == 1 for i in axs) and name in ('max', 'min', 'prod'):
            return subst(b, {ts[i]: ZERO for i in axs})
        lam = Lam([a.shape[i] for i in axs], [ts[i] for i in axs], b)
        T.EXTREMES[:] = [True]
        return P(T._mk('g', 'red_' + name, (lam,), sort))
    return unscal(mkarr(kd, el, k))


# ------------------------------------------------------------------ functions
def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def allow(kw, *names):
    for k in kw:
        if k not in names:
            raise Unsupported('keyword %s' % k)


def out_of(I, r, kw):
    o = kw.get('out')
    if o is None:
        return r
    r = asarray(I, r)
    if len(r.shape) != len(o.shape) or not all(deq(I, x, y) for x, y in zip(r.shape, o.shape)):
        I.raise_('ValueError', 'out shape')
    if RANK.index(r.dtype) > RANK.index(o.dtype):
        I.raise_('TypeError', 'cast of out')
    store(I, o, None, r)
    return o


def of_object(I, name, v):
    """numpy wraps an object that is no sequence in an array without axes and
    calls the method of the function's name."""
    def has(m):
        try:
            return I.getattr(v, m)
        except PyRaise:
            return None
    if any(has(m) for m in ('__array__', '__len__', '__array_ufunc__', '__array_interface__',
                            '__buffer__', '__float__')):
        raise Unsupported('ufunc of an object')
    if name in ('real', 'imag'):
        r = has(name)
        if r is None:
            raise Unsupported('part of an object')
        return r
    f = has({'conj': 'conjugate', 'abs': '__abs__', 'absolute': '__abs__'}.get(name, name))
    if f is None:
        I.raise_('TypeError', 'ufunc')
    return I.call(f, [], {})


def ufunc(*paths):
    """Elementwise function of one argument: f(p) -> poly, kind map."""
    def deco(spec):
        f, kk = spec

        def g(I, a, kw):
            allow(kw, 'out', 'dtype')
            v = a[0]
            if isinstance(v, PList) or isinstance(v, Range):
                v = asarray(I, v)
            if isinstance(v, Arr):
                return out_of(I, elementwise(I, f, kk(v.dtype), v), kw)
            if v is None or isinstance(v, (str, Obj)):
                if isinstance(v, Obj):
                    return of_object(I, paths[-1].split('.')[-1], v)
                I.raise_('TypeError', 'ufunc')
            if badfloat(v):
                raise Unsupported('ufunc of inf')
            return num(f(pol(v)), NPTY[kk(kind_of(v))])
        for p in paths:
            STUBS[p] = g
    return deco


_f = lambda k: promote(k, 'f')
_id = lambda k: k
_real = lambda k: 'f' if k == 'c' else k


def s_of(p):
    return 'r' if p.is_real() else 'c'


ufunc('numpy.conj', 'numpy.conjugate')((T.conj, _id))
ufunc('numpy.real')((T.re, _real))
ufunc('numpy.imag')((T.im, _real))
ufunc('numpy.abs', 'numpy.absolute')((T.absv, _real))
ufunc('numpy.sqrt', 'math.sqrt')((T.sqrt, _f))
ufunc('numpy.exp', 'math.exp')((T.exp, _f))
ufunc('numpy.expm1')((lambda p: T.exp(p) - 1, _f))
ufunc('numpy.square')((lambda p: p * p, _id))
ufunc('numpy.isnan', 'numpy.isinf')((lambda p: ZERO, lambda k: 'b'))
for _n in ('log', 'log2', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'tanh', 'sinh', 'cosh',
           'angle', 'sign'):
    ufunc('numpy.' + _n)((lambda p, n=_n: gfun(n, p, sort=s_of(p)), _f))
ufunc('numpy.ceil')((lambda p: p if p.is_int() else -gfun('floor', -p, sort='i'), _f))
ufunc('numpy.floor')((lambda p: p if p.is_int() else gfun('floor', p, sort='i'), _f))
ufunc('scipy.special.erfinv')((lambda p: gfun('erfinv', p, sort=s_of(p)), _f))
ufunc('scipy.special.erf')((lambda p: gfun('erf', p, sort=s_of(p)), _f))


def build_array(I, a, kw, copy):
    allow(kw, 'dtype', 'copy', 'ndmin')
    v = a[0]
    k = dkind(I, arg(a, kw, 1, 'dtype'))
    if isinstance(v, Arr):
        if not copy and (k is None or k == v.dtype):
            return v
        return cast(v, k) if k is not None and k != v.dtype else v.copy()
    if isinstance(v, Obj):
        raise Unsupported('array of an object')
    return asarray(I, v, k)


STUBS['numpy.array'] = lambda I, a, kw: build_array(I, a, kw, True)
STUBS['numpy.asarray'] = lambda I, a, kw: build_array(I, a, kw, False)
STUBS['numpy.copy'] = lambda I, a, kw: build_array(I, a, kw, True)


def filled(val):
    def g(I, a, kw):
        allow(kw, 'shape', 'dtype')
        shp = ints_of(I, arg(a, kw, 0, 'shape'))
        k = dkind(I, arg(a, kw, 1, 'dtype')) or 'f'
        for s in shp:
            if not CTX.entails_ge(s) and not I.branch(ge(s)):
                I.raise_('ValueError', 'negative dimensions')
        return mkarr(shp, lambda *i: const(val), k)
    return g


STUBS['numpy.zeros'] = filled(0)
STUBS['numpy.ones'] = filled(1)
_emp = itertools.count()


@stub('numpy.empty')
def _(I, a, kw):
    shp = ints_of(I, arg(a, kw, 0, 'shape'))
    k = dkind(I, arg(a, kw, 1, 'dtype')) or 'f'
    n = 'empty%d' % next(_emp)
    return mkarr(shp, lambda *i: fn(n, *i, sort=SORT[k]), k)


@stub('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like')
def _(I, a, kw):
    raise Unsupported('like')


def _like(val):
    def g(I, a, kw):
        A = asarray(I, a[0])
        k = dkind(I, arg(a, kw, 1, 'dtype')) or A.dtype
        return mkarr(A.shape, lambda *i: const(val), k)
    return g


STUBS['numpy.zeros_like'] = _like(0)
STUBS['numpy.ones_like'] = _like(1)
STUBS['numpy.empty_like'] = lambda I, a, kw: (lambda A, n: mkarr(
    A.shape, lambda *i: fn(n, *i, sort=SORT[A.dtype]), A.dtype))(asarray(I, a[0]),
                                                                'empty%d' % next(_emp))


@stub('numpy.full')
def _(I, a, kw):
    shp = ints_of(I, arg(a, kw, 0, 'shape'))
    v = pol(arg(a, kw, 1, 'fill_value'))
    return mkarr(shp, lambda *i: v, dkind(I, arg(a, kw, 2, 'dtype')) or kind_of(a[1]))


@stub('numpy.eye', 'numpy.identity')
def _(I, a, kw):
    allow(kw, 'dtype', 'N', 'M')
    n = pol(arg(a, kw, 0, 'N'))
    m = arg(a, kw, 1, 'M')
    m = n if m is None or isinstance(m, Ext) else pol(m)
    k = dkind(I, kw.get('dtype')) or 'f'
    return mkarr((n, m), lambda i, j: eq0(i - j), k)


@stub('numpy.diag')
def _(I, a, kw):
    A = asarray(I, a[0])
    if A.ndim == 1:
        return mkarr((A.shape[0], A.shape[0]), lambda i, j: eq0(i - j) * A.el(i), A.dtype)
    if not deq(I, A.shape[0], A.shape[1]):
        raise Unsupported('diag')
    return mkarr((A.shape[0],), lambda i: A.el(i, i), A.dtype)


@stub('numpy.sum')
def _(I, a, kw):
    allow(kw, 'axis', 'keepdims', 'a')
    A = asarray(I, arg(a, kw, 0, 'a'))
    return reduce_sum(I, A, arg(a, kw, 1, 'axis'), kw.get('keepdims', False))


@stub('numpy.mean')
def _(I, a, kw):
    allow(kw, 'axis', 'keepdims', 'a')
    A = asarray(I, arg(a, kw, 0, 'a'))
    ax = arg(a, kw, 1, 'axis')
    axs = axes_of(I, ax, A.ndim)
    k = promote(A.dtype, 'f')
    return arith(I, 'mul', reduce_sum(I, A, ax, kw.get('keepdims', False), k),
                 Num(T.inv(prod([A.shape[i] for i in axs])), 'float'))


@stub('numpy.prod')
def _(I, a, kw):
    allow(kw, 'axis', 'dtype')
    v = arg(a, kw, 0, 'a')
    k = dkind(I, kw.get('dtype'))
    if isinstance(v, PList) or isinstance(v, Arr) and v.ndim == 1 and v.shape[0].cint is not None:
        s = I.seq(v)
        if s.n.cint is not None:
            ps = [pol(unarr(I, s.at(const(i)))) for i in range(s.n.cint)]
            kk = k or (promote(*[kind_of(s.at(const(i))) for i in range(s.n.cint)])
                       if ps else 'f')
            return num(prod(ps), NPTY[kk])
    A = asarray(I, v)
    return reduce_fn(I, 'prod', A, arg(a, kw, 1, 'axis'), SORT[A.dtype])


@stub('numpy.max', 'numpy.amax')
def _(I, a, kw):
    A = asarray(I, a[0])
    return reduce_fn(I, 'max', A, arg(a, kw, 1, 'axis'), SORT[A.dtype])


@stub('numpy.min', 'numpy.amin')
def _(I, a, kw):
    A = asarray(I, a[0])
    return reduce_fn(I, 'min', A, arg(a, kw, 1, 'axis'), SORT[A.dtype])


@stub('numpy.std')
def _(I, a, kw):
    allow(kw, 'axis', 'ddof', 'a')
    A = asarray(I, arg(a, kw, 0, 'a'))
    ax = arg(a, kw, 1, 'axis')
    mean = STUBS['numpy.mean']
    ddof = pol(kw.get('ddof', 0))
    size = prod([A.shape[i] for i in axes_of(I, ax, A.ndim)])
    if ddof.terms and I.branch(ge(ddof - size)):
        raise Unsupported('more degrees of freedom than elements')
    m = mean(I, [A], dict(axis=ax, keepdims=True))
    d = arith(I, 'sub', A, m)
    sq = asarray(I, STUBS['numpy.abs'](I, [d], {}))
    v = mean(I, [arith(I, 'mul', sq, sq)], dict(axis=ax))
    if ddof.terms:
        v = arith(I, 'mul', v, Num(size * T.inv(size - ddof), 'float'))
    return STUBS['numpy.sqrt'](I, [v], {})


@stub('numpy.var')
def _(I, a, kw):
    r = STUBS['numpy.std'](I, a, kw)
    return arith(I, 'mul', r, r)


@stub('numpy.argmin')
def _(I, a, kw):
    A = asarray(I, a[0])
    return reduce_fn(I, 'argmin', A, arg(a, kw, 1, 'axis'), 'i', 'i')


@stub('numpy.argmax')
def _(I, a, kw):
    A = asarray(I, a[0])
    return reduce_fn(I, 'argmax', A, arg(a, kw, 1, 'axis'), 'i', 'i')


@stub('numpy.all', 'numpy.any')
def _(I, a, kw):
    raise Unsupported('all')


def forall(I, A):
    """Conjunction of boolean elements (one opaque truth value if undecided)."""
    ts = [T.temp() for _ in A.shape]
    with CTX.ranges(ts, A.shape):
        b = A.el(*[P(t) for t in ts])
        if b.const == 1 or CTX.entails(b):
            return ONE
    if all(s.cint is not None for s in A.shape):
        r = ONE
        for idx in itertools.product(*[range(s.cint) for s in A.shape]):
            r = r * A.el(*[const(i) for i in idx])
        return r
    if b.const == 0 and all(CTX.entails_ge(s - 1) for s in A.shape):
        return ZERO
    return P(T._mk('g', 'bool', ('forall', Lam(A.shape, ts, b)), 'i'))


def _all(I, a, kw):
    A = asarray(I, a[0])
    if A.dtype != 'b':
        A = cast(A, 'b')
    return num(forall(I, A), 'np.bool_')


def _any(I, a, kw):
    A = asarray(I, a[0])
    if A.dtype != 'b':
        A = cast(A, 'b')
    return num(Not(forall(I, asarray(I, elementwise(I, Not, 'b', A)))), 'np.bool_')


STUBS['numpy.all'] = _all
STUBS['numpy.any'] = _any


@stub('numpy.array_equal')
def _(I, a, kw):
    for v in a:
        if v is None or isinstance(v, (Obj, str)):
            return False
    A, B = asarray(I, a[0]), asarray(I, a[1])
    if len(A.shape) != len(B.shape):
        return False
    for x, y in zip(A.shape, B.shape):
        if not deq(I, x, y):
            return False
    return num(forall(I, mkarr(A.shape, lambda *i: eq0(A.el(*i) - B.el(*i)), 'b')), 'bool')


def close_poly(p, q):
    d = p - q
    if not d.terms:
        return ONE
    if d.const is not None and p.const is not None:
        return ONE if abs(d.const) <= Fraction(1, 10**8) + Fraction(1, 10**5) * abs(q.const) \
            else ZERO
    return P(T._mk('g', 'bool', ('close', p, q), 'i'))


@stub('numpy.isclose')
def _(I, a, kw):
    A, B = asarray(I, a[0]), asarray(I, a[1])
    return elementwise(I, close_poly, 'b', A, B)


@stub('numpy.allclose')
def _(I, a, kw):
    A, B = asarray(I, a[0]), asarray(I, a[1])
    c = elementwise(I, close_poly, 'b', A, B)
    return num(forall(I, asarray(I, c)), 'bool')


@stub('numpy.cumsum')
def _(I, a, kw):
    A = asarray(I, a[0])
    ax = arg(a, kw, 1, 'axis')
    if ax is None and A.ndim != 1:
        A = reshape(I, A, [prod(A.shape)])
    ax = norm_axis(I, 0 if ax is None else ax, A.ndim)

    def el(*i):
        t = T.temp()
        with CTX.ranges([t], [i[ax] + 1]):
            b = A.el(*(i[:ax] + (P(t),) + i[ax + 1:]))
        return T.Sum(t, i[ax] + 1, b)
    return mkarr(A.shape, el, 'i' if A.dtype == 'b' else A.dtype)


@stub('numpy.diff')
def _(I, a, kw):
    A = asarray(I, a[0])
    if arg(a, kw, 1, 'n', 1) != 1 or A.dtype == 'b':
        raise Unsupported('diff')
    if not A.ndim:
        I.raise_('ValueError', 'diff')
    ax = norm_axis(I, arg(a, kw, 2, 'axis', -1), A.ndim)
    m = A.shape[ax] - 1
    if not CTX.entails_ge(m) and not I.branch(ge(m)):
        m = ZERO
    return mkarr(tuple(A.shape[:ax]) + (m,) + tuple(A.shape[ax + 1:]), lambda *i: A.el(
        *(i[:ax] + (i[ax] + 1,) + i[ax + 1:])) - A.el(*i), A.dtype)


def under(c, f):
    """f() evaluated with the indicator c assumed."""
    if c.const is not None:
        return f() if c.const else ZERO
    CTX.push()
    CTX.assume(c)
    try:
        return f()
    finally:
        CTX.pop()


def ite_l(c, fx, fy):
    if c.const is not None:
        return fx() if c.const else fy()
    return ite(c, under(c, fx), under(Not(c), fy))


@stub('numpy.concatenate')
def _(I, a, kw):
    allow(kw, 'axis')
    v = a[0]
    ax = arg(a, kw, 1, 'axis', 0)
    if not isinstance(v, Arr):
        q = I.seq(v).n
        if q.cint is None and not any(CTX.entails_eq(q, const(c)) for c in range(6)):
            return concatenate_family(I, v, ax)
    arrs = [asarray(I, x) for x in I.concrete(v)]
    n = arrs[0].ndim
    if any(x.ndim != n for x in arrs):
        I.raise_('ValueError', 'concatenate dimensions')
    if n == 0:
        I.raise_('ValueError', 'zero-dimensional')
    ax = norm_axis(I, ax, n)
    k = promote(*[x.dtype for x in arrs])
    for x in arrs[1:]:
        for d in range(n):
            if d != ax and not deq(I, x.shape[d], arrs[0].shape[d]):
                I.raise_('ValueError', 'concatenate shapes')
    offs = [ZERO]
    for x in arrs:
        offs.append(offs[-1] + x.shape[ax])
    shape = list(arrs[0].shape)
    shape[ax] = offs[-1]

    def el(*i):
        def rec(j):
            x = arrs[j]
            fx = lambda: x.el(*[p - offs[j] if d == ax else p for d, p in enumerate(i)])
            if j == len(arrs) - 1:
                return fx()
            return ite_l(ge(offs[j + 1] - 1 - i[ax]), fx, lambda: rec(j + 1))
        return rec(0)
    return mkarr(shape, el, k)


def concatenate_family(I, v, ax):
    """A list of any number of arrays of one shape: the stack with two axes merged."""
    A = nested(I, v, None)
    if A.ndim < 2:
        I.raise_('ValueError', 'nothing to concatenate')
    n = A.ndim - 1
    ax = norm_axis(I, ax, n)
    order = list(range(1, n + 1))
    order.insert(ax, 0)
    sh = list(A.shape[1:])
    sh[ax] = A.shape[0] * sh[ax]
    return reshape(I, transpose(I, A, order), sh).copy()


STUBS['numpy.append'] = lambda I, a, kw: STUBS['numpy.concatenate'](
    I, [plist([asarray1(I, a[0]), asarray1(I, a[1])])], kw)
STUBS['numpy.hstack'] = lambda I, a, kw: STUBS['numpy.concatenate'](
    I, [a[0]], dict(axis=0 if asarray(I, I.concrete(a[0])[0]).ndim == 1 else 1))
STUBS['numpy.vstack'] = lambda I, a, kw: STUBS['numpy.concatenate'](
    I, [plist([STUBS['numpy.atleast_2d'](I, [x], {}) for x in I.concrete(a[0])])], dict(axis=0))


def asarray1(I, v):
    A = asarray(I, v)
    return reshape(I, A, [ONE]) if A.ndim == 0 else A


@stub('numpy.stack')
def _(I, a, kw):
    ax = arg(a, kw, 1, 'axis', 0)
    A = asarray(I, a[0])
    ax = norm_axis(I, ax, A.ndim)
    if ax == 0:
        return A.copy()
    order = list(range(1, A.ndim))
    order.insert(ax, 0)
    return transpose(I, A, order).copy()


@stub('numpy.expand_dims')
def _(I, a, kw):
    A = asarray(I, a[0])
    ax = norm_axis(I, arg(a, kw, 1, 'axis'), A.ndim + 1)
    sh = list(A.shape)
    sh.insert(ax, ONE)
    return A.view(sh, lambda *o: [x for i, x in enumerate(o) if i != ax])


@stub('numpy.squeeze')
def _(I, a, kw):
    A = asarray(I, a[0])
    ax = arg(a, kw, 1, 'axis')
    if ax is not None:
        axs = axes_of(I, ax, A.ndim)
        for i in axs:
            if A.shape[i].const != 1 and not I.branch(eq0(A.shape[i] - 1)):
                I.raise_('ValueError', 'squeeze')
    else:
        axs = []
        for i, s in enumerate(A.shape):
            if s.const == 1 or s.const is None and not CTX.entails_ge(s - 2) and \
                    I.branch(eq0(s - 1)):
                axs.append(i)
    sh = [s for i, s in enumerate(A.shape) if i not in axs]

    def f(*o):
        o = list(o)
        return [ZERO if i in axs else o.pop(0) for i in range(A.ndim)]
    return A.view(sh, f)


@stub('numpy.atleast_1d')
def _(I, a, kw):
    A = asarray(I, a[0])
    return A.view([ONE], lambda i: []) if A.ndim == 0 else A


@stub('numpy.atleast_2d')
def _(I, a, kw):
    A = asarray(I, a[0])
    if A.ndim == 0:
        return A.view([ONE, ONE], lambda i, j: [])
    if A.ndim == 1:
        return A.view([ONE, A.shape[0]], lambda i, j: [j])
    return A


@stub('numpy.repeat')
def _(I, a, kw):
    allow(kw, 'axis', 'repeats')
    A = asarray(I, a[0])
    n = pol(unarr(I, arg(a, kw, 1, 'repeats'))) if not isinstance(
        arg(a, kw, 1, 'repeats'), Arr) or arg(a, kw, 1, 'repeats').ndim == 0 else None
    if n is None:
        raise Unsupported('repeat with an array')
    ax = arg(a, kw, 2, 'axis')
    if ax is None:
        A = reshape(I, A, [prod(A.shape)])
        ax = 0
    ax = norm_axis(I, ax, A.ndim)
    if not CTX.entails_ge(n - 1) and not I.branch(ge(n - 1)):
        raise Unsupported('repeat of nothing')
    sh = list(A.shape)
    sh[ax] = sh[ax] * n
    return mkarr(sh, lambda *i: A.el(*[T.fdiv(x, n) if d == ax else x
                                       for d, x in enumerate(i)]), A.dtype)


@stub('numpy.tile')
def _(I, a, kw):
    A = asarray(I, a[0])
    r = ints_of(I, a[1])
    while len(r) < A.ndim:
        r.insert(0, ONE)
    if len(r) > A.ndim:
        A0, k = A, len(r) - A.ndim
        A = A0.view([ONE] * k + list(A0.shape), lambda *o: o[k:])
    return mkarr([s * n for s, n in zip(A.shape, r)],
                 lambda *i: A.el(*[x if n.const == 1 else T.mod(x, s)
                                   for x, n, s in zip(i, r, A.shape)]), A.dtype)


@stub('numpy.outer')
def _(I, a, kw):
    A, B = asarray1(I, a[0]), asarray1(I, a[1])
    return mkarr((A.shape[0], B.shape[0]), lambda i, j: A.el(i) * B.el(j),
                 promote(A.dtype, B.dtype))


@stub('numpy.kron')
def _(I, a, kw):
    A, B = asarray(I, a[0]), asarray(I, a[1])
    if A.ndim != B.ndim:
        n = max(A.ndim, B.ndim)
        A, B = (x.view([ONE] * (n - x.ndim) + list(x.shape), lambda *o, x=x: o[n - x.ndim:])
                for x in (A, B))

    def el(*i):
        ia = [T.fdiv(x, s) if s.const != 1 else x for x, s in zip(i, B.shape)]
        ib = [T.mod(x, s) if s.const != 1 else ZERO for x, s in zip(i, B.shape)]
        ia = [ZERO if s.const == 1 else x for x, s in zip(ia, A.shape)]
        return A.el(*ia) * B.el(*ib)
    return mkarr([x * y for x, y in zip(A.shape, B.shape)], el, promote(A.dtype, B.dtype))


@stub('numpy.matmul', 'numpy.dot')
def _(I, a, kw):
    A, B = a[0], a[1]
    return out_of(I, matmul(I, A, B), kw)


def _dot(I, a, kw):
    A, B = asarray(I, a[0]), asarray(I, a[1])
    if A.ndim == 0 or B.ndim == 0:
        return arith(I, 'mul', A, B)
    if A.ndim > 2 or B.ndim > 2:
        raise Unsupported('dot of high-dimensional arrays')
    return out_of(I, matmul(I, A, B), kw)


STUBS['numpy.dot'] = _dot


def ufunc2(n):
    def g(I, a, kw):
        allow(kw, 'out')
        return out_of(I, arith(I, n, asarray(I, a[0]), asarray(I, a[1])), kw)
    return g


for _n, _o in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'), ('power', 'pow')):
    STUBS['numpy.' + _n] = ufunc2(_o)


@stub('numpy.divide', 'numpy.true_divide')
def _(I, a, kw):
    A, B = asarray(I, a[0]), asarray(I, a[1])
    w = kw.get('where')
    if w is None:
        return out_of(I, arith(I, 'truediv', A, B), kw)
    o = kw.get('out')
    if o is None:
        raise Unsupported('divide where without out')
    w = asarray(I, w)
    shape = broadcast_shapes(I, A.shape, B.shape, w.shape)
    ea, eb, ew, eo = (bmap(I, x, shape) for x in (A, B, w, o))

    def el(*i):
        c = ew(*i)
        if c.const is not None and not c.const:
            return eo(*i)
        return ite_l(c, lambda: ea(*i) * T.inv(eb(*i)), lambda: eo(*i))
    r = mkarr(shape, el, promote(A.dtype, B.dtype, 'f'))
    return out_of(I, r, dict(out=o))


@stub('numpy.where')
def _(I, a, kw):
    if len(a) != 3:
        raise Unsupported('where')
    c, x, y = (asarray(I, v) for v in a)
    if c.dtype != 'b':
        c = cast(c, 'b')
    return elementwise(I, lambda p, q, r: ite(p, q, r), promote(x.dtype, y.dtype), c, x, y)


@stub('numpy.maximum')
def _(I, a, kw):
    A, B = asarray(I, a[0]), asarray(I, a[1])
    return elementwise(I, lambda p, q: ite(ge(p - q), p, q), promote(A.dtype, B.dtype), A, B)


@stub('numpy.minimum')
def _(I, a, kw):
    A, B = asarray(I, a[0]), asarray(I, a[1])
    return elementwise(I, lambda p, q: ite(ge(q - p), p, q), promote(A.dtype, B.dtype), A, B)


@stub('numpy.clip')
def _(I, a, kw):
    lo, hi = arg(a, kw, 1, 'a_min'), arg(a, kw, 2, 'a_max')
    r = a[0]
    if lo is not None:
        r = STUBS['numpy.maximum'](I, [r, lo], {})
    if hi is not None:
        r = STUBS['numpy.minimum'](I, [r, hi], {})
    return r


@stub('numpy.reshape')
def _(I, a, kw):
    allow(kw, 'newshape', 'shape', 'order')
    return reshaped(I, asarray(I, a[0]), ints_of(I, arg(a, kw, 1, 'shape', kw.get('newshape'))),
                    arg(a, kw, 2, 'order', 'C'))


def reshaped(I, A, shape, order):
    if order == 'C':
        return reshape(I, A, shape)
    if order != 'F':
        raise Unsupported('order %s' % (order,))
    return transpose(I, reshape(I, transpose(I, A), shape[::-1]))


@stub('numpy.ascontiguousarray',
      note='ascontiguousarray of a view with permuted axes is a copy')
def _(I, a, kw):
    A = asarray(I, a[0])
    if 'dtype' in kw or len(a) > 1:
        raise Unsupported('dtype of ascontiguousarray')
    if A.ndim and all(m.key == P(x).key for m, x in zip(A.maps, IX)) and len(
            A.maps) == A.ndim:
        return A
    return A.copy()


@stub('numpy.transpose')
def _(I, a, kw):
    ax = arg(a, kw, 1, 'axes')
    return transpose(I, asarray(I, a[0]), None if ax is None else I.concrete(ax))


@stub('numpy.swapaxes')
def _(I, a, kw):
    A = asarray(I, a[0])
    n = A.ndim
    x, y = norm_axis(I, a[1], n), norm_axis(I, a[2], n)
    o = list(range(n))
    o[x], o[y] = o[y], o[x]
    return transpose(I, A, o)


@stub('numpy.moveaxis')
def _(I, a, kw):
    A = asarray(I, a[0])
    n = A.ndim
    xs, ys = [[norm_axis(I, k, n) for k in (I.concrete(v) if isinstance(v, PList) else [v])]
              for v in (a[1], a[2])]
    if len(xs) != len(ys) or len(set(xs)) < len(xs) or len(set(ys)) < len(ys):
        I.raise_('ValueError', 'moveaxis')
    o = [k for k in range(n) if k not in xs]
    for y, x in sorted(zip(ys, xs)):
        o.insert(y, x)
    return transpose(I, A, o)


@stub('numpy.flip')
def _(I, a, kw):
    A = asarray(I, a[0])
    axs = axes_of(I, arg(a, kw, 1, 'axis'), A.ndim)
    return A.view(A.shape, lambda *o: [A.shape[k] - 1 - x if k in axs else x
                                       for k, x in enumerate(o)])


@stub('numpy.trace')
def _(I, a, kw):
    A = asarray(I, a[0])
    if a[1:] and any(pol(x).const != 0 for x in a[1:2]):
        raise Unsupported('trace offset')
    ax1, ax2 = arg(a, kw, 2, 'axis1', 0), arg(a, kw, 3, 'axis2', 1)
    n = A.ndim
    if n < 2:
        I.raise_('ValueError', 'trace')
    ax1, ax2 = norm_axis(I, ax1, n), norm_axis(I, ax2, n)
    rest = [k for k in range(n) if k not in (ax1, ax2)]
    m = A.shape[ax1]
    if not deq(I, A.shape[ax1], A.shape[ax2]):
        # the diagonal of a rectangular matrix
        if I.branch(ge(A.shape[ax2] - A.shape[ax1])):
            m = A.shape[ax1]
        else:
            m = A.shape[ax2]

    def el(*o):
        t = T.temp()
        idx = [None] * n
        for k, x in zip(rest, o):
            idx[k] = x
        idx[ax1] = idx[ax2] = P(t)
        with CTX.ranges([t], [m]):
            b = A.el(*idx)
        return T.Sum(t, m, b)
    return unscal(mkarr([A.shape[k] for k in rest], el, A.dtype))


@stub('numpy.einsum')
def _(I, a, kw):
    allow(kw, 'optimize')
    s = a[0].replace(' ', '')
    ops = [asarray(I, x) for x in a[1:]]
    if '->' in s:
        ins, out = s.split('->')
    else:
        ins = s
        cs = sorted(set(ins.replace(',', '')))
        out = ''.join(c for c in cs if ins.count(c) == 1)
    ins = ins.split(',')
    if len(ins) != len(ops):
        I.raise_('ValueError', 'einsum operands')
    dims = {}
    for sub, x in zip(ins, ops):
        if '.' in sub:
            raise Unsupported('einsum ellipsis')
        if len(sub) != x.ndim:
            I.raise_('ValueError', 'einsum subscripts')
        for c, d in zip(sub, x.shape):
            if c in dims:
                if not deq(I, dims[c], d):
                    if I.branch(eq0(d - 1)) or I.branch(eq0(dims[c] - 1)):
                        raise Unsupported('einsum broadcasting')
                    I.raise_('ValueError', 'einsum dimensions')
                if d.cint is not None:
                    dims[c] = d
            else:
                dims[c] = d
    k = promote(*[x.dtype for x in ops])
    inner = [c for c in dims if c not in out]

    def el(*o):
        mp = dict(zip(out, o))
        ts = {c: T.temp() for c in inner}
        for c in inner:
            mp[c] = P(ts[c])
        with CTX.ranges([ts[c] for c in inner], [dims[c] for c in inner]):
            r = ONE
            for sub, x in zip(ins, ops):
                r = r * x.el(*[mp[c] for c in sub])
        for c in reversed(inner):
            r = T.Sum(ts[c], dims[c], r)
        return r
    return unscal(mkarr([dims[c] for c in out], el, k))


@stub('numpy.tensordot')
def _(I, a, kw):
    import string
    ax = arg(a, kw, 2, 'axes', 2)
    A, B = asarray(I, a[0]), asarray(I, a[1])
    if isinstance(ax, PList):
        xs, ys = [[norm_axis(I, k, M.ndim) for k in (I.concrete(v) if isinstance(v, PList)
                                                     else [v])]
                  for v, M in zip(I.concrete(ax), (A, B))]
    else:
        xs, ys = list(range(A.ndim - ax, A.ndim)), list(range(ax))
    if len(xs) != len(ys):
        I.raise_('ValueError', 'tensordot')
    l, m = list(string.ascii_lowercase[:A.ndim]), list(string.ascii_uppercase[:B.ndim])
    for x, y in zip(xs, ys):
        if not deq(I, A.shape[x], B.shape[y]) and not I.branch(eq0(A.shape[x] - B.shape[y])):
            I.raise_('ValueError', 'tensordot')
        m[y] = l[x]
    out = ''.join([c for k, c in enumerate(l) if k not in xs] +
                  [c for k, c in enumerate(m) if k not in ys])
    return STUBS['numpy.einsum'](I, ['%s,%s->%s' % (''.join(l), ''.join(m), out), A, B], {})


@stub('numpy.linspace')
def _(I, a, kw):
    lo, hi = pol(arg(a, kw, 0, 'start')), pol(arg(a, kw, 1, 'stop'))
    n = arg(a, kw, 2, 'num', 50)
    n = pol(n)
    end = arg(a, kw, 3, 'endpoint', True)
    d = (n - 1) if end else n
    if end and n.const == 1:
        return mkarr((1,), lambda i: lo, 'f')
    return mkarr((n,), lambda i: lo + (hi - lo) * i * T.inv(d), 'f')


@stub('numpy.arange')
def _(I, a, kw):
    allow(kw, 'dtype')
    ps = [pol(x) for x in a]
    if len(ps) == 1:
        lo, hi, st = ZERO, ps[0], ONE
    else:
        lo, hi, st = ps[0], ps[1], (ps[2] if len(ps) > 2 else ONE)
    if not all(p.is_int() for p in (lo, hi, st)) or st.cint is None or st.cint <= 0:
        raise Unsupported('arange')
    n = hi - lo
    if not CTX.entails_ge(n) and not I.branch(ge(n)):
        n = ZERO
    if st.cint != 1:
        n = T.fdiv(n + st - 1, st)
    return mkarr((n,), lambda i: lo + i * st, dkind(I, kw.get('dtype')) or 'i')


@stub('numpy.ix_')
def _(I, a, kw):
    out = []
    for x in a:
        A = asarray(I, x)
        if A.ndim != 1:
            I.raise_('ValueError', 'ix_')
        if A.dtype == 'b':
            raise Unsupported('ix_ of masks')
        if A.dtype != 'i' and A.shape[0].const != 0:
            I.raise_('IndexError', 'ix_')
        out.append(A)
    return Ix(out)


@stub('numpy.size')
def _(I, a, kw):
    A = asarray(I, a[0])
    return num(prod(A.shape), 'int')


@stub('numpy.shape')
def _(I, a, kw):
    A = asarray(I, a[0])
    return plist([num(s, 'int') for s in A.shape], True)


@stub('numpy.ndim')
def _(I, a, kw):
    return asarray(I, a[0]).ndim


@stub('numpy.sort')
def _(I, a, kw):
    v = a[0]
    s = I.seq(v)
    if s.n.cint is not None:
        items = [unarr(I, s.at(const(i))) for i in range(s.n.cint)]
        if all(pol(x).const is not None for x in items):
            return asarray(I, plist(sorted((pol(x).const for x in items) and
                                           [int(pol(x).const) if pol(x).cint is not None
                                            else float(pol(x).const) for x in items])))
    A = asarray(I, v)
    lam = lam_of(A)
    return mkarr(A.shape, lambda i: P(T._mk('g', 'sort', (lam, i), SORT[A.dtype])), A.dtype)


def lam_of(A):
    ts = [T.temp() for _ in A.shape]
    with CTX.ranges(ts, A.shape):
        b = A.el(*[P(t) for t in ts])
    return Lam(A.shape, ts, b)


def lamfun(name, sort, lams, *idx):
    return P(T._mk('g', name, tuple(lams) + tuple(toP(i) for i in idx), sort))


@stub('numpy.linalg.norm', 'scipy.linalg.norm')
def _(I, a, kw):
    allow(kw, 'ord', 'axis')
    if badfloat(a[0]) and len(a) == 1 and not kw:
        return abs(a[0])
    A = asarray(I, a[0])
    o = arg(a, kw, 1, 'ord')
    ax = arg(a, kw, 2, 'axis')
    if o is None or o == 'fro' or (o == 2 and (A.ndim == 1)):
        if ax is None and o == 'fro' and A.ndim != 2:
            I.raise_('ValueError', 'norm')
        if ax is not None and o is not None:
            raise Unsupported('norm')
        sq = elementwise(I, lambda p: p * T.conj(p), 'f', A)
        s = reduce_sum(I, asarray(I, sq), ax)
        return STUBS['numpy.sqrt'](I, [s], {})
    if ax is not None:
        raise Unsupported('norm')
    return num(lamfun('norm', 'r', [lam_of(A), pol(o) if isnum(o) and not badfloat(o)
                                    else var('ord_%s' % o)]), 'np.float64')


@stub('numpy.linalg.inv', 'scipy.linalg.inv')
def _(I, a, kw):
    A = asarray(I, a[0])
    l = lam_of(A)
    return mkarr(A.shape, lambda i, j: lamfun('matinv', 'c' if A.dtype == 'c' else 'r', [l], i, j),
                 promote(A.dtype, 'f'))


@stub('scipy.linalg.expm')
def _(I, a, kw):
    A = asarray(I, a[0])
    if A.ndim != 2 or not deq(I, A.shape[0], A.shape[1]):
        I.raise_('ValueError', 'expm')
    l = lam_of(A)
    return mkarr(A.shape, lambda i, j: T.expm_el(l, i, j), A.dtype)


def frechet(A, E):
    """Element function of the Frechet derivative of expm at A in direction E."""
    l = lam_of(A)
    e = lam_of(E)
    return lambda i, j: lamfun('frechet', 'c', [l, e], i, j)


@stub('scipy.linalg.expm_frechet')
def _(I, a, kw):
    allow(kw, 'compute_expm', 'method')
    A, E = asarray(I, a[0]), asarray(I, a[1])
    for X in (A, E):
        if X.ndim != 2 or not deq(I, X.shape[0], X.shape[1]):
            I.raise_('ValueError', 'expm_frechet')
    if not deq(I, A.shape[0], E.shape[0]):
        I.raise_('ValueError', 'expm_frechet')
    ce = kw.get('compute_expm', True)
    d = mkarr(A.shape, frechet(A, E), promote(A.dtype, E.dtype))
    if I.truth(ce):
        return plist([STUBS['scipy.linalg.expm'](I, [A], {}), d], True)
    return d


@stub('numpy.linalg.eig', 'scipy.linalg.eig', 'numpy.linalg.eigh', 'scipy.linalg.eigh')
def _(I, a, kw):
    raise Unsupported('eig')


def _eig(name, herm):
    def g(I, a, kw):
        A = asarray(I, a[0])
        if A.ndim != 2 or not deq(I, A.shape[0], A.shape[1]):
            I.raise_('ValueError', 'eig')
        l = lam_of(A)
        s = 'r' if herm else 'c'
        return plist([mkarr((A.shape[0],), lambda i: lamfun(name + '_val', s, [l], i),
                            'f' if herm else 'c'),
                      mkarr(A.shape, lambda i, j: lamfun(name + '_vec', 'c', [l], i, j), 'c')],
                     True)
    return g


for _m in ('numpy.linalg', 'scipy.linalg'):
    STUBS[_m + '.eig'] = _eig('eig', False)
    STUBS[_m + '.eigh'] = _eig('eigh', True)


@stub('scipy.linalg.svd', 'numpy.linalg.svd')
def _(I, a, kw):
    A = asarray(I, a[0])
    l = lam_of(A)
    n, m = A.shape
    if not deq(I, n, m):
        raise Unsupported('svd of rectangular matrices')
    return plist([mkarr((n, n), lambda i, j: lamfun('svd_u', 'c', [l], i, j), 'c'),
                  mkarr((n,), lambda i: lamfun('svd_s', 'r', [l], i), 'f'),
                  mkarr((m, m), lambda i, j: lamfun('svd_v', 'c', [l], i, j), 'c')], True)


# ------------------------------------------------------------------ Fourier transforms
def last_axis(I, A, ax):
    k = ax if isinstance(ax, int) else pol(ax).cint
    if A.ndim == 0:
        I.raise_('IndexError', 'fft')
    if k not in (-1, A.ndim - 1):
        raise Unsupported('fft axis')


def row_lam(A, idx):
    t = T.temp()
    with CTX.ranges([t], [A.shape[-1]]):
        return Lam([A.shape[-1]], [t], A.el(*idx, P(t)))


@stub('numpy.fft.rfft')
def _(I, a, kw):
    allow(kw, 'axis')
    A = asarray(I, a[0])
    last_axis(I, A, arg(a, kw, 2, 'axis', -1))
    if len(a) > 1 and a[1] is not None:
        raise Unsupported('rfft with n')
    n = A.shape[-1]
    return mkarr(tuple(A.shape[:-1]) + (T.fdiv(n, const(2)) + 1,), lambda *i: lamfun(
        'rfft', 'c', [row_lam(A, i[:-1])], i[-1]), 'c')


@stub('numpy.fft.irfft')
def _(I, a, kw):
    allow(kw, 'axis', 'n')
    A = asarray(I, a[0])
    last_axis(I, A, arg(a, kw, 2, 'axis', -1))
    n = arg(a, kw, 1, 'n')
    n = (A.shape[-1] - 1) * 2 if n is None else pol(n)
    if not deq(I, T.fdiv(n, const(2)) + 1, A.shape[-1]):
        raise Unsupported('irfft with other length')
    return mkarr(tuple(A.shape[:-1]) + (n,), lambda *i: lamfun(
        'irfft', 'r', [row_lam(A, i[:-1])], n, i[-1]), 'f')


# ------------------------------------------------------------------ misc
_rand = [0]


def random_array(dist, dtype='f'):
    def g(I, a, kw):
        shp = []
        for x in a:
            shp += ints_of(I, x)
        return random_of(I, dist, shp, dtype)
    return g


def random_of(I, dist, shp, dtype='f', *pre):
    k = getattr(I, 'random_count', 0)
    jset(I.random_cell, 'n', I.random_cell.slots.get('n', 0) + 1)
    name = '%s#%d' % (dist, I.random_cell.slots['n'])
    if not shp:
        return Num(fn(name, *pre, sort=SORT[dtype]), NPTY[dtype])
    return mkarr(shp, lambda *i: fn(name, *(tuple(pre) + i), sort=SORT[dtype]), dtype)


STUBS['numpy.random.randn'] = random_array('randn')
STUBS['numpy.random.rand'] = random_array('rand')


@stub('numpy.random.normal')
def _(I, a, kw):
    loc, sc = arg(a, kw, 0, 'loc', 0), arg(a, kw, 1, 'scale', 1)
    size = arg(a, kw, 2, 'size')
    z = random_of(I, 'randn', [] if size is None else ints_of(I, size))
    return arith(I, 'add', loc, arith(I, 'mul', sc, z))


@stub('numpy.random.randint')
def _(I, a, kw):
    allow(kw, 'low', 'high', 'size')
    size = arg(a, kw, 2, 'size')
    lo, hi = arg(a, kw, 0, 'low'), arg(a, kw, 1, 'high')
    if size is None:
        shp = []
    else:
        shp = ints_of(I, size)
    r = random_of(I, 'randint', shp, 'i')
    if hi is None:
        lo, hi = 0, lo
    if not (isnum(lo) and isnum(hi)) or not CTX.entails_ge(pol(hi) - pol(lo) - 1):
        raise Unsupported('range of random integers')
    # any value of low, ..., high - 1
    a, b = pol(lo), pol(hi) - 1
    g = lambda p: ite(T.ge(a - p - 1), a, ite(T.ge(p - b - 1), b, p))
    if not shp:
        return Num(g(pol(r)), 'int')
    return elementwise(I, g, 'i', r)


_tcount = itertools.count()
STUBS['time.time'] = lambda I, a, kw: Num(var('time%d' % next(_tcount), 'r'), 'float')
STUBS['time.perf_counter'] = STUBS['time.time']
STUBS['warnings.warn'] = lambda I, a, kw: None
STUBS['warnings.simplefilter'] = lambda I, a, kw: None
STUBS['copy.copy'] = lambda I, a, kw: shallow(I, a[0])
STUBS['copy.deepcopy'] = lambda I, a, kw: deep(I, a[0], {})


def pool(I, a, kw):
    """multiprocessing.Pool: map works on copies, in order, and returns copies."""
    n = arg(a, kw, 0, 'processes')
    if n is not None and not isnum(n):
        I.raise_('TypeError', 'processes')
    if n is not None and I.branch(ONE - T.ge(pol(n) - 1)):
        I.raise_('ValueError', 'Number of processes must be at least 1')

    def run(star):
        def f(I, a, kw):
            xs = BUILTINS['list'].f(I, [a[1]], {})
            common = shared_cells(I, xs, a[0])
            fr = Frame(None, Mod('pool'))
            fr.slots.update(task=Native('task', lambda I, b, k: task(I, a[0], b[0], star, common)),
                            xs=xs)
            return I.ev(ast.parse('[task(x) for x in xs]', mode='eval').body, fr)
        return Native('map', f)

    def task(I, fun, x, star, common):
        memo = {}
        fun, x = deep(I, fun, memo), deep(I, x, memo)
        before = []
        for k, c in memo.items():
            if (k if isinstance(k, int) else k[1]) in common:
                for d in own_cells(c):
                    before.append((d, dict(d.slots)))
        r = I.call(fun, list(I.concrete(x)) if star else [x], {})
        from .unit import same_content
        for d, old in before:
            if set(old) != set(d.slots) or not all(
                    same_content(x, d.slots[q]) for q, x in old.items()):
                raise Unsupported('a task changes what it shares with other tasks of its chunk')
        return deep(I, r, {})
    none = Native('close', lambda I, a, kw: None)
    return Opaque('pool', dict(map=run(False), imap=run(False), starmap=run(True),
                               close=none, join=none, terminate=none))


def own_cells(v):
    if isinstance(v, Arr):
        return [v.buf]
    if isinstance(v, PList):
        return [] if v.tup else [v.st]
    return [v] if isinstance(v, (Obj, DictV)) else []


def task_cells(I, v, t, out):
    """Identities of the mutable cells reachable from task t, without the rows
    of a family that belong to this task."""
    v = I.unlazy(v)
    if isinstance(v, Arr):
        if t is None or not any(m == t for m in v.maps):
            out.add(id(v.buf))
    elif isinstance(v, PList):
        k = ('row', id(v.st), tuple(p.key for p in v.pre))
        if k in out:
            return out
        out.add(k)
        if not v.tup and (t is None or not any(p == t for p in v.pre)):
            out.add(id(v.st))
        if v.items is not None:
            for x in v.items:
                task_cells(I, x, t, out)
        else:
            q = T.temp()
            with CTX.ranges([q], [v.length()]):
                if CTX.feasible():
                    task_cells(I, I.list_at(v, P(q)), t, out)
    elif isinstance(v, (Obj, DictV)):
        if id(v) not in out:
            out.add(id(v))
            for x in (v.slots.values() if isinstance(v, Obj) else [y for _, y in v.pairs]):
                task_cells(I, x, t, out)
    elif isinstance(v, Bound):
        task_cells(I, v.self_, t, out)
    return out


def shared_cells(I, xs, fun):
    """Identities of the mutable cells that two tasks of a pool have in common
    (they are pickled once per chunk of tasks)."""
    out = task_cells(I, fun, None, set())
    n = xs.length()
    parts = []
    if n.cint is not None:
        for i in range(n.cint):
            parts.append(task_cells(I, I.list_at(xs, const(i)), None, set()))
    else:
        for _ in range(2):
            t = T.temp()
            with CTX.ranges([t], [n]):
                if CTX.feasible():
                    parts.append(task_cells(I, I.list_at(xs, P(t)), P(t), set()))
    seen = set()
    for q in parts:
        out |= seen & q
        seen |= q
    return out


STUBS['multiprocessing.Pool'] = STUBS['multiprocessing.pool.Pool'] = pool
STUBS['functools.wraps'] = lambda I, a, kw: Native('wraps', lambda I, b, k: b[0])


def shallow(I, v):
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, PList):
        return v if v.tup else PList(LStore(v.st.nd, v.content), v.pre)
    if isinstance(v, DictV):
        return DictV(v.pairs)
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.slots.update(v.slots)
        return o
    return v


def deep(I, v, memo):
    """Contract of copy.deepcopy: an equal value that shares nothing mutable."""
    v = I.unlazy(v)
    if isinstance(v, Arr):
        k = ('a', id(v.buf), tuple(m.key for m in v.maps), tuple(s.key for s in v.shape))
        if k not in memo:
            memo[k] = v.copy()
        return memo[k]
    if isinstance(v, PList):
        k = ('l', id(v.st), tuple(p.key for p in v.pre))
        if k in memo:
            return memo[k]
        if v.items is not None:
            r = plist([], v.tup)
            memo[k] = r
            r.st.slots['content'] = ('items', tuple(deep(I, x, memo) for x in v.items))
            return r
        snap = I.snapshot(v)
        n = v.length().cint
        if n is not None:
            r = plist([], v.tup)
            memo[k] = r
            r.st.slots['content'] = ('items', tuple(
                deep(I, I.list_at(snap, const(i)), memo) for i in range(n)))
            return r
        r = I.loops.family_list(I, v.length(), lambda i: deep(I, I.list_at(snap, i), {}), v.tup)
        memo[k] = r
        return r
    if isinstance(v, DictV):
        k = id(v)
        if k not in memo:
            memo[k] = DictV(tuple((a, deep(I, b, memo)) for a, b in v.pairs))
        return memo[k]
    if isinstance(v, Obj):
        k = id(v)
        if k in memo:
            return memo[k]
        c, f = v.cls.lookup('__deepcopy__')
        if f is not None:
            return I.call(Bound(f, v), [DictV()], {})
        o = Obj(v.cls)
        memo[k] = o
        for n, x in list(v.slots.items()):
            o.slots[n] = deep(I, x, memo)
        return o
    if isinstance(v, SetV):
        return SetV(v.items)
    if isinstance(v, Bound):
        return Bound(v.fn, deep(I, v.self_, memo))
    return v


def merged(I, thunk, k):
    """Value of a scalar computation over all its paths."""
    total = [ZERO]
    n = [0]

    def go():
        n[0] = len(CTX.polys)
        return thunk()

    def cap(kind, v, mark):
        if kind != 'ok' or not isnum(v):
            raise Unsupported('vectorized function: %s' % (v,))
        p = pol(v)
        if RANK.index(k) < RANK.index(kind_of(v)):
            p = {'c': p, 'f': T.re(p), 'i': toint(p) if kind_of(v) != 'c' else None,
                 'b': Not(eq0(p))}[k]
        for c in CTX.polys[n[0]:]:
            if isinstance(c, tuple):
                raise Unsupported('vectorized function')
            p = p * c
        total[0] = total[0] + p
    I.explore(go, cap)
    return total[0]


@stub('numpy.vectorize')
def _(I, a, kw):
    f = a[0]
    ot = kw.get('otypes')
    k = dkind(I, I.concrete(ot)[0]) if ot is not None else None

    def g(I, b, k2):
        arrs = [asarray(I, x) for x in b]
        shape = broadcast_shapes(I, *[x.shape for x in arrs])
        els = [bmap(I, x.copy(), shape) for x in arrs]
        if any(not CTX.entails_ge(s - 1) and not I.branch(ge(s - 1)) for s in shape):
            if k is None:
                I.raise_('ValueError', 'cannot call `vectorize` on size 0 inputs')
            return mkarr(shape, lambda *i: ZERO, k)

        def call(i):
            return unarr(I, I.call(f, [Num(e(*i), NPTY[x.dtype]) for e, x in zip(els, arrs)], {}))
        kk = k
        if kk is None:
            r = call([ZERO] * len(shape))       # the first element sets the type
            if not isnum(r):
                raise Unsupported('vectorized function returns ' + describe(r))
            kk = kind_of(r)

        def el(*i):
            return merged(I, lambda: call(i), kk)
        return mkarr(shape, el, kk)
    return Native('vectorized', g)


# ------------------------------------------------------------------ methods
def _seqargs(I, a):
    if len(a) == 1 and isinstance(a[0], (PList, Arr)):
        return I.concrete(a[0])
    return a


def arr_method(I, o, name):
    A = o
    S = STUBS
    tab = {
        'copy': lambda I, a, k: A.copy(),
        'conj': lambda I, a, k: S['numpy.conj'](I, [A], {}),
        'conjugate': lambda I, a, k: S['numpy.conj'](I, [A], {}),
        'sum': lambda I, a, k: S['numpy.sum'](I, [A] + a, k),
        'mean': lambda I, a, k: S['numpy.mean'](I, [A] + a, k),
        'max': lambda I, a, k: S['numpy.max'](I, [A] + a, k),
        'min': lambda I, a, k: S['numpy.min'](I, [A] + a, k),
        'std': lambda I, a, k: S['numpy.std'](I, [A] + a, k),
        'all': lambda I, a, k: S['numpy.all'](I, [A], k),
        'any': lambda I, a, k: S['numpy.any'](I, [A], k),
        'argmin': lambda I, a, k: S['numpy.argmin'](I, [A] + a, k),
        'cumsum': lambda I, a, k: S['numpy.cumsum'](I, [A], k),
        'trace': lambda I, a, k: S['numpy.trace'](I, [A] + a, k),
        'dot': lambda I, a, k: S['numpy.dot'](I, [A] + a, k),
        'prod': lambda I, a, k: S['numpy.prod'](I, [A] + a, k),
        'squeeze': lambda I, a, k: S['numpy.squeeze'](I, [A] + a, k),
        'repeat': lambda I, a, k: S['numpy.repeat'](I, [A] + a, k),
        'reshape': lambda I, a, k: reshaped(
            I, A, [pol(unarr(I, x)) for x in _seqargs(I, a)], k.get('order', 'C')),
        'flatten': lambda I, a, k: flat(I, order_of(I, A, a, k)),
        'ravel': lambda I, a, k: (lambda B: reshape(I, B, [prod(B.shape)]) if B is A
                                  else flat(I, B))(order_of(I, A, a, k)),
        'transpose': lambda I, a, k: transpose(I, A, _seqargs(I, a) or None),
        'swapaxes': lambda I, a, k: S['numpy.swapaxes'](I, [A] + a, k),
        'tolist': lambda I, a, k: tolist(I, A),
        'astype': lambda I, a, k: astype(I, A, a, k),
        'item': lambda I, a, k: item(I, A),
        'fill': lambda I, a, k: store(I, A, None, a[0]),
        '__setitem__': lambda I, a, k: I.setitem(A, a[0] if not (
            isinstance(a[0], PList) and a[0].tup) else TupIdx(I.concrete(a[0])), a[1]),
        '__getitem__': lambda I, a, k: I.getitem(A, a[0]),
        '__repr__': lambda I, a, k: SStr('array'),
        '__len__': lambda I, a, k: num(A.shape[0], 'int'),
    }
    return tab.get(name)


def order_of(I, A, a, k):
    o = arg(a, k, 0, 'order', 'C')
    if o == 'C' or A.ndim < 2:
        return A
    if o != 'F':
        raise Unsupported('order %s' % (o,))
    return transpose(I, A)


def flat(I, A):
    r = reshape(I, A, [prod(A.shape)])
    return r.copy()


def item(I, A):
    if not all(s.const == 1 for s in A.shape):
        if not I.branch(eq0(prod(A.shape) - 1)):
            I.raise_('ValueError', 'item')
    p = A.el(*[ZERO] * A.ndim)
    return num(p, sty(A.dtype, False))


def astype(I, A, a, k):
    kind = dkind(I, a[0] if a else k.get('dtype'))
    if k.get('copy') is False and kind == A.dtype:
        return A
    return cast(A, kind) if kind != A.dtype else A.copy()


def tolist(I, A):
    if A.ndim == 0:
        return num(A.el(), sty(A.dtype, False))
    n = A.shape[0]
    snap = A.copy()

    def at(i):
        if A.ndim == 1:
            return num(snap.el(i), sty(A.dtype, False))
        return tolist(I, getitem_raw(snap, i))
    if n.cint is not None and n.cint <= 70:
        return plist([at(const(i)) for i in range(n.cint)])
    return I.loops.family_list(I, n, at)


def getitem_raw(A, i):
    return A.view(A.shape[1:], lambda *o: [i] + list(o))


def method(I, o, name, default=MISSING):
    def nat(f):
        return Native(name, f)
    if isinstance(o, Arr):
        if name == 'shape':
            return plist([num(s, 'int') for s in o.shape], True)
        if name == 'T':
            return transpose(I, o)
        if name == 'ndim':
            return o.ndim
        if name == 'size':
            return num(prod(o.shape), 'int')
        if name == 'dtype':
            return DType(o.dtype)
        if name == 'real':
            r = o if o.dtype != 'c' else mkarr(o.shape, lambda *i: T.re(o.el(*i)), 'f')
            r = Arr(r.buf, r.shape, r.maps, o.dtype == 'c' or r.ro)
            return r
        if name == 'imag':
            r = mkarr(o.shape, lambda *i: T.im(o.el(*i)), 'f' if o.dtype == 'c' else o.dtype)
            return Arr(r.buf, r.shape, r.maps, True)
        f = arr_method(I, o, name)
        if f is not None:
            return nat(f)
    elif isinstance(o, PList):
        f = list_method(I, o, name)
        if f is not None:
            return nat(f)
    elif isinstance(o, DictV):
        f = dict_method(I, o, name)
        if f is not None:
            return nat(f)
    elif isinstance(o, (str, SStr)):
        if isinstance(o, str) and name in ('lower', 'upper', 'strip', 'startswith', 'endswith',
                                           'split', 'replace', 'join', 'format'):
            def f(I, a, k):
                if name == 'join':
                    a = [I.concrete(a[0])]
                ps = [I.plain(x) for x in a] if name == 'format' else []
                if name == 'format' and not any(x is MISSING for x in ps) and not dict.keys(k):
                    return o.format(*ps)
                if name == 'format' or not all(isinstance(x, (str, int, list)) for x in a):
                    return SStr(o, name, *a)
                r = getattr(o, name)(*a)
                return plist(r) if isinstance(r, list) else r
            return nat(f)
        if isinstance(o, SStr):
            return nat(lambda I, a, k: SStr(o, name, *a))
    elif isnum(o):
        if name == 'real':
            return num(T.re(pol(o)), sty(_real(kind_of(o)), is_np(o)))
        if name == 'imag':
            return num(T.im(pol(o)), sty(_real(kind_of(o)), is_np(o)))
        if name in ('conj', 'conjugate'):
            return nat(lambda I, a, k: num(T.conj(pol(o)), tyof(o)))
        if is_np(o) or name in ('item',):
            if name == 'shape':
                return plist([], True)
            if name == 'ndim':
                return 0
            if name == 'size':
                return 1
            if name == 'dtype':
                return DType(kind_of(o))
            if name == 'item':
                return nat(lambda I, a, k: num(pol(o), sty(kind_of(o), False)))
            A = asarray(I, o)
            f = arr_method(I, A, name)
            if f is not None and name in ('astype', 'sum', 'mean', 'copy', 'reshape', 'flatten',
                                          'all', 'any', 'max', 'min', 'squeeze'):
                return nat(lambda I, a, k: unscal(f(I, a, k)))
        if name == 'is_integer' and isinstance(o, (float, Num)):
            return nat(lambda I, a, k: num(P(T._mk('g', 'bool', ('isint', pol(o)), 'i')), 'bool'))
    elif isinstance(o, SetV):
        if name == 'add':
            raise Unsupported('set.add')
    if name == '__class__':
        from .builtins_ import type_of
        return type_of(I, o)
    if default is not MISSING:
        return default
    I.raise_('AttributeError', name)


def list_method(I, o, name):
    def append(I, a, k):
        I.list_append(o, a[0])

    def extend(I, a, k):
        import ast
        I.iop(ast.Add(), o, a[0])

    def insert(I, a, k):
        items = o.items
        i = pol(a[0]).cint
        if items is None:
            if i == 0 and not o.st.nd:
                new = I.list_concat(plist([a[1]]), o)
                I.list_replace(o, new)
                return
            raise Unsupported('insert')
        items = list(items)
        items.insert(i, a[1])
        I.list_replace(o, plist(items))

    def pop(I, a, k):
        items = o.items
        if items is None:
            raise Unsupported('pop')
        items = list(items)
        if not items:
            I.raise_('IndexError')
        v = items.pop(*[pol(x).cint for x in a])
        I.list_replace(o, plist(items))
        return v

    def index(I, a, k):
        for i, x in enumerate(I.concrete(o)):
            if I.truth(compare(I, 'eq', x, a[0])):
                return i
        I.raise_('ValueError')

    def reverse(I, a, k):
        new = I.list_slice(o, None, None, -1)
        I.list_replace(o, new)

    def copy(I, a, k):
        return I.snapshot(o)

    def clear(I, a, k):
        I.list_replace(o, plist([]))

    def count(I, a, k):
        return sum(bool(I.truth(compare(I, 'eq', x, a[0]))) for x in I.concrete(o))

    def remove(I, a, k):
        items = I.concrete(o)
        for i, x in enumerate(items):
            if I.truth(compare(I, 'eq', x, a[0])):
                del items[i]
                I.list_replace(o, plist(items))
                return
        I.raise_('ValueError')

    def sort(I, a, k):
        from .builtins_ import sorted_
        I.list_replace(o, plist(I.concrete(sorted_(I, [o], k))))
    tab = dict(append=append, extend=extend, insert=insert, pop=pop, index=index, reverse=reverse,
               copy=copy, clear=clear, count=count, remove=remove, sort=sort,
               __len__=lambda I, a, k: num(o.length(), 'int'),
               __getitem__=lambda I, a, k: I.getitem(o, a[0]))
    if o.tup and name not in ('index', 'count', '__len__', '__getitem__'):
        return None
    return tab.get(name)


def dict_method(I, o, name):
    def get(I, a, k):
        v, d = o.get(a[0]), a[1] if len(a) > 1 else None
        return d if v is MISSING else v

    def pop(I, a, k):
        v, d = o.get(a[0]), a[1] if len(a) > 1 else MISSING
        if v is MISSING:
            if d is not MISSING:
                return d
            I.raise_('KeyError', a[0])
        jset(o, 'content', tuple(p for p in o.pairs if p[0] != a[0]))
        return v

    def update(I, a, k):
        if a:
            for x, y in a[0].pairs:
                o.set(x, y)
        for x, y in k.items():
            o.set(x, y)

    def setdefault(I, a, k):
        v, d = o.get(a[0]), a[1] if len(a) > 1 else None
        if v is MISSING:
            v = d
            o.set(a[0], v)
        return v
    tab = dict(get=get, pop=pop, update=update, setdefault=setdefault,
               keys=lambda I, a, k: plist([x for x, _ in o.pairs]),
               values=lambda I, a, k: plist([y for _, y in o.pairs]),
               items=lambda I, a, k: plist([plist([x, y], True) for x, y in o.pairs]),
               copy=lambda I, a, k: DictV(o.pairs))
    return tab.get(name)


NPTYPES = {'b': 'numpy.bool_', 'i': 'numpy.int64', 'f': 'numpy.float64', 'c': 'numpy.complex128'}


# ------------------------------------------------------------------ filters
def _args(names, a, kw):
    d = dict(zip(names, a))
    d.update(kw)
    return d


@stub('scipy.ndimage.convolve')
def _(I, a, kw):
    """Linear in the input, plus cval where the kernel reaches over the edge; an
    axis of length one of the kernel does not mix that axis of the input."""
    d = _args(('input', 'weights', 'output', 'mode', 'cval', 'origin'), a, kw)
    A, W = asarray(I, d['input']), asarray(I, d['weights'])
    mode, cval = d.get('mode', 'reflect'), pol(d.get('cval', 0.0))
    if A.ndim != W.ndim or not isinstance(mode, str) or d.get('output') is not None:
        raise Unsupported('convolve')
    if A.dtype == 'c' or W.dtype == 'c':
        raise Unsupported('convolve of complex arrays')
    ax = [i for i in range(A.ndim) if W.shape[i].const != 1]
    w = W.copy()
    ts = [T.temp() for _ in ax]
    with CTX.ranges(ts, [W.shape[i] for i in ax]):
        idx = [ZERO] * A.ndim
        for i, t in zip(ax, ts):
            idx[i] = P(t)
        l = Lam([W.shape[i] for i in ax], ts, w.el(*idx))
    B = A.copy()
    ns = [A.shape[i] for i in ax]

    def el(*i):
        vs = [T.temp() for _ in ax]
        with CTX.ranges(vs, ns):
            j = list(i)
            for q, v in zip(ax, vs):
                j[q] = P(v)
            r = B.el(*j) * lamfun('CONV_' + mode, 'r', [l], *(ns + [i[q] for q in ax] +
                                                             [P(v) for v in vs]))
        for v, n in zip(vs, ns):
            r = T.Sum(v, n, r)
        if cval.terms:
            r = r + cval * lamfun('EDGE_' + mode, 'r', [l], *(ns + [i[q] for q in ax]))
        return r
    return mkarr(A.shape, el, 'f')


@stub('scipy.ndimage.gaussian_filter1d')
def _(I, a, kw):
    """Linear in the input along one axis."""
    d = _args(('input', 'sigma', 'axis', 'order', 'output', 'mode', 'cval', 'truncate'), a, kw)
    A = asarray(I, d['input'])
    ax = d.get('axis', -1)
    mode = d.get('mode', 'reflect')
    if not isinstance(ax, int) or not isinstance(mode, str) or d.get('output') is not None or \
            A.dtype == 'c' or pol(d.get('cval', 0.0)).terms or not isnum(d['sigma']):
        raise Unsupported('gaussian_filter1d')
    ax %= A.ndim
    par = [pol(d['sigma']), pol(d.get('order', 0)), pol(d.get('truncate', 4.0)), A.shape[ax]]
    B = A.copy()

    def el(*i):
        v = T.temp()
        with CTX.ranges([v], [A.shape[ax]]):
            j = list(i)
            j[ax] = P(v)
            r = B.el(*j) * T.fn('GAUSS_' + mode, *(par + [i[ax], P(v)]), sort='r')
        return T.Sum(v, A.shape[ax], r)
    return mkarr(A.shape, el, 'f')


STUBS['os.path.join'] = lambda I, a, kw: '/'.join(a) if all(
    isinstance(x, str) for x in a) else SStr('join', *[repr(x) for x in a])


from . import ghostlib  # noqa: E402
ghostlib.register(STUBS)
from . import ffstub  # noqa: E402,F401
for _n, _op in (('logical_and', 'and'), ('logical_or', 'or')):
    def _logical(I, a, kw, _op=_op):
        x, y = (asarray(I, v) for v in (a[0], a[1]))

        def g(p, q):
            p, q = Not(eq0(p)), Not(eq0(q))
            return p * q if _op == 'and' else ONE - (ONE - p) * (ONE - q)
        sh = broadcast_shapes(I, x.shape, y.shape)
        X, Y = bmap(I, x, sh), bmap(I, y, sh)
        return mkarr(sh, lambda *i: g(X(*i), Y(*i)), 'b')
    STUBS['numpy.' + _n] = _logical
