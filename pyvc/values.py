"""Values of the symbolic interpreter: scalars, arrays with views, lists of
symbolic length, objects. All mutations go through jset and can be undone."""
import itertools

from .terms import *
from . import terms as T


class Unsupported(Exception):
    """A construct outside the engine's reach: the obligation stays open."""


class Infeasible(Exception):
    """The current path is contradictory."""


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, cls, args=(), val=None):
        self.cls, self.eargs, self.val = cls, args, val

    def __str__(self):
        return '%s%r' % (getattr(self.cls, 'name', self.cls), tuple(self.eargs))


_clock = itertools.count(1)
JOURNAL = []


class Cell:
    """Anything mutable."""
    __slots__ = ('slots', 'born', 'ro', '__weakref__')

    def __init__(self):
        self.slots = {}
        self.born = next(_clock)
        self.ro = False


MISSING = object()


def jset(cell, key, val):
    JOURNAL.append((cell, key, cell.slots.get(key, MISSING)))
    cell.slots[key] = val


def undo(mark, clock=None):
    """Restore the heap; cells born after the clock keep their state (they are
    only reachable from captured values)."""
    while len(JOURNAL) > mark:
        c, k, old = JOURNAL.pop()
        if clock is not None and c.born > clock:
            continue
        if old is MISSING:
            c.slots.pop(k, None)
        else:
            c.slots[k] = old


def modified(mark):
    """{(cell, key): value before} since the mark."""
    out = {}
    for c, k, old in JOURNAL[mark:]:
        out.setdefault((c, k), old)
    return out


# ------------------------------------------------------------------ scalars
class Num:
    """Symbolic scalar with a Python/numpy type name."""
    __slots__ = ('p', 'ty')

    def __init__(self, p, ty):
        self.p, self.ty = p, ty

    def __repr__(self):
        return 'Num[%s]%s' % (self.ty, self.p)


NPTY = {'b': 'np.bool_', 'i': 'np.int64', 'f': 'np.float64', 'c': 'np.complex128'}
SORT = {'b': 'i', 'i': 'i', 'f': 'r', 'c': 'c'}


def isnum(v):
    return isinstance(v, (Num, int, float, complex))


def tyof(v):
    if isinstance(v, Num):
        return v.ty
    return type(v).__name__


def kindof(ty):
    return {'bool': 'b', 'np.bool_': 'b', 'int': 'i', 'np.int64': 'i', 'float': 'f',
            'np.float64': 'f', 'complex': 'c', 'np.complex128': 'c'}[ty]


def pol(v):
    """Polynomial of a scalar value."""
    if isinstance(v, Num):
        return v.p
    if isinstance(v, Arr) and len(v.shape) == 0:
        return v.el()
    if isinstance(v, (bool, int, float, complex, Fraction)):
        return toP(v)
    if isinstance(v, Poly):
        return v
    raise Unsupported('scalar expected, got %s' % describe(v))


def num(p, ty):
    """Scalar value; concrete integers become Python ints."""
    if p.const is not None:
        if ty == 'int' and p.cint is not None:
            return p.cint
        if ty == 'bool':
            return bool(p.const)
    return Num(p, ty)


def describe(v):
    if isinstance(v, Arr):
        return 'array%s' % (tuple(s.key for s in v.shape),)
    if isinstance(v, Obj):
        return '<%s>' % v.cls.name
    return type(v).__name__ + ' ' + repr(v)[:80]


# ------------------------------------------------------------------ arrays
IX = [T._mk('b', 'ix%d' % i, (), 'i') for i in range(10)]
IXP = [P(a) for a in IX]
_depth = [0]


def depth_vars(n):
    _depth[0] += 1
    return [T._mk('t', 'd%d.%d' % (_depth[0], i), (), 'i') for i in range(n)]


def body_of(shape, f):
    """Normalised body over IX of the element function f(*idx)."""
    n = len(shape)
    ts = depth_vars(n)
    try:
        with CTX.ranges(ts, shape):
            b = f(*[P(t) for t in ts])
    finally:
        _depth[0] -= 1
    return b.rename(dict(zip(ts, IX)))


class Buffer(Cell):
    """Array storage: shape, dtype and the slot 'body' over IX."""
    # maybe: (array, index map) of which this storage may be a view
    __slots__ = ('shape', 'dtype', 'name', 'maybe')

    def __init__(self, shape, body, dtype, name=None):
        super().__init__()
        self.shape = tuple(toP(s) for s in shape)
        self.dtype = dtype
        self.name = name
        self.maybe = None
        self.slots['body'] = body

    @property
    def body(self):
        return self.slots['body']


class Arr:
    """View: buffer, shape and for every buffer axis its index over IX."""
    __slots__ = ('buf', 'shape', 'maps', 'ro')

    def __init__(self, buf, shape=None, maps=None, ro=False):
        self.buf = buf
        self.shape = buf.shape if shape is None else tuple(toP(s) for s in shape)
        self.maps = tuple(IXP[:len(buf.shape)]) if maps is None else tuple(maps)
        self.ro = ro

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def el(self, *idx):
        mp = dict(zip(IX, [toP(i) for i in idx]))
        base = [subst(m, mp) for m in self.maps]
        return subst(self.buf.body, dict(zip(IX, base)))

    def ty(self):
        return NPTY[self.dtype]

    def view(self, shape, f, ro=False):
        """View with idx -> f(idx) (indices of this view)."""
        n = len(shape)
        idx = f(*IXP[:n])
        mp = dict(zip(IX, idx))
        return Arr(self.buf, shape, [subst(m, mp) for m in self.maps], self.ro or ro)

    def copy(self):
        return mkarr(self.shape, self.el, self.dtype)

    def same(self, o):
        return isinstance(o, Arr) and o.buf is self.buf and o.maps == self.maps and \
            [s.key for s in o.shape] == [s.key for s in self.shape]

    def write(self, cond, val):
        """Set the elements with cond(idx) to val(idx) (both over this view)."""
        if self.ro or self.buf.ro:
            raise Unsupported('write to a read-only view')
        nb = len(self.buf.shape)
        ts = depth_vars(nb)
        try:
            with CTX.ranges(ts, self.buf.shape):
                inv_, c = {}, ONE
                for b in range(nb):
                    m = self.maps[b]
                    fv = [a for a in m.free if a in IX]
                    if not fv:
                        c = c * eq0(P(ts[b]) - m)
                        continue
                    l = T._lin(m, fv[0]) if len(fv) == 1 else None
                    if l is None or abs(l[0]) != 1:
                        raise Unsupported('write through a complicated view')
                    k = IX.index(fv[0])
                    x = (P(ts[b]) - l[1]) * l[0]
                    if k in inv_:
                        c = c * eq0(inv_[k] - x)
                    inv_[k] = x
                idx = []
                for k in range(len(self.shape)):
                    if k not in inv_:
                        if self.shape[k].const == 1:
                            inv_[k] = ZERO
                        else:
                            raise Unsupported('write through a broadcast view')
                    elif self.shape[k].key != '':
                        c = c * in_range(inv_[k], self.shape[k])
                    idx.append(inv_[k])
                c = c * cond(*idx) if cond is not None else c
                old = self.buf.body.rename(dict(zip(IX, ts)))
                body = ite(c, val(*idx), old) if c.terms else old
        finally:
            _depth[0] -= 1
        jset(self.buf, 'body', body.rename(dict(zip(ts, IX))))

    def __repr__(self):
        return describe(self)


def mkarr(shape, f, dtype):
    shape = tuple(toP(s) for s in shape)
    return Arr(Buffer(shape, body_of(shape, f), dtype))


def symarr(name, shape, dtype='c', *pre):
    """Array with uninterpreted elements name(pre..., idx...)."""
    return mkarr(shape, lambda *i: fn(name, *(tuple(pre) + i), sort=SORT[dtype]), dtype)


# ------------------------------------------------------------------ sequences
class Templ:
    """Value depending on indices: at(*idx). Instances that may have been
    simplified under the facts of a path are kept per set of facts."""

    def __init__(self, f, pure=False, value=None):
        self.f = f
        self.cache = {}
        self.pure = pure
        self.value = value      # (v,) if constant

    def at(self, *idx):
        if self.value is not None:
            return self.value[0]
        k = tuple(i.key for i in idx)
        if not self.pure:
            k += (CTX.version,)
        if k not in self.cache:
            self.cache[k] = self.f(*idx)
        return self.cache[k]

    @staticmethod
    def const(v):
        return Templ(None, True, (v,))


class LStore(Cell):
    """Storage of lists. nd leading family indices; slot 'content' is
    ('items', values) for nd == 0, or ('sym', length, pieces) with the length
    over IX[:nd] and pieces (guard over IX[:nd+1], template), later ones win."""
    __slots__ = ('nd', 'dims')

    def __init__(self, nd, content, dims=()):
        super().__init__()
        self.nd = nd
        self.dims = tuple(dims)     # sizes of the family indices
        self.slots['content'] = content


class PList:
    """A list (or tuple)."""
    __slots__ = ('st', 'pre', 'tup')

    def __init__(self, st, pre=(), tup=False):
        self.st, self.pre, self.tup = st, tuple(pre), tup

    @property
    def content(self):
        return self.st.slots['content']

    @property
    def items(self):
        c = self.content
        return c[1] if c[0] == 'items' else None

    def length(self):
        c = self.content
        if c[0] == 'items':
            return const(len(c[1]))
        return subst(c[1], dict(zip(IX, self.pre)))

    def same(self, o):
        return isinstance(o, PList) and o.st is self.st and \
            [p.key for p in o.pre] == [p.key for p in self.pre]

    def __repr__(self):
        return 'list(%s)' % self.length()


def plist(items, tup=False):
    return PList(LStore(0, ('items', tuple(items))), (), tup)


def symlist(n, f):
    """List of symbolic length with the elements f(i)."""
    n = toP(n)
    return PList(LStore(0, ('sym', n, ((ONE, Templ(f)),))))


def as_sym(content):
    """Piecewise form of a content."""
    if content[0] == 'sym':
        return content
    items = content[1]
    return ('sym', const(len(items)),
            tuple((eq0(IXP[0] - i), Templ.const(v)) for i, v in enumerate(items)))


class Range:
    """range(...) or any other immutable index sequence: length and at(i)."""

    def __init__(self, n, f):
        self.n, self.f = toP(n), f

    def at(self, i):
        return self.f(toP(i))


class Grid:
    """itertools.product / numpy.ndindex over sequences of symbolic length: only iterated over."""

    def __init__(self, seqs):
        self.seqs = seqs


class DictV(Cell):
    """Dictionary with concrete keys."""
    __slots__ = ()

    def __init__(self, pairs=()):
        super().__init__()
        self.slots['content'] = tuple(pairs)

    @property
    def pairs(self):
        return self.slots['content']

    def get(self, k, default=MISSING):
        for a, b in self.pairs:
            if type(a) is type(k) and a == k:
                return b
        return default

    def set(self, k, v):
        if self.ro:
            raise Unsupported('write to a dictionary of a family')
        out, done = [], False
        for a, b in self.pairs:
            if type(a) is type(k) and a == k:
                out.append((a, v))
                done = True
            else:
                out.append((a, b))
        if not done:
            out.append((k, v))
        jset(self, 'content', tuple(out))


class SStr:
    """A string depending on symbolic values."""

    def __init__(self, *parts):
        self.parts = parts

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


# ------------------------------------------------------------------ objects
class PyClass:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, PyClass) else [b]):
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name, after=None):
        """(class, value) of an attribute along the mro."""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, PyClass) and name in c.ns:
                return c, c.ns[name]
        return None, None

    def issub(self, o):
        return o in self.mro()

    def __repr__(self):
        return '<class %s>' % self.name


class Obj(Cell):
    __slots__ = ('cls', 'org')

    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.org = None             # identity of an element of a family

    def __repr__(self):
        return '<%s>' % self.cls.name


class PyFunc:
    def __init__(self, node, env, mod, name, cls=None, defaults=(), kwdefaults=None):
        self.node, self.env, self.mod, self.name, self.cls = node, env, mod, name, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}

    @property
    def qual(self):
        return '%s:%s' % (self.mod.name, self.name)

    def __repr__(self):
        return '<function %s>' % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Prop:
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class Native:
    """A function of the engine: f(interp, args, kwargs)."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return '<native %s>' % self.name


class Ext:
    """An external name, e.g. numpy.linalg.norm."""
    table = {}

    def __new__(cls, path):
        e = cls.table.get(path)
        if e is None:
            e = super().__new__(cls)
            e.path = path
            cls.table[path] = e
        return e

    @property
    def name(self):
        return self.path

    def mro(self):
        return [self]

    def __repr__(self):
        return '<ext %s>' % self.path


class Opaque:
    """An uninterpreted value with a name."""

    def __init__(self, name, attrs=None, call=None):
        self.name, self.attrs, self.callf = name, attrs or {}, call

    def __repr__(self):
        return '<opaque %s>' % self.name


class Computed:
    """Attribute of an opaque value that is computed when it is read."""

    def __init__(self, f):
        self.f = f


class Mod:
    def __init__(self, name):
        self.name = name
        self.env = None

    def __repr__(self):
        return '<module %s>' % self.name


class Frame(Cell):
    __slots__ = ('parent', 'mod', 'fn', 'selfv', 'glob')

    def __init__(self, parent, mod, fn=None):
        super().__init__()
        self.parent, self.mod, self.fn = parent, mod, fn
        self.glob = set()


class Lazy:
    """Value computed when it is read."""

    def __init__(self, f):
        self.f, self.done, self.v = f, False, None

    def force(self):
        if not self.done:
            self.v, self.done = self.f(), True
        return self.v


class Poison:
    """A loop-carried reference whose structure is not known yet."""

    def __init__(self, loc):
        self.loc = loc


class NeedCarry(Exception):
    def __init__(self, loc):
        self.loc = loc
