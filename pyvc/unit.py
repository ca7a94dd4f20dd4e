"""Contract units: symbolic inputs, execution of the real code, obligations."""
import ast
import itertools
import time

from .values import *
from . import terms as T
from . import values as V
from .interp import Interp, Path
from .loops import unl, same_ref
from .prove import Prover

UNITS = []          # (property, name, function, options)


def unit(prop, name, functions=(), domain='', tier='quick', bounded='', timeout=None):
    def deco(f):
        UNITS.append(dict(prop=prop, name=name, f=f, functions=list(functions), domain=domain,
                          tier=tier, bounded=bounded, timeout=timeout))
        return f
    return deco


class U:
    """State of a running unit."""

    def __init__(self, name, root, deadline, seed='1'):
        from .npstub import STUBS
        self.name = name
        self.I = Interp(root=root, stubs=STUBS)
        self.deadline = deadline
        self.obl = []
        self.prover = Prover(deadline=deadline, seed=str(seed))
        self.assumed = []
        self.count = {}
        self.cells = {}           # cell -> name of the input
        self.no_refute = False
        self.paths = 0

    # ------------------------------------------------------------ inputs
    def mod(self, name):
        return self.I.module(name)

    def source(self, name, text):
        """Module with the given text (environment of the code under test)."""
        return self.I.text_module(name, text)

    def cls(self, qual):
        m, n = qual.split(':')
        return self.I.module(m).env.slots[n]

    def dim(self, name, lo=1):
        v = var(name)
        self.I_assume(ge(v - lo))
        return v

    def index(self, name, n):
        v = var(name)
        self.I_assume(ge(v))
        self.I_assume(ge(toP(n) - 1 - v))
        return v

    def I_assume(self, c):
        CTX.assume(c)

    def assume(self, c, text=None):
        CTX.assume(c)
        if text:
            self.assumed.append(text)

    def real(self, name, positive=False):
        v = var(name, 'r')
        if positive:
            self.I_assume(ge(v))
            self.I_assume(Not(eq0(v)))
        return Num(v, 'float')

    def npreal(self, name):
        return Num(var(name, 'r'), 'np.float64')

    def cplx(self, name):
        return Num(var(name, 'c'), 'complex')

    def arr(self, name, *shape, dtype='c', pre=()):
        return symarr(name, shape, dtype, *pre)

    def op(self, name, *shape, pre=()):
        return self.I.call(self.cls('qopt.matrix:DenseOperator'),
                           [symarr(name, shape, 'c', *pre)], {})

    def opf(self, f, *shape):
        """Operator with the elements f(i, j)."""
        return self.I.call(self.cls('qopt.matrix:DenseOperator'), [mkarr(shape, f, 'c')], {})

    def list_of(self, n, f):
        """List of length n with elements f(i), each with storage of its own."""
        if isinstance(n, int):
            return plist([f(const(i)) for i in range(n)])
        return self.I.loops.family_list(self.I, n, f)

    # ------------------------------------------------------------ calls
    def call(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def get(self, o, name):
        return self.I.getattr(o, name)

    def data(self, o):
        return self.I.getattr(o, 'data')

    def item(self, l, *idx):
        for i in idx:
            i = toP(i)
            l = self.I.getitem(l, num(i, 'int'))
        return l

    def length(self, l):
        return self.I.seq(l).n

    # ------------------------------------------------------------ frame
    def input(self, name, v):
        """Register everything reachable from v as caller's property."""
        for c in reach(v):
            self.cells.setdefault(c, name)
        return v

    def frame_ok(self, mark, what='inputs unchanged'):
        bad = []
        for (c, key), old in V.modified(mark).items():
            if c in self.cells:
                new = c.slots.get(key, MISSING)
                if not same_content(old, new):
                    if isinstance(c, Buffer):
                        d = new - old
                        r = self.zero_on(d, c.shape)
                        if r[0] == 'discharged':
                            continue
                        bad.append((self.cells[c], r))
                    else:
                        bad.append((self.cells[c], ('refuted', 'object changed')))
        if not bad:
            self.record(what, 'discharged', 'struct', '')
        for n, r in bad[:3]:
            self.record('%s (%s)' % (what, n), r[0] if r[0] == 'refuted' else 'open', '', r[1])

    def zero_on(self, d, shape):
        ts = [T.temp() for _ in shape]
        with CTX.ranges(ts, shape):
            return self.prover.zero(subst(d, dict(zip(IX, [P(t) for t in ts]))))

    # ------------------------------------------------------------ obligations
    def record(self, name, status, by='', detail=''):
        if status == 'refuted' and self.no_refute:
            status, detail = 'open', 'difference under assumed facts: ' + str(detail)
        k = self.count.get(name, 0)
        self.count[name] = k + 1
        self.obl.append(dict(name=name if not k else '%s #%d' % (name, k + 1), status=status,
                             by=by if status == 'discharged' else '', detail=str(detail)[:1500]))

    def zero(self, name, p):
        st, d = self.prover.zero(p)
        self.record(name, st, d if st == 'discharged' else '', '' if st == 'discharged' else d)
        return st == 'discharged'

    def eq(self, name, a, b):
        a, b = pol(a) if not isinstance(a, Poly) else a, pol(b) if not isinstance(b, Poly) else b
        return self.zero(name, a - b)

    def true(self, name, c):
        """c: indicator polynomial or bool."""
        if isinstance(c, bool):
            self.record(name, 'discharged' if c else 'refuted', 'struct',
                        '' if c else 'structurally false')
            return c
        return self.zero(name, ONE - c)

    def struct(self, name, ok, detail=''):
        """A structural fact that the engine decides."""
        self.record(name, 'discharged' if ok else 'refuted', 'struct', detail)
        return ok

    def arr_eq(self, name, a, shape, f):
        """The array a has the shape and the elements f(*idx)."""
        a = unl(a)
        if not isinstance(a, Arr):
            if isnum(a) and not shape:
                return self.eq(name, a, f())
            return self.struct(name, False, 'array expected, got ' + describe(a))
        if len(a.shape) != len(shape):
            return self.struct(name, False, 'number of dimensions %d instead of %d'
                               % (len(a.shape), len(shape)))
        ok = True
        for k, (x, y) in enumerate(zip(a.shape, shape)):
            if toP(x) != toP(y):
                ok = self.zero('%s: length of axis %d' % (name, k), toP(x) - toP(y)) and ok
        if not ok:
            return False
        ts = [T.temp() for _ in shape]
        with CTX.ranges(ts, [toP(s) for s in shape]):
            idx = [P(t) for t in ts]
            d = a.el(*idx) - f(*idx)
            return self.zero(name, d)

    def op_eq(self, name, o, shape, f):
        o = unl(o)
        if not (isinstance(o, Obj) and o.cls.name == 'DenseOperator'):
            return self.struct(name, False, 'operator expected, got ' + describe(o))
        return self.arr_eq(name, self.data(o), shape, f)

    def list_eq(self, name, l, n, check):
        """The list has length n and check(element, i) holds for every index."""
        l = unl(l)
        try:
            s = self.I.seq(l)
        except PyRaise:
            return self.struct(name, False, 'list expected, got ' + describe(l))
        self.zero(name + ': length', s.n - toP(n))
        if s.n.cint is not None and s.n.cint <= 4:
            for i in range(s.n.cint):
                check(s.at(const(i)), const(i))
            return
        t = T.temp()
        with CTX.ranges([t], [toP(n)]):
            if CTX.feasible():
                check(s.at(P(t)), P(t))

    def fresh(self, name, v):
        """v shares nothing mutable with the registered inputs."""
        bad = [n for c in reach(v) for n in [self.cells.get(c)] if n]
        self.struct(name, not bad, 'shared with ' + ', '.join(sorted(set(bad))))

    # ------------------------------------------------------------ running
    def run(self, name, thunk, post, raises=None, nofail=True, frame=True):
        """All paths of thunk; post(value) on the normal ones.

        raises: None (no exception allowed), a set of exception names that are
        allowed, or a function(exception name) -> indicator of the domain."""
        n = [0, 0]

        def cap(kind, v, mark):
            self.prover.check_time()
            if kind == 'ok':
                n[0] += 1
                if frame:
                    self.frame_ok(mark, name + ': inputs unchanged')
                self.explore_post(name, lambda: post(v))
            else:
                n[1] += 1
                en = getattr(v.cls, 'name', str(v.cls))
                if frame:
                    self.frame_ok(mark, name + ': inputs unchanged')
                if raises is None:
                    self.record(name + ': no exception', self.reachable(), '',
                                'raises %s under %s' % (v, path_text()))
                elif callable(raises):
                    self.true('%s: %s raised only where specified' % (name, en), raises(en))
                else:
                    self.struct('%s: kind of exception' % name, en in raises,
                                'raises %s' % v)
        try:
            paths = self.I.explore(thunk, cap)
        except (Unsupported, Budget, NeedCarry, RecursionError) as e:
            self.record(name + ': execution', 'open', '', '%s: %s' % (type(e).__name__, e))
            return
        self.paths += len(paths)
        if raises is None or nofail:
            if n[0] == 0 and nofail:
                self.record(name + ': returns normally', 'open', '',
                            'no path returns normally')

    def explore_post(self, name, f):
        """The postcondition may branch itself."""
        try:
            self.I.explore(f, self.post_cap(name))
        except (Unsupported, Budget, NeedCarry, RecursionError) as e:
            self.record(name + ': postcondition', 'open', '', '%s: %s' % (type(e).__name__, e))

    def post_cap(self, name):
        def cap(kind, v, mark):
            if kind == 'raise':
                self.record(name + ': postcondition evaluates', self.reachable(), '',
                            'raises %s under %s' % (v, path_text()))
        return cap

    def reachable(self):
        """refuted if an instance of the current path conditions is found."""
        from .numeric import instances
        for env in instances([ONE], '7', 6, self.prover.interp):
            return 'refuted'
        return 'open'

    def must_raise(self, name, thunk, kinds=None):
        """Every path raises."""
        got = []

        def cap(kind, v, mark):
            self.frame_ok(mark, name + ': inputs unchanged')
            if kind == 'ok':
                self.record(name + ': rejected', self.reachable(), '',
                            'returns normally under %s' % path_text())
            else:
                en = getattr(v.cls, 'name', str(v.cls))
                self.struct(name + ': rejected', kinds is None or en in kinds, 'raises %s' % v)
        try:
            self.I.explore(thunk, cap)
        except (Unsupported, Budget, NeedCarry, RecursionError) as e:
            self.record(name + ': execution', 'open', '', '%s: %s' % (type(e).__name__, e))


def path_text():
    return ' and '.join(str(f) for f in CTX.facts)[-400:]


def same_content(a, b):
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_content(x, y) for x, y in zip(a, b))
    try:
        return same_ref(a, b)
    except Exception:
        return False


def reach(v, out=None):
    """Mutable cells reachable from a value."""
    if out is None:
        out = {}
    if isinstance(v, LazyV):
        return out
    if isinstance(v, Lazy):
        if v.done:
            reach(v.v, out)
        return out
    if isinstance(v, Arr):
        out[v.buf] = True
    elif isinstance(v, PList):
        if v.st not in out:
            if not v.tup:
                out[v.st] = True
            c = v.st.slots['content']
            if c[0] == 'items':
                for x in c[1]:
                    reach(x, out)
            else:
                # all instances of a family hang together
                for g, t in c[2]:
                    for x in list(t.cache.values()):
                        reach(x, out)
                    k = getattr(t, 'generic', None)
                    if k is None:
                        try:
                            k = t.generic = t.at(*[P(T.temp()) for _ in range(v.st.nd + 1)])
                        except Exception:
                            k = t.generic = None
                    reach(k, out)
    elif isinstance(v, Obj):
        if v not in out:
            out[v] = True
            for x in v.slots.values():
                reach(x, out)
    elif isinstance(v, DictV):
        if v not in out:
            out[v] = True
            for _, x in v.pairs:
                reach(x, out)
    elif isinstance(v, Bound):
        reach(v.self_, out)
    return out


LazyV = type(None)


def freeze(v):
    for c in reach(v):
        c.ro = True
