"""Symbolic interpreter of the Python source in /repo."""
import ast
import hashlib
import os
import re as regex

from .values import *
from . import terms as T
from . import values as V


DEPTH = regex.compile(r't:d(\d+)\.')


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


EXC = ['BaseException', 'Exception', 'ValueError', 'TypeError', 'IndexError', 'KeyError',
       'RuntimeError', 'NotImplementedError', 'AssertionError', 'ImportError', 'AttributeError',
       'StopIteration', 'RuntimeWarning', 'DeprecationWarning', 'Warning', 'ZeroDivisionError',
       'OSError', 'ArithmeticError', 'LookupError', 'OverflowError', 'KeyboardInterrupt']
EXC_PARENT = {'IndexError': 'LookupError', 'KeyError': 'LookupError',
              'NotImplementedError': 'RuntimeError', 'ZeroDivisionError': 'ArithmeticError',
              'BaseException': None, 'Exception': 'BaseException',
              'KeyboardInterrupt': 'BaseException', 'DeprecationWarning': 'Warning',
              'RuntimeWarning': 'Warning', 'OverflowError': 'ArithmeticError'}
TYPES = ['int', 'float', 'complex', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'object',
         'type', 'NoneType', 'range', 'function']
BUILTIN_PARENT = {'bool': 'int', 'np.float64': 'float', 'np.complex128': 'complex'}


class Path:
    def __init__(self, kind, val, conds, cap):
        self.kind, self.val, self.conds, self.cap = kind, val, conds, cap

    @property
    def cond(self):
        return And(*self.conds) if self.conds else ONE


FREE = {'pyvc.unit', 'print', 'warnings.warn', 'warnings.simplefilter'}


class Args(list):
    """Positional arguments; remembers which were read."""

    def __init__(self, a):
        super().__init__(a)
        self.used = set()

    def __getitem__(self, i):
        self.used |= set(range(*i.indices(len(self)))) if isinstance(i, slice) else {
            i % max(1, len(self))}
        return super().__getitem__(i)

    def __iter__(self):
        self.used |= set(range(len(self)))
        return super().__iter__()

    def __radd__(self, other):
        return list(other) + list(iter(self))

    def __add__(self, other):
        return list(iter(self)) + list(other)


class Kw(dict):
    """Keyword arguments; remembers which were read."""

    def __init__(self, k):
        super().__init__(k)
        self.used = set()

    def get(self, k, d=None):
        self.used.add(k)
        return super().get(k, d)

    def __getitem__(self, k):
        self.used.add(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        self.used.add(k)
        return super().__contains__(k)

    def pop(self, k, *d):
        self.used.add(k)
        return super().pop(k, *d)

    def __iter__(self):
        self.used |= set(super().keys())
        return super().__iter__()

    def items(self):
        self.used |= set(super().keys())
        return super().items()

    def values(self):
        self.used |= set(super().keys())
        return super().values()

    def keys(self):
        self.used |= set(super().keys())
        return super().keys()


class Interp:
    def __init__(self, root='/repo', stubs=None):
        self.root = root
        self.mods = {}
        self.contracts = {}
        self.off = set()
        self.stubs = stubs if stubs is not None else {}
        self.dec = None
        self.floor = 0
        self.generic = frozenset()      # indices that stand for all elements
        self.depth = 0
        self.loop_obl = []        # (description, status)
        self.used_contracts = set()
        self.executed = set()
        self.ext_used = set()
        self.steps = 0
        self.max_steps = 400000
        self.maxpaths = 400
        from . import loops
        self.loops = loops
        self.random_cell = Cell()
        BUILTINS.update(builtins_().BUILTINS)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.root, *name.split('.'))
        f = path + '.py' if os.path.exists(path + '.py') else os.path.join(path, '__init__.py')
        m = Mod(name)
        self.mods[name] = m
        m.env = Frame(None, m)
        m.env.slots['__name__'] = name
        m.env.slots['__file__'] = f
        if os.path.isdir(path) and not os.path.exists(path + '.py'):
            return m                # packages: submodules are loaded on demand
        with open(f) as fh:
            m.src = fh.read()
        m.tree = ast.parse(m.src)
        old, self.dec = self.dec, None
        try:
            self.block(m.tree.body, m.env)
        finally:
            self.dec = old
        return m

    def text_module(self, name, text):
        m = Mod(name)
        self.mods[name] = m
        m.env = Frame(None, m)
        m.env.slots['__name__'] = name
        m.src = text
        m.tree = ast.parse(text)
        old, self.dec = self.dec, None
        try:
            self.block(m.tree.body, m.env)
        finally:
            self.dec = old
        return m

    def get(self, qual):
        """Value named 'qopt.matrix:DenseOperator.dag'."""
        mod, name = qual.split(':')
        v = self.module(mod).env.slots
        parts = name.split('.')
        x = v[parts[0]]
        for p in parts[1:]:
            _, x = x.lookup(p)
        return x

    # ------------------------------------------------------------ paths
    def branch(self, c):
        """Decide an indicator polynomial on the current path."""
        if isinstance(c, bool):
            return c
        if c.const is not None:
            return c.const != 0
        if CTX.entails(c):
            return True
        nc = Not(c)
        if CTX.entails(nc):
            return False
        if self.dec is None:
            raise Unsupported('undecided condition %s' % c.key[:200])
        if any(v in self.generic or self.deep(v) for v in c.free):
            # the decision would hold for one element and be used for all
            raise Unsupported('undecided condition on a generic element %s' % c.key[:200])
        prefix, trace, pending = self.dec
        i = len(trace)
        if i < len(prefix):
            d = prefix[i]
        else:
            d = True
            pending.append([t[0] for t in trace] + [False])
        trace.append((d, c if d else nc))
        CTX.assume(c if d else nc)
        if not CTX.feasible():
            raise Infeasible()
        return d

    def deep(self, v):
        """Element index of an array body that is being built."""
        m = DEPTH.match(v.key)
        return m and int(m.group(1)) > self.floor

    def explore(self, thunk, capture=None, limit=None):
        """All feasible paths of thunk; the heap is restored after each one."""
        floor, self.floor = self.floor, V._depth[0]
        try:
            return self.explore_(thunk, capture, limit)
        finally:
            self.floor = floor

    def explore_(self, thunk, capture, limit):
        pending = [[]]
        out = []
        old, gen = self.dec, self.generic
        limit = limit or self.maxpaths
        depth = self.depth
        while pending:
            prefix = pending.pop()
            trace = []
            self.dec = (prefix, trace, pending)
            self.generic = frozenset()
            self.depth = depth
            CTX.push()
            mark = len(JOURNAL)
            clock = next(V._clock)
            try:
                try:
                    v = thunk()
                    kind = 'ok'
                except PyRaise as e:
                    v, kind = e, 'raise'
                conds = [c for _, c in trace]
                cap = capture(kind, v, mark) if capture else None
                out.append(Path(kind, v, conds, cap))
            except Infeasible:
                pass
            finally:
                undo(mark, clock)
                CTX.pop()
                self.dec, self.generic = old, gen
            if len(out) > limit:
                raise Unsupported('more than %d paths' % limit)
        return out

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, Num):
            if v.ty in ('bool', 'np.bool_'):
                return self.branch(v.p)
            return not self.branch(eq0(v.p))
        if isinstance(v, (int, float, complex)):
            return bool(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, PList):
            return not self.branch(eq0(v.length()))
        if isinstance(v, Range):
            return not self.branch(eq0(v.n))
        if isinstance(v, DictV):
            return bool(v.pairs)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.truth(self.unbox(v))
            if all(s.const == 1 for s in v.shape):
                return self.truth(num(v.el(*[ZERO] * v.ndim), v.ty()))
            raise Unsupported('truth value of an array')
        if isinstance(v, (Obj, PyFunc, PyClass, Bound, Native, Ext, Opaque, SStr)):
            if isinstance(v, Obj):
                c, f = v.cls.lookup('__bool__')
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
                c, f = v.cls.lookup('__len__')
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
            return True
        raise Unsupported('truth value of %s' % describe(v))

    def unbox(self, v):
        if isinstance(v, Arr) and v.ndim == 0:
            return num(v.el(), v.ty())
        return v

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.slots:
                v = f.slots[name]
                if isinstance(v, Poison):
                    raise NeedCarry(v.loc)
                if isinstance(v, Lazy):
                    v = v.force()
                return v
            f = f.parent
        if fr.mod.env is not None and name in fr.mod.env.slots:
            return fr.mod.env.slots[name]
        if name in BUILTINS:
            return BUILTINS[name]
        if name in EXC or name in TYPES:
            return Ext(name)
        import builtins
        if hasattr(builtins, name):
            raise Unsupported('builtin %s' % name)
        raise PyRaise(Ext('NameError'), (name,))

    def raise_(self, name, *args):
        raise PyRaise(Ext(name), args)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('too many steps')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Return(self, s, fr):
        raise _Return(None if s.value is None else self.ev(s.value, fr))

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Global(self, s, fr):
        for n in s.names:
            fr.glob.add(n)

    s_Nonlocal = None

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.glob:
                jset(fr.mod.env, t.id, v)
            else:
                jset(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k, vs = star[0], plist(self.concrete(v)) if not isinstance(v, PList) else v
                rest = len(t.elts) - 1 - k
                n = vs.length()
                if not CTX.entails_ge(n - k - rest) and not self.branch(ge(n - k - rest)):
                    self.raise_('ValueError', 'unpack')
                for j in range(k):
                    self.assign(t.elts[j], self.list_get(vs, const(j)), fr)
                mid = self.list_slice(vs, k, num(n - rest, 'int'), None)
                self.assign(t.elts[k].value, self.as_list(mid), fr)
                for j in range(rest):
                    self.assign(t.elts[k + 1 + j], self.list_get(vs, n - rest + j), fr)
                return
            vs = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        seq = self.seq(v)
        if seq.n.cint is None:
            if not self.branch(eq0(seq.n - n)):
                self.raise_('ValueError', 'unpack')
        elif seq.n.cint != n:
            self.raise_('ValueError', 'unpack')
        return [seq.at(const(i)) for i in range(n)]

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load()), fr)
            new = self.iop(s.op, cur, self.ev(s.value, fr))
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            new = self.iop(s.op, cur, self.ev(s.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.index(t.slice, fr)
            cur = self.getitem(o, i)
            new = self.iop(s.op, cur, self.ev(s.value, fr))
            self.setitem(o, i, new)
        else:
            raise Unsupported('augmented assignment')

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_('AssertionError')

    def s_Raise(self, s, fr):
        if s.exc is None:
            h = fr.slots.get('$exc')
            if h is not None:
                raise h
            raise Unsupported('bare raise')
        e = self.ev(s.exc, fr)
        if isinstance(e, Obj):
            raise PyRaise(e.cls, (), e)
        if isinstance(e, PyClass):
            raise PyRaise(e, (), self.call(e, [], {}))
        if isinstance(e, Ext):
            raise PyRaise(e)
        if isinstance(e, ExcV):
            raise PyRaise(e.cls, e.eargs, e)
        raise Unsupported('raise %r' % (e,))

    def exc_match(self, cls, spec):
        if isinstance(spec, PList):
            return any(self.exc_match(cls, x) for x in spec.items)
        return self.subclass(cls, spec)

    def subclass(self, c, d):
        if c is d:
            return True
        if isinstance(c, PyClass):
            return any(self.subclass(b, d) for b in c.bases)
        if isinstance(c, Ext):
            if d is Ext('object'):
                return True
            n = c.path
            p = EXC_PARENT.get(n, 'Exception' if n in EXC else BUILTIN_PARENT.get(n))
            return p is not None and self.subclass(Ext(p), d)
        return False

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.cls, self.ev(h.type, fr)):
                        if h.name:
                            jset(fr, h.name, e.val if e.val is not None else ExcV(e.cls, e.eargs))
                        jset(fr, '$exc', e)
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (Unsupported, Infeasible, NeedCarry, Budget):
            raise
        except BaseException:
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        if s.finalbody:
            self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        done = []
        for it in s.items:
            cm = self.ev(it.context_expr, fr)
            v = self.enter(cm)
            if '__exit__' in cm.attrs:
                done.append(cm.attrs['__exit__'])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        if not done:
            return self.block(s.body, fr)
        try:
            self.block(s.body, fr)
        except (Unsupported, Infeasible, Budget, NeedCarry):
            raise
        except BaseException:
            for f in reversed(done):
                f(self, [], {})
            raise
        for f in reversed(done):
            f(self, [], {})

    def enter(self, cm):
        if isinstance(cm, Opaque):
            return cm
        raise Unsupported('with %s' % describe(cm))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                jset(fr, t.id, Lazy(lambda: self.raise_('NameError', 'deleted')))
            else:
                raise Unsupported('del')

    def s_Import(self, s, fr):
        for a in s.names:
            top = a.name if a.asname else a.name.split('.')[0]
            jset(fr, a.asname or top, self.imported(top))
            if a.asname is None and '.' in a.name and a.name.startswith('qopt'):
                self.imported(a.name)

    def imported(self, name):
        if name == 'qopt' or name.startswith('qopt.'):
            return self.module(name)
        return Ext({'np': 'numpy'}.get(name, name))

    def s_ImportFrom(self, s, fr):
        base = s.module or ''
        if s.level:
            base = 'qopt' + ('.' + base if base else '')
        for a in s.names:
            n = a.asname or a.name
            if base == 'qopt' or base.startswith('qopt.'):
                full = base + '.' + a.name
                path = os.path.join(self.root, *full.split('.'))
                if os.path.exists(path + '.py'):
                    v = self.module(full)
                else:
                    v = self.module(base).env.slots[a.name]
            else:
                v = Ext(base + '.' + a.name)
            jset(fr, n, v)

    def s_FunctionDef(self, s, fr):
        jset(fr, s.name, self.mkfunc(s, fr))

    def mkfunc(self, s, fr, cls=None):
        a = s.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = (cls + '.' if cls else '') + getattr(s, 'name', '<lambda>')
        env = fr if fr is not fr.mod.env else None
        f = PyFunc(s, env, fr.mod, name, None, defaults, kwd)
        v = f
        for d in reversed(getattr(s, 'decorator_list', [])):
            v = self.decorate(d, v, fr)
        return v

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter'):
            p = self.ev(d.value, fr)
            return Prop(p.get, v) if d.attr == 'setter' else Prop(v, p.set)
        e = self.ev(d, fr)
        if isinstance(e, Ext):
            n = e.path.split('.')[-1]
            if n == 'property':
                return Prop(v)
            if n == 'classmethod':
                return ClassM(v)
            if n == 'staticmethod':
                return StaticM(v)
            if n == 'abstractmethod':
                return v
        if isinstance(e, Native):
            if e.name == 'property':
                return Prop(v)
            if e.name == 'classmethod':
                return ClassM(v)
            if e.name == 'staticmethod':
                return StaticM(v)
        if isinstance(e, PyFunc) and e.name in ('deprecated', 'needs_refactoring'):
            # the wrapper only issues a warning; checked by the unit 'util'
            return v
        return self.call(e, [v], {})

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        ns_fr = Frame(fr if fr is not fr.mod.env else None, fr.mod)
        cls = PyClass(s.name, bases, {}, fr.mod)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                v = self.mkfunc(st, ns_fr, s.name)
                f = v
                while isinstance(f, (Prop, ClassM, StaticM)):
                    if isinstance(f, Prop):
                        for g in (f.get, f.set):
                            if isinstance(g, PyFunc):
                                g.cls = g.cls or cls
                                g.env = fr if fr is not fr.mod.env else None
                        break
                    f = f.fn
                if isinstance(f, PyFunc):
                    f.cls = cls
                    f.env = fr if fr is not fr.mod.env else None
                ns_fr.slots[st.name] = v
            else:
                self.stmt(st, ns_fr)
        cls.ns = ns_fr.slots
        jset(fr, s.name, cls)

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)

        def run(item):
            self.assign(s.target, item, fr)
            try:
                self.block(s.body, fr)
            except _Continue:
                pass
        self.iterate(it, run)
        if s.orelse:
            self.block(s.orelse, fr)

    def iterate(self, it, run):
        if isinstance(it, Grid):
            return self.iterate_grid(it.seqs, (), run)
        seq = self.seq(it)
        n = seq.n
        if n.cint is None and CTX.facts_n:
            for c in (0, 1, 2):
                if CTX.entails_eq(n, const(c)):
                    n = const(c)
                    break
        if n.cint is not None and n.cint <= 70:
            for i in range(max(0, n.cint)):
                try:
                    run(seq.at(const(i)))
                except _Break:
                    break
            return
        self.loops.sym_loop(self, n, lambda k: run(seq.at(k)))

    def iterate_grid(self, seqs, done, run):
        stopped = []

        def inner(item):
            if stopped:
                return
            if len(seqs) > 1:
                if self.iterate_grid(seqs[1:], done + (item,), run):
                    stopped.append(1)
                    raise _Break()
                return
            try:
                run(plist(list(done + (item,)), True))
            except _Break:
                stopped.append(1)
                raise
        self.iterate(seqs[0], inner)
        return bool(stopped)

    def s_While(self, s, fr):
        for _ in range(70):
            if not self.truth(self.ev(s.test, fr)):
                break
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
        else:
            raise Unsupported('while loop without a bound')

    # ------------------------------------------------------------ sequences
    def seq(self, v):
        v = v.force() if isinstance(v, Lazy) else v
        if isinstance(v, Range):
            return v
        if isinstance(v, PList):
            return Range(v.length(), lambda i: self.list_get(v, i))
        if isinstance(v, Arr):
            if v.ndim == 0:
                self.raise_('TypeError', 'iteration over a 0-d array')
            return Range(v.shape[0], lambda i: self.arr_get(v, [num(toP(i), 'int')]))
        if isinstance(v, str):
            return Range(len(v), lambda i: v[i.cint])
        if isinstance(v, DictV):
            ks = [k for k, _ in v.pairs]
            return Range(len(ks), lambda i: ks[i.cint])
        if isinstance(v, SetV):
            return Range(len(v.items), lambda i: v.items[i.cint])
        if isinstance(v, Obj):
            c, f = v.cls.lookup('__iter__')
            if f is None:
                c, g = v.cls.lookup('__getitem__')
            raise Unsupported('iteration over %s' % describe(v))
        if v is None or isnum(v):
            self.raise_('TypeError', 'not iterable')
        raise Unsupported('iteration over %s' % describe(v))

    def concrete(self, v):
        """Python list of the elements of a sequence of concrete length."""
        s = self.seq(v)
        n = s.n
        if n.cint is None:
            for c in range(6):
                if CTX.entails_eq(n, const(c)):
                    n = const(c)
                    break
        if n.cint is None:
            raise Unsupported('sequence of symbolic length %s' % s.n)
        return [s.at(const(i)) for i in range(n.cint)]

    def norm_index(self, i, n):
        """Index with Python's meaning of negative numbers; bounds are checked."""
        i, n = toP(i), toP(n)
        if i.cint is not None and n.cint is not None:
            if not -n.cint <= i.cint < n.cint:
                self.raise_('IndexError')
            return i if i.cint >= 0 else i + n
        if CTX.entails_ge(i):
            pass
        elif CTX.entails_ge(-i - 1):
            i = i + n
            if not self.branch(ge(i)):
                self.raise_('IndexError')
            return i
        elif not self.branch(ge(i)):
            i = i + n
            if not self.branch(ge(i)):
                self.raise_('IndexError')
            return i
        if not self.branch(ge(n - 1 - i)):
            self.raise_('IndexError')
        return i

    def list_get(self, l, i):
        i = self.norm_index(i, l.length())
        return self.list_at(l, i)

    def list_at(self, l, i):
        c = l.content
        if c[0] == 'items':
            k = i.cint
            if k is not None:
                v = c[1][k]
                return v.force() if isinstance(v, Lazy) else v
            if not c[1]:
                raise Infeasible()
            same = c[1][0]
            if all(v is same for v in c[1]):
                return same
        _, n, pieces = as_sym(c)
        idx = tuple(l.pre) + (i,)
        mp = dict(zip(IX, idx))
        cands = []
        for g, t in reversed(pieces):
            g = subst(g, mp)
            g = T.renorm(g)
            if g.const == 0:
                continue
            if g.const != 1 and not CTX.entails(g):
                if not CTX.feasible(g):
                    continue
                cands.append((g, t))
                continue
            cands.append((ONE, t))
            break
        if not cands:
            raise Infeasible()
        if len(cands) == 1:
            return self.poisoned(cands[0][1].at(*idx))
        vals = []
        for g, t in cands:
            v = t.at(*idx)
            if isinstance(v, Poison):
                raise Unsupported('loop-carried list element')
            vals.append(v)
        m = self.loops.merge_values([(g, v) for (g, _), v in zip(cands, vals)])
        if m is not MISSING:
            return m
        for (g, t), v in zip(cands, vals):
            if g.const == 1 or self.branch(g):
                return v
        raise Infeasible()

    def poisoned(self, v):
        if isinstance(v, Poison):
            raise Unsupported('loop-carried list element')
        if isinstance(v, Lazy):
            return v.force()
        return v

    def list_set(self, l, i, v):
        if l.tup:
            self.raise_('TypeError', 'tuple assignment')
        if l.st.ro:
            raise Unsupported('write to a shared list placeholder')
        i = self.norm_index(i, l.length())
        c = l.content
        if c[0] == 'items' and i.cint is not None:
            items = list(c[1])
            items[i.cint] = v
            jset(l.st, 'content', ('items', tuple(items)))
            return
        if v is not None and not isinstance(v, (str, bool)):
            try:
                cur = self.list_at(l, i)
            except Unsupported:
                cur = None
            if self.loops.same_ref(cur, v):
                return
        _, n, pieces = as_sym(c)
        g = eq0(IXP[l.st.nd] - i)
        for k, p in enumerate(l.pre):
            g = g * eq0(IXP[k] - p)
        jset(l.st, 'content', ('sym', n, pieces + ((g, Templ.const(v)),)))

    def list_append(self, l, v):
        if l.st.ro:
            raise Unsupported('append to a shared list placeholder')
        c = l.content
        if c[0] == 'items':
            jset(l.st, 'content', ('items', c[1] + (v,)))
            return
        _, n, pieces = c
        here = l.length()
        g = eq0(IXP[l.st.nd] - here)
        d = ONE
        for k, p in enumerate(l.pre):
            g = g * eq0(IXP[k] - p)
            d = d * eq0(IXP[k] - p)
        jset(l.st, 'content', ('sym', n + d, pieces + ((g, Templ.const(v)),)))

    def list_concat(self, a, b):
        if a.items is not None and b.items is not None:
            return plist(a.items + b.items, a.tup)
        na, nb = a.length(), b.length()
        return PList(LStore(0, ('sym', na + nb, (
            (ONE, Templ(lambda i: self.list_at(a2, i))),
            (ge(IXP[0] - na), Templ(lambda i: self.list_at(b2, i - na)))))), (), a.tup) \
            if (a2 := self.snapshot(a)) and (b2 := self.snapshot(b)) else None

    def as_list(self, l):
        if not l.tup:
            return l
        return self.list_concat(plist([]), PList(l.st, l.pre))

    def list_replace(self, l, new):
        """The list l takes the content of the fresh list new."""
        if l.st.ro or l.st.nd:
            raise Unsupported('list of a family is replaced')
        jset(l.st, 'content', new.content)

    def snapshot(self, l):
        """List with the present content."""
        c = l.content
        if c[0] == 'items':
            return PList(LStore(0, c), (), l.tup)
        st = LStore(l.st.nd, c, l.st.dims)
        return PList(st, l.pre, l.tup)

    def list_slice(self, l, lo, hi, st):
        n = l.length()
        if l.items is not None and all(x is None or toP(pol(x)).cint is not None
                                       for x in (lo, hi, st)):
            f = lambda x: None if x is None else toP(pol(x)).cint
            return plist(l.items[slice(f(lo), f(hi), f(st))], l.tup)
        m, f = self.slice_map(n, lo, hi, st)
        snap = self.snapshot(l)
        return PList(LStore(0, ('sym', m, ((ONE, Templ(lambda i: self.list_at(snap, f(i)))),))),
                     (), l.tup)

    def slice_map(self, n, lo, hi, st):
        """(length, i -> index) of a slice of a sequence of length n."""
        step = 1 if st is None else toP(pol(st)).cint
        if step not in (1, -1):
            if step is not None and step > 0 and lo is None and hi is None:
                return T.fdiv(n + step - 1, const(step)), lambda i: i * step
            raise Unsupported('slice step')
        if step == 1:
            a = ZERO if lo is None else self.clip(toP(pol(lo)), n)
            b = n if hi is None else self.clip(toP(pol(hi)), n)
            m = b - a
            if not CTX.entails_ge(m):
                if not self.branch(ge(m)):
                    m = ZERO
            return m, lambda i: toP(i) + a
        # reversed
        a = n - 1 if lo is None else self.clip_neg(toP(pol(lo)), n)
        b = const(-1) if hi is None else self.clip_neg(toP(pol(hi)), n)
        m = a - b
        if not CTX.entails_ge(m):
            if not self.branch(ge(m)):
                m = ZERO
        return m, lambda i: a - toP(i)

    def clip(self, x, n):
        if x.cint is not None and x.cint < 0 or not CTX.entails_ge(x) and \
                not self.branch(ge(x)):
            x = x + n
            return x if self.branch(ge(x)) else ZERO
        return x if self.branch(ge(n - x)) else n

    def clip_neg(self, x, n):
        if x.cint is not None and x.cint < 0 or not CTX.entails_ge(x) and \
                not self.branch(ge(x)):
            x = x + n
            return x if self.branch(ge(x)) else const(-1)
        return x if self.branch(ge(n - 1 - x)) else n - 1

    # ------------------------------------------------------------ arrays
    def arr_get(self, a, idx):
        from . import npstub
        return npstub.getitem(self, a, idx)

    # ------------------------------------------------------------ items
    def index(self, s, fr):
        """Evaluated subscript: value, ('slice', ...) or a list for tuples."""
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return Slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return TupIdx([self.index(e, fr) for e in s.elts])
        return self.ev(s, fr)

    def getitem(self, o, i):
        o = o.force() if isinstance(o, Lazy) else o
        if isinstance(o, Arr):
            if isinstance(i, TupIdx):
                return self.arr_get(o, i.items)
            if isinstance(i, PList) and i.tup:
                return self.arr_get(o, list(self.concrete(i)))
            return self.arr_get(o, [i])
        if isinstance(o, PList):
            if isinstance(i, Slice):
                return self.list_slice(o, i.lo, i.hi, i.st)
            if isinstance(i, (int, Num)) and not (isinstance(i, Num) and kindof(i.ty) not in 'ib'):
                return self.list_get(o, pol(i))
            self.raise_('TypeError', 'list index')
        if isinstance(o, Obj):
            c, f = o.cls.lookup('__getitem__')
            if f is not None:
                return self.call(Bound(f, o), [self.idx_value(i)], {})
            self.raise_('TypeError', 'not subscriptable')
        if isinstance(o, DictV):
            v = o.get(i)
            if v is MISSING:
                self.raise_('KeyError', i)
            return v
        if isinstance(o, str):
            if isinstance(i, Slice):
                return o[slice(i.lo, i.hi, i.st)]
            return o[i]
        if isinstance(o, Range):
            if isinstance(i, Slice):
                m, f = self.slice_map(o.n, i.lo, i.hi, i.st)
                return Range(m, lambda j: o.at(f(j)))
            return o.at(self.norm_index(pol(i), o.n))
        if isinstance(o, (Ext, PyClass)) or o is None:
            if isinstance(o, Ext):
                return o                    # type annotations
            self.raise_('TypeError', 'not subscriptable')
        if isinstance(o, Opaque) and '__getitem__' in o.attrs:
            return o.attrs['__getitem__'](self, [self.idx_value(i)], {})
        if isnum(o):
            self.raise_('IndexError', 'scalar')
        raise Unsupported('subscript of %s' % describe(o))

    def idx_value(self, i):
        if isinstance(i, TupIdx):
            if any(isinstance(x, Slice) for x in i.items):
                return i
            return plist(i.items, True)
        return i

    def setitem(self, o, i, v):
        if isinstance(o, Arr):
            from . import npstub
            if isinstance(i, TupIdx):
                i = i.items
            elif isinstance(i, PList) and i.tup:
                i = self.concrete(i)
            else:
                i = [i]
            return npstub.setitem(self, o, i, v)
        if isinstance(o, PList):
            if isinstance(i, Slice):
                if i.st is not None or o.tup:
                    raise Unsupported('slice assignment')
                new = v if isinstance(v, PList) else plist(self.concrete(v))
                n = o.length()
                lo = ZERO if i.lo is None else self.clip(toP(pol(i.lo)), n)
                hi = n if i.hi is None else self.clip(toP(pol(i.hi)), n)
                if not CTX.entails_ge(hi - lo) and not self.branch(ge(hi - lo)):
                    hi = lo
                parts = [self.list_slice(o, None, num(lo, 'int'), None), self.as_list(new),
                         self.list_slice(o, num(hi, 'int'), None, None)]
                self.list_replace(o, self.list_concat(
                    self.list_concat(parts[0], parts[1]), parts[2]))
                return
            return self.list_set(o, pol(i), v)
        if isinstance(o, DictV):
            if isinstance(i, (SStr, Num)):
                raise Unsupported('symbolic key')
            return o.set(i, v)
        if isinstance(o, Obj):
            c, f = o.cls.lookup('__setitem__')
            if f is not None:
                return self.call(Bound(f, o), [self.idx_value(i), v], {})
        raise Unsupported('item assignment to %s' % describe(o))

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=MISSING):
        o = o.force() if isinstance(o, Lazy) else o
        if isinstance(o, Obj):
            c, f = o.cls.lookup(name)
            if isinstance(f, Prop):
                return self.call(f.get, [o], {})
            if name in o.slots:
                v = o.slots[name]
                if isinstance(v, Poison):
                    raise NeedCarry(v.loc)
                if isinstance(v, Lazy):
                    v = v.force()
                return v
            if f is not None:
                return self.bind(f, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            for b in o.cls.mro():
                if isinstance(b, Ext):
                    s = self.stubs.get(b.path + '.' + name)
                    if s is not None:
                        return Native(b.path + '.' + name,
                                      lambda I, a, k, s=s: s(I, [o] + a, k))
            if default is not MISSING:
                return default
            self.raise_('AttributeError', name)
        if isinstance(o, Mod):
            if name in o.env.slots:
                return o.env.slots[name]
            full = o.name + '.' + name
            if os.path.exists(os.path.join(self.root, *full.split('.')) + '.py'):
                return self.module(full)
            self.raise_('AttributeError', name)
        if isinstance(o, PyClass):
            c, f = o.lookup(name)
            if f is None:
                if name == '__name__':
                    return o.name
                self.raise_('AttributeError', name)
            if isinstance(f, ClassM):
                return Bound(f.fn, o)
            if isinstance(f, StaticM):
                return f.fn
            return f
        if isinstance(o, Super):
            c, f = o.cls.lookup(name, o.after)
            if f is None:
                for b in o.cls.mro():
                    if isinstance(b, Ext):
                        s = self.stubs.get(b.path + '.' + name)
                        if s is not None:
                            return Native(name, lambda I, a, k: s(I, [o.obj] + a, k))
                if name in ('__init__', '__init_subclass__'):
                    return Native(name, lambda I, a, k: None)
                self.raise_('AttributeError', name)
            if isinstance(f, Prop):
                return self.call(f.get, [o.obj], {})
            return self.bind(f, o.obj, o.cls)
        if isinstance(o, Ext):
            if o.path + '.' + name in ('numpy.pi', 'math.pi', 'numpy.inf', 'numpy.nan', 'math.inf',
                                       'numpy.newaxis'):
                return {'pi': Num(var('pi', 'r'), 'float'), 'inf': float('inf'),
                        'nan': float('nan'), 'newaxis': None}[name]
            return Ext(o.path + '.' + name)
        if isinstance(o, ExcV):
            if name == 'args':
                return plist(o.eargs, True)
        if isinstance(o, (Arr, Num, int, float, complex, PList, DictV, str, SStr, Range, SetV)) \
                or o is None:
            from . import npstub
            return npstub.method(self, o, name, default)
        if isinstance(o, Opaque):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Computed):
                    return v.f(self)
                return Native(name, v) if callable(v) else v
            if default is not MISSING:
                return default
            raise Unsupported('attribute %s of %s' % (name, o.name))
        if isinstance(o, (PyFunc, Bound, Native)):
            if name == '__name__':
                return getattr(o, 'name', 'f')
            raise Unsupported('function attribute')
        raise Unsupported('attribute %s of %s' % (name, describe(o)))

    def bind(self, f, o, cls):
        if isinstance(f, ClassM):
            return Bound(f.fn, cls)
        if isinstance(f, StaticM):
            return f.fn
        if isinstance(f, (PyFunc, Native)):
            return Bound(f, o)
        return f

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            c, f = o.cls.lookup(name)
            if isinstance(f, Prop):
                if f.set is None:
                    self.raise_('AttributeError', name)
                self.call(f.set, [o, v], {})
                return
            if name in o.slots and self.loops.same_ref(o.slots[name], v):
                return
            if o.ro:
                raise Unsupported('attribute %s of a list element is set' % name)
            jset(o, name, v)
            return
        if isinstance(o, PyClass):
            raise Unsupported('class attribute is set')
        raise Unsupported('attribute of %s is set' % describe(o))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = f.force() if isinstance(f, Lazy) else f
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, PyFunc):
            return self.call_py(f, args, kw)
        if isinstance(f, Native):
            return self.external(f.f, args, kw, f.name)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            if f.path in EXC:
                return ExcV(f, tuple(args))
            s = self.stubs.get(f.path)
            if s is None:
                raise Unsupported('external function %s' % f.path)
            self.ext_used.add(f.path)
            return self.external(s, args, kw, f.path)
        if isinstance(f, Opaque) and f.callf is not None:
            return f.callf(self, list(args), kw)
        if isinstance(f, Obj):
            c, g = f.cls.lookup('__call__')
            if g is not None:
                return self.call(Bound(g, f), args, kw)
        if f is None or isnum(f) or isinstance(f, (str, PList)):
            self.raise_('TypeError', 'not callable')
        raise Unsupported('call of %s' % describe(f))

    def external(self, f, args, kw, name):
        """A contract of the engine; arguments that it does not look at are not
        covered by it."""
        if getattr(f, '__module__', '') in FREE or name in FREE:
            return f(self, list(args), kw)
        a, k = Args(args), Kw(kw)
        r = f(self, a, k)
        left = set(range(list.__len__(a))) - a.used | set(dict.keys(k)) - k.used
        if left:
            raise Unsupported('argument %s of %s' % (', '.join(sorted(map(str, left))), name))
        return r

    def instantiate(self, cls, args, kw):
        q = '%s:%s' % (cls.mod.name, cls.name)
        if q in self.contracts and q not in self.off:
            r = self.contracts[q](self, args, kw)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r
        o = Obj(cls)
        c, f = cls.lookup('__init__')
        if f is not None:
            self.call(Bound(f, o), args, kw)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names) and a.vararg is None:
            self.raise_('TypeError', 'too many arguments for %s' % f.name)
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = plist(args[len(names):], True)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in out:
                    self.raise_('TypeError', 'duplicate argument %s' % k)
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_('TypeError', 'unexpected argument %s for %s' % (k, f.name))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            out.setdefault(n, d)
        for n in kwonly:
            if n not in out:
                if n not in f.kwdefaults:
                    self.raise_('TypeError', 'missing argument %s' % n)
                out[n] = f.kwdefaults[n]
        for n in names:
            if n not in out:
                self.raise_('TypeError', 'missing argument %s of %s' % (n, f.name))
        if a.kwarg is not None:
            out[a.kwarg.arg] = DictV(tuple(extra.items()))
        return out

    def call_py(self, f, args, kw):
        b = self.bind_args(f, args, kw)
        q = f.qual
        h = self.contracts.get(q)
        if h is not None and q not in self.off:
            r = h(self, b)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r
        return self.run_body(f, b)

    def run_body(self, f, b):
        self.executed.add(f.qual)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion too deep')
        fr = Frame(f.env, f.mod, f)
        fr.slots.update(b)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.block(f.node.body, fr)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.index(e.slice, fr))

    def e_Tuple(self, e, fr):
        r = self.e_List(e, fr)
        return PList(r.st, r.pre, True)

    def e_List(self, e, fr):
        if not any(isinstance(x, ast.Starred) for x in e.elts):
            return plist(self.elts(e.elts, fr))
        r = plist([])
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                r = self.list_concat(r, PList(v.st, v.pre) if isinstance(v, PList)
                                     else plist(self.concrete(v)))
            else:
                r = self.list_concat(r, plist([self.ev(x, fr)]))
        return r

    def e_Set(self, e, fr):
        return SetV(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.concrete(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for a, b in self.ev(v, fr).pairs:
                    d.set(a, b)
            else:
                d.set(self.ev(k, fr), self.ev(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(to_str(self, self.ev(v.value, fr)))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return SStr(*parts)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_IfExp(self, e, fr):
        if self.truth(self.ev(e.test, fr)):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_BoolOp(self, e, fr):
        last = None
        for i, x in enumerate(e.values):
            last = self.ev(x, fr)
            if i == len(e.values) - 1:
                return last
            t = self.truth(last)
            if isinstance(e.op, ast.And) and not t:
                return last if not isinstance(last, Num) else False
            if isinstance(e.op, ast.Or) and t:
                return last if not (isinstance(last, Num) and last.ty == 'bool') else True
        return last

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Num) and v.ty in ('bool', 'np.bool_'):
                return num(Not(v.p), 'bool')
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float, complex)):
                return -v
            if isinstance(v, Num):
                return num(-v.p, v.ty)
            return self.binop(ast.Mult(), -1, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            from . import npstub
            return npstub.invert(self, v)
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
           ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.MatMult: 'matmul',
           ast.BitAnd: 'and', ast.BitOr: 'or'}

    def binop(self, op, a, b):
        from . import npstub
        a = self.unlazy(a)
        b = self.unlazy(b)
        n = self.OPN.get(type(op))
        if n is None:
            raise Unsupported('operator')
        if isinstance(a, Obj):
            c, f = a.cls.lookup('__%s__' % n)
            if f is not None:
                return self.call(Bound(f, a), [b], {})
        if isinstance(b, Obj) and not isinstance(a, Arr):
            c, f = b.cls.lookup('__r%s__' % n)
            if f is not None:
                return self.call(Bound(f, b), [a], {})
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Arr) and a.ndim == 0:
                c, f = b.cls.lookup('__r%s__' % n)
                if f is not None:
                    return self.call(Bound(f, b), [self.unbox(a)], {})
            if isinstance(a, Arr):
                raise Unsupported('array with object operand')
            self.raise_('TypeError', 'operand')
        if isinstance(a, PList) or isinstance(b, PList):
            return self.list_op(n, a, b)
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            if n == 'add':
                if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
                    self.raise_('TypeError', 'string concatenation')
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return SStr(a, b)
            if n == 'mod':
                args = [self.plain(x) for x in (b.items if isinstance(b, PList) and b.tup and
                                                b.items is not None else [b])]
                if isinstance(a, str) and all(x is not MISSING for x in args):
                    try:
                        return a % (tuple(args) if isinstance(b, PList) else args[0])
                    except (TypeError, ValueError) as e:
                        self.raise_(type(e).__name__, str(e))
                return SStr(a, b)
            if n == 'mul' and isinstance(a, str) and isinstance(b, int):
                return a * b
            raise Unsupported('string operator')
        if isinstance(a, SetV) and isinstance(b, SetV):
            return npstub.set_op(self, n, a, b)
        return npstub.arith(self, n, a, b)

    def plain(self, v):
        """Python value of a string or an integer that is known."""
        if isinstance(v, (str, bool, int)) or v is None:
            return v
        if isinstance(v, Num) and kindof(v.ty) == 'i' and v.p.cint is not None:
            return v.p.cint
        return MISSING

    def unlazy(self, v):
        return v.force() if isinstance(v, Lazy) else v

    def list_op(self, n, a, b):
        if n == 'add' and isinstance(a, PList) and isinstance(b, PList):
            return self.list_concat(a, b)
        if n == 'mul':
            if not isinstance(a, PList):
                a, b = b, a
            if not isinstance(b, (int, Num)) or kindof(tyof(b)) not in 'ib':
                if isinstance(b, Arr):
                    from . import npstub
                    return npstub.arith(self, n, npstub.asarray(self, a), b)
                self.raise_('TypeError', 'list * %s' % tyof(b))
            m = pol(b)
            items = a.items
            if items is not None and m.cint is not None:
                return plist(items * max(0, m.cint), a.tup)
            if items is not None and len(items) == 1:
                v = items[0]
                return PList(LStore(0, ('sym', m, ((ONE, Templ.const(v)),))), (), a.tup)
            if items is not None and len(items) == 0:
                return plist([], a.tup)
            k = a.length()
            snap = self.snapshot(a)
            return PList(LStore(0, ('sym', m * k, (
                (ONE, Templ(lambda i: self.list_at(snap, T.mod(i, k)))),))), (), a.tup)
        from . import npstub
        if isinstance(a, Arr) or isinstance(b, Arr) or isinstance(a, Num) and \
                a.ty.startswith('np') or isinstance(b, Num) and b.ty.startswith('np'):
            return npstub.arith(self, n, npstub.asarray(self, a), npstub.asarray(self, b))
        self.raise_('TypeError', 'list operator %s' % n)

    def iop(self, op, a, b):
        """Augmented assignment: in-place where Python does it in place."""
        from . import npstub
        a, b = self.unlazy(a), self.unlazy(b)
        n = self.OPN[type(op)]
        if isinstance(a, Obj):
            c, f = a.cls.lookup('__i%s__' % n)
            if f is not None:
                return self.call(Bound(f, a), [b], {})
            return self.binop(op, a, b)
        if isinstance(a, Arr) and a.ndim > 0:
            return npstub.iarith(self, n, a, b)
        if isinstance(a, PList) and not a.tup:
            if n == 'add':
                bl = b if isinstance(b, PList) else None
                if bl is None:
                    seq = self.seq(b)
                    if seq.n.cint is not None:
                        bl = plist([seq.at(const(i)) for i in range(seq.n.cint)])
                    else:
                        bl = symlist(seq.n, seq.at)
                if bl.items is not None:
                    for v in bl.items:
                        self.list_append(a, v)
                else:
                    new = self.list_concat(a, bl)
                    self.list_replace(a, new)
                return a
            if n == 'mul':
                new = self.list_op('mul', self.snapshot(a), b)
                self.list_replace(a, new)
                return a
        return self.binop(op, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            res = v
            left = right
        return True

    def compare(self, op, a, b):
        from . import npstub
        a, b = self.unlazy(a), self.unlazy(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            if isinstance(r, Poly):
                return num(r if isinstance(op, ast.Is) else Not(r), 'bool')
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(r, Poly):
                return num(r if isinstance(op, ast.In) else Not(r), 'bool')
            return r if isinstance(op, ast.In) else not r
        n = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt',
             ast.GtE: 'ge'}[type(op)]
        return npstub.compare(self, n, a, b)

    def identical(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (Ext, Native, PyClass)) and isinstance(b, (Ext, Native, PyClass)):
            from . import npstub
            return npstub.compare(self, 'eq', a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.same(b)
        if isinstance(a, PList) and isinstance(b, PList):
            return a.same(b)
        if isinstance(a, (bool,)) or isinstance(b, bool):
            if isinstance(a, Num) or isinstance(b, Num):
                if tyof(a) == tyof(b) == 'bool':
                    p, q = pol(a), pol(b)
                    return p * q + (ONE - p) * (ONE - q)
                return False
            return a is b
        if isnum(a) and isnum(b):
            if type(a) is int and type(b) is int:
                return a == b
            raise Unsupported('identity of numbers')
        return a is b

    def contains(self, c, v):
        if isinstance(c, (PList, SetV)):
            items = c.items
            if items is None:
                raise Unsupported('membership in a symbolic list')
            tot = ZERO
            import ast as _a
            for x in items:
                r = self.compare(_a.Eq(), v, x)
                if isinstance(r, bool):
                    if r:
                        return True
                elif isinstance(r, Num):
                    tot = Or(tot, r.p)
                else:
                    raise Unsupported('membership')
            return False if not tot.terms else tot
        if isinstance(c, DictV):
            return c.get(v) is not MISSING
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        if isinstance(c, Arr) and isnum(v):
            raise Unsupported('membership in an array')
        raise Unsupported('membership in %s' % describe(c))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.mksuper(fr)
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                for a, b in v.pairs:
                    kw[a] = b
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def mksuper(self, fr):
        f = fr
        while f is not None and (f.fn is None or f.fn.cls is None):
            f = f.parent
        if f is None:
            raise Unsupported('super() outside of a method')
        a = f.fn.node.args
        first = (a.posonlyargs + a.args)[0].arg
        o = f.slots[first]
        return Super(o, o.cls if isinstance(o, Obj) else o, f.fn.cls)

    def comp(self, gens, fr, emit):
        if not gens:
            return emit()
        g = gens[0]

        def run(item):
            self.assign(g.target, item, fr)
            for c in g.ifs:
                if not self.truth(self.ev(c, fr)):
                    return
            self.comp(gens[1:], fr, emit)
        self.iterate(self.ev(g.iter, fr), run)

    def e_ListComp(self, e, fr):
        f2 = Frame(fr, fr.mod)
        f2.fn = None
        out = plist([])
        self.comp(e.generators, f2, lambda: self.list_append(out, self.ev(e.elt, f2)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        l = self.e_ListComp(e, fr)
        return SetV(self.concrete(l))

    def e_DictComp(self, e, fr):
        f2 = Frame(fr, fr.mod)
        d = DictV()
        self.comp(e.generators, f2, lambda: d.set(self.ev(e.key, f2), self.ev(e.value, f2)))
        return d

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')


class Slice:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class TupIdx:
    def __init__(self, items):
        self.items = items


class Super:
    def __init__(self, obj, cls, after):
        self.obj, self.cls, self.after = obj, cls, after


class ExcV:
    def __init__(self, cls, eargs):
        self.cls, self.eargs = cls, eargs


class SetV:
    """Set of concrete or provably distinct elements."""

    def __init__(self, items):
        self.items = list(items)


def to_str(I, v):
    if isinstance(v, str):
        return v
    if isinstance(v, (int, float, complex, bool)) or v is None:
        return str(v)
    if isinstance(v, Num) and kindof(v.ty) == 'i' and v.p.cint is not None:
        return str(v.p.cint)
    return SStr(v)


def builtins_():
    from . import builtins_ as b
    return b


BUILTINS = {}
