"""Python builtins of the interpreted programs."""
from .values import *
from . import terms as T

BUILTINS = {}


def b(name):
    def deco(f):
        BUILTINS[name] = Native(name, f)
        return f
    return deco


NPNAME = {'np.bool_': 'numpy.bool_', 'np.int64': 'numpy.int64', 'np.float64': 'numpy.float64',
          'np.complex128': 'numpy.complex128'}


def type_of(I, v):
    from .interp import SetV, ExcV, SStr
    v = I.unlazy(v)
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Arr):
        return Ext('numpy.ndarray')
    if isinstance(v, Num):
        return Ext(NPNAME.get(v.ty, v.ty))
    if isinstance(v, (bool, int, float, complex)):
        return Ext(type(v).__name__)
    if isinstance(v, (str, SStr)):
        return Ext('str')
    if v is None:
        return Ext('NoneType')
    if isinstance(v, PList):
        return Ext('tuple' if v.tup else 'list')
    if isinstance(v, DictV):
        return Ext('dict')
    if isinstance(v, SetV):
        return Ext('set')
    if isinstance(v, (PyFunc, Bound, Native)):
        return Ext('function')
    if isinstance(v, Range):
        return Ext('range')
    if isinstance(v, PyClass):
        return Ext('type')
    if isinstance(v, ExcV):
        return v.cls
    if isinstance(v, Opaque) and 'type' in v.attrs:
        return v.attrs['type']
    raise Unsupported('type of %s' % describe(v))


def as_class(x):
    if isinstance(x, Native):
        return Ext(x.name)
    return x


ABC = {'Sequence': ('list', 'tuple', 'str', 'range'), 'Iterable': ('list', 'tuple', 'str', 'range',
       'dict', 'set', 'numpy.ndarray'), 'Callable': ('function',), 'Mapping': ('dict',),
       'Number': ('int', 'float', 'complex', 'bool', 'numpy.int64', 'numpy.float64',
                  'numpy.complex128'),
       'numpy.generic': tuple(NPNAME.values()), 'numpy.number': tuple(NPNAME.values())[1:],
       'numpy.integer': ('numpy.int64',), 'numpy.floating': ('numpy.float64',),
       'numpy.complexfloating': ('numpy.complex128',), 'numpy.inexact':
       ('numpy.float64', 'numpy.complex128'),
       'Integral': ('int', 'bool', 'numpy.int64'), 'Real': ('int', 'float', 'bool', 'numpy.int64',
                                                            'numpy.float64')}
PARENT = {'bool': 'int', 'numpy.float64': 'float', 'numpy.complex128': 'complex'}
ALIAS = {'numpy.ndarray': 'numpy.ndarray', 'numpy.float': 'float', 'numpy.double': 'numpy.float64',
         'numpy.bool': 'numpy.bool_', 'numpy.int_': 'numpy.int64',
         'numpy.float_': 'numpy.float64'}


def issub(I, c, d):
    d = as_class(d)
    c = as_class(c)
    if isinstance(d, PList):
        return any(issub(I, c, x) for x in I.concrete(d))
    if isinstance(d, Ext):
        n = ALIAS.get(d.path, d.path)
        if n == 'object':
            return True
        if isinstance(c, Ext):
            m = c.path
            while m is not None:
                if m == n:
                    return True
                short = n.split('.')[-1] if not n.startswith('numpy.') else n
                if short in ABC and m in ABC[short]:
                    return True
                m = PARENT.get(m)
            return I.subclass(c, d)
        if isinstance(c, PyClass):
            return I.subclass(c, d)
    if isinstance(d, Opaque):
        return c is d
    return I.subclass(c, d)


@b('isinstance')
def _(I, a, k):
    t = type_of(I, a[0])
    return issub(I, t, a[1])


@b('issubclass')
def _(I, a, k):
    return issub(I, a[0], a[1])


@b('callable')
def _(I, a, k):
    v = a[0]
    if isinstance(v, Obj):
        return v.cls.lookup('__call__')[1] is not None
    if isinstance(v, Opaque):
        return v.callf is not None
    return isinstance(v, (PyFunc, Bound, Native, PyClass, Ext))


@b('type')
def _(I, a, k):
    if len(a) != 1:
        raise Unsupported('type()')
    return type_of(I, a[0])


@b('len')
def _(I, a, k):
    v = I.unlazy(a[0])
    if isinstance(v, str):
        return len(v)
    if isinstance(v, PList):
        return num(v.length(), 'int')
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.raise_('TypeError', 'len of unsized object')
        return num(v.shape[0], 'int')
    if isinstance(v, Obj):
        c, f = v.cls.lookup('__len__')
        if f is not None:
            return I.call(Bound(f, v), [], {})
        I.raise_('TypeError', 'no len')
    if v is None or isnum(v):
        I.raise_('TypeError', 'no len')
    return num(I.seq(v).n, 'int')


def is_int(v):
    return isinstance(v, int) or isinstance(v, Num) and kindof(v.ty) in 'bi'


@b('range')
def _(I, a, k):
    for x in a:
        if not is_int(I.unbox(x)):
            I.raise_('TypeError', 'range')
    ps = [pol(x) for x in a]
    lo, hi = (ZERO, ps[0]) if len(ps) == 1 else (ps[0], ps[1])
    st = ps[2].cint if len(ps) > 2 else 1
    if st is None:
        if not CTX.entails_ge(ps[2] - 1):
            raise Unsupported('range step')
        n = T.fdiv(hi - lo + ps[2] - 1, ps[2])
    elif st == 1:
        n = hi - lo
    elif st == -1:
        n = lo - hi
    elif st > 1:
        n = T.fdiv(hi - lo + st - 1, const(st))
    else:
        raise Unsupported('range step')
    if n.cint is not None:
        n = const(max(0, n.cint))
    elif not CTX.entails_ge(n) and not I.branch(ge(n)):
        n = ZERO
    s = ps[2] if len(ps) > 2 else ONE
    return Range(n, lambda i: num(lo + i * s, 'int'))


@b('enumerate')
def _(I, a, k):
    s = I.seq(a[0])
    st = pol(a[1] if len(a) > 1 else k.get('start', 0))
    return Range(s.n, lambda i: plist([num(i + st, 'int'), s.at(i)], True))


@b('zip')
def _(I, a, k):
    ss = [I.seq(x) for x in a]
    if not ss:
        return plist([])
    n = ss[0].n
    for s in ss[1:]:
        if s.n == n or CTX.entails_eq(s.n, n):
            if s.n.cint is not None:
                n = s.n
            continue
        if I.branch(ge(s.n - n)):
            continue
        n = s.n
    return Range(n, lambda i: plist([s.at(i) for s in ss], True))


@b('reversed')
def _(I, a, k):
    s = I.seq(a[0])
    return Range(s.n, lambda i: s.at(s.n - 1 - i))


@b('map')
def _(I, a, k):
    f = a[0]
    ss = [I.seq(x) for x in a[1:]]
    out = plist([])
    I.iterate(Range(ss[0].n, lambda i: i), lambda i: I.list_append(
        out, I.call(f, [s.at(toP(i)) for s in ss], {})))
    return out


@b('filter')
def _(I, a, k):
    return plist([x for x in I.concrete(a[1]) if I.truth(I.call(a[0], [x], {}))])


@b('list')
def _(I, a, k):
    if not a:
        return plist([])
    v = a[0]
    if isinstance(v, PList):
        c = I.snapshot(v)
        return PList(c.st, c.pre, False)
    s = I.seq(v)
    if s.n.cint is not None and s.n.cint <= 70:
        return plist([s.at(const(i)) for i in range(s.n.cint)])
    if isinstance(v, Arr) and v.ndim == 1:
        v = v.copy()
        return symlist(v.shape[0], lambda i: num(v.el(i), v.ty()))
    return symlist(s.n, s.at)


@b('tuple')
def _(I, a, k):
    r = BUILTINS['list'].f(I, a, k)
    return PList(r.st, r.pre, True)


@b('set')
def _(I, a, k):
    from .interp import SetV
    if not a:
        return SetV([])
    out = []
    for x in I.concrete(a[0]):
        s = SetV(out)
        r = I.contains(s, x)
        if r is True or not isinstance(r, bool) and I.branch(r):
            continue
        out.append(x)
    return SetV(out)


@b('dict')
def _(I, a, k):
    d = DictV(a[0].pairs if a and isinstance(a[0], DictV) else ())
    if a and not isinstance(a[0], DictV):
        for x in I.concrete(a[0]):
            p, q = I.concrete(x)
            d.set(p, q)
    for x, y in k.items():
        d.set(x, y)
    return d


def sorted_(I, a, k):
    items = I.concrete(a[0])
    key, rev = k.get('key'), k.get('reverse', False)
    if not isinstance(rev, bool):
        raise Unsupported('sorted: reverse')
    if key is not None or rev:
        vals = [x if key is None else I.call(key, [x], {}) for x in items]
        if all(isnum(x) and pol(x).const is not None for x in vals):
            vals = [pol(x).const for x in vals]
        elif not all(isinstance(x, str) for x in vals):
            if len(items) <= 1:
                return plist(items)
            raise Unsupported('sorting of symbolic values')
        o = sorted(range(len(items)), key=lambda i: vals[i], reverse=rev)
        return plist([items[i] for i in o])
    if all(isnum(x) and pol(x).const is not None for x in items):
        return plist(sorted(items, key=lambda x: pol(x).const))
    if all(isinstance(x, str) for x in items):
        return plist(sorted(items))
    if len(items) <= 1:
        return plist(items)
    raise Unsupported('sorting of symbolic values')


BUILTINS['sorted'] = Native('sorted', sorted_)


@b('sum')
def _(I, a, k):
    import ast
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    v = a[0]
    s = I.seq(v)
    if s.n.cint is not None and s.n.cint <= 70:
        for i in range(s.n.cint):
            acc = I.binop(ast.Add(), acc, s.at(const(i)))
        return acc
    fr = Frame(None, Mod('<sum>'))
    fr.slots['acc'] = acc

    def run(x):
        jset(fr, 'acc', I.binop(ast.Add(), I.lookup('acc', fr), x))
    I.iterate(v, run)
    return I.lookup('acc', fr)


def extreme(name):
    def f(I, a, k):
        from . import npstub
        if k:
            raise Unsupported(name + ' with keywords')
        if len(a) == 1:
            s = I.seq(a[0])
            if s.n.cint is None:
                return npstub.STUBS['numpy.' + name](I, a, {})
            vals = [s.at(const(i)) for i in range(s.n.cint)]
            if not vals:
                I.raise_('ValueError', 'empty')
        else:
            vals = a
        r = vals[0]
        for v in vals[1:]:
            c = npstub.compare(I, 'gt' if name == 'max' else 'lt', v, r)
            if isinstance(c, bool):
                r = v if c else r
            elif npstub.badfloat(v) or npstub.badfloat(r):
                raise Unsupported('max with inf')
            else:
                r = num(ite(pol(c), pol(v), pol(r)),
                        npstub.sty(npstub.promote(npstub.kind_of(r), npstub.kind_of(v)),
                                   npstub.is_np(r) or npstub.is_np(v)))
        return r
    return f


BUILTINS['max'] = Native('max', extreme('max'))
BUILTINS['min'] = Native('min', extreme('min'))


@b('abs')
def _(I, a, k):
    from . import npstub
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    r = npstub.STUBS['numpy.abs'](I, [v], {})
    return r


@b('round')
def _(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return round(v, *a[1:])
    return num(gfun('round', pol(v), sort='i'), 'int')


@b('any')
def _(I, a, k):
    s = I.seq(a[0])
    if s.n.cint is None:
        from . import npstub
        return npstub.STUBS['numpy.any'](I, [a[0]], {})
    for i in range(s.n.cint):
        if I.truth(s.at(const(i))):
            return True
    return False


@b('all')
def _(I, a, k):
    s = I.seq(a[0])
    if s.n.cint is None:
        from . import npstub
        r = npstub.asarray(I, a[0])
        return num(npstub.forall(I, r), 'bool')
    for i in range(s.n.cint):
        if not I.truth(s.at(const(i))):
            return False
    return True


@b('int')
def _(I, a, k):
    from . import npstub
    v = I.unbox(a[0]) if a else 0
    if isinstance(v, (int, float)) and not npstub.badfloat(v):
        return int(v)
    if isinstance(v, Num):
        if kindof(v.ty) == 'c':
            I.raise_('TypeError', 'int(complex)')
        return num(npstub.toint(v.p), 'int')
    if isinstance(v, Arr):
        return num(npstub.toint(pol(npstub.item(I, v))), 'int')
    if isinstance(v, str):
        return int(v)
    if v is None or isinstance(v, (Obj, PList)):
        I.raise_('TypeError', 'int()')
    raise Unsupported('int()')


def tofloat(kind):
    def f(I, a, k):
        from . import npstub
        v = I.unbox(a[0]) if a else 0
        if isinstance(v, Arr):
            v = npstub.item(I, v)
        if isinstance(v, str):
            return float(v)
        if npstub.badfloat(v):
            return v
        if isnum(v):
            kk = npstub.kind_of(v)
            if kind == 'f' and kk == 'c':
                I.raise_('TypeError', 'float(complex)')
            p = pol(v)
            if len(a) > 1:
                p = p + T.I * pol(a[1])
            return num(p, {'f': 'float', 'c': 'complex'}[kind])
        I.raise_('TypeError', 'float()')
    return f


BUILTINS['float'] = Native('float', tofloat('f'))
BUILTINS['complex'] = Native('complex', tofloat('c'))


@b('bool')
def _(I, a, k):
    v = a[0] if a else False
    if isinstance(v, Num) and kindof(v.ty) == 'b':
        return num(v.p, 'bool')
    return I.truth(v)


@b('str')
def _(I, a, k):
    from .interp import to_str
    return to_str(I, a[0]) if a else ''


@b('repr')
def _(I, a, k):
    return SStr('repr', a[0])


@b('print')
def _(I, a, k):
    return None


@b('id')
def _(I, a, k):
    raise Unsupported('id')


@b('hasattr')
def _(I, a, k):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if I.subclass(e.cls, Ext('AttributeError')):
            return False
        raise


@b('getattr')
def _(I, a, k):
    if len(a) > 2:
        default = a[2]
        try:
            return I.getattr(a[0], a[1])
        except PyRaise as e:
            if I.subclass(e.cls, Ext('AttributeError')):
                return default
            raise
    return I.getattr(a[0], a[1])


@b('setattr')
def _(I, a, k):
    I.setattr(a[0], a[1], a[2])


@b('pow')
def _(I, a, k):
    import ast
    return I.binop(ast.Pow(), a[0], a[1])


@b('divmod')
def _(I, a, k):
    import ast
    return plist([I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1])], True)


@b('iter')
def _(I, a, k):
    return I.seq(a[0])


@b('super')
def _(I, a, k):
    from .interp import Super
    return Super(a[1], a[1].cls, a[0])


@b('open')
def _(I, a, k):
    raise Unsupported('open')


for _n in ('property', 'classmethod', 'staticmethod'):
    BUILTINS[_n] = Native(_n, lambda I, a, k: None)
BUILTINS['property'] = Native('property', lambda I, a, k: Prop(*a[:2]))
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['NotImplemented'] = Opaque('NotImplemented')
BUILTINS['__debug__'] = True
