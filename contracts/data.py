"""C27, C28: contracts of qopt.data_container, optimization_data, analyser."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from pyvc.loops import same_ref
from contracts.matrix import total

D = 'qopt.data_container:DataContainer'
A = 'qopt.analyser:Analyser.'
R = 'qopt.optimization_data:'
INS = 'any number of runs, iterations (different per run) and cost functions'


def real(*a):
    return fn(*a, sort='r')


def flist(n, f):
    return symlist(n, lambda i: Num(f(i), 'float'))


def container(U, **kw):
    return U.I.call(U.cls(D), [], dict(dict(storage_path='folder'), **kw))


def analyser(U, **kw):
    d = U.input('data', container(U, **kw))
    return U.I.call(U.cls('qopt.analyser:Analyser'), [d], {})


@unit('C28', 'best run', [A + 'n_least_square'], INS)
def _(U):
    for kind in ('arrays', 'numbers', 'lists'):
        CTX.push()
        n, k = U.dim('n_runs'), U.dim('n_f')
        if kind == 'arrays':
            l = U.list_of(n, lambda i: mkarr((k,), lambda j: real('c', i, j), 'f'))
        elif kind == 'lists':
            l = U.list_of(n, lambda i: flist(k, lambda j: real('c', i, j)))
        else:
            l = flist(n, lambda i: real('c', i, ZERO))
            k = ONE
        a = analyser(U, final_costs=l, costs=U.list_of(n, lambda i: plist([])))

        def post(r):
            t = T.temp()
            with CTX.ranges([t], [n]):
                lam = Lam([n], [t], total(k, lambda j: real('c', P(t), j) ** 2))
            U.eq(kind + ': index of the smallest sum of squares', r, P(
                T._mk('g', 'red_argmin', (lam,), 'i')))
        U.run(kind, lambda: U.get(a, 'n_least_square'), post)
        CTX.pop()


@unit('C28', 'absolute costs', [A + 'absolute_costs'], INS)
def _(U):
    for kind in ('arrays', 'lists'):
        CTX.push()
        n, k = U.dim('n_runs'), U.dim('n_f')
        CTX.fbounds['steps'] = (1, var('largest') + 2)
        U.assume(ge(var('largest')))
        m = lambda i: fn('steps', i, sort='i')

        def one(i, t):
            if kind == 'arrays':
                return mkarr((k,), lambda j: real('c', i, t, j), 'f')
            return flist(k, lambda j: real('c', i, t, j))
        costs = U.list_of(n, lambda i: U.list_of(m(i), lambda t: one(i, t)))
        a = analyser(U, costs=costs)

        def post(r):
            r = unl(r)
            U.struct(kind + ': two axes', isinstance(r, Arr) and r.ndim == 2)
            U.eq(kind + ': runs', r.shape[0], n)
            ts = [T.temp() for _ in range(2)]
            i, t = [P(x) for x in ts]
            with CTX.ranges(ts, [n, m(i)]):
                U.eq(kind + ': root of the sum of squares', r.el(i, t), T.sqrt(total(
                    k, lambda j: real('c', i, t, j) ** 2)))
            # the longest run fits
            with CTX.ranges([ts[0]], [n]):
                U.true(kind + ': every run fits', ge(r.shape[1] - m(i)))
            with CTX.ranges(ts, [n, r.shape[1]]):
                CTX.push()
                CTX.assume(ge(t - m(i)))
                e = r.el(i, t)
                U.struct(kind + ': undefined after the end of the run', not (
                    e.fns & {'c'}) and nan_like(e), e.key[:300])
                CTX.pop()
        U.run(kind, lambda: U.call(a, 'absolute_costs'), post)
        CTX.pop()


def nan_like(e):
    """An expression computed from undefined values."""
    return any(v.key.startswith('v:nan') for v in e.free)


def statistics(U, n, kind='arrays'):
    """Statistics of n runs: times of m(i) calls of k functions."""
    CTX.fbounds['calls'] = (1, var('largest') + 2)
    U.assume(ge(var('largest')))
    m = lambda i: fn('calls', i, sort='i')
    k = U.dim('n_f')

    def one(i):
        s = U.I.call(U.cls('qopt.performance_statistics:PerformanceStatistics'), [], {})
        U.I.setattr(s, 'cost_func_eval_times', U.list_of(m(i), lambda t: flist(
            k, lambda j: real('tc', i, t, j))))
        U.I.setattr(s, 'grad_func_eval_times', U.list_of(m(i), lambda t: flist(
            k, lambda j: real('tg', i, t, j))))
        U.I.setattr(s, 'start_t_opt', Num(real('start', i), 'float'))
        U.I.setattr(s, 'end_t_opt', Num(real('end', i), 'float'))
        return s
    return U.list_of(n, one), m, k


@unit('C28', 'times', [A + x for x in (
    'integral_cost_fkt_times', 'integral_grad_fkt_times', 'opt_times', 'total_cost_fkt_time',
    'total_grad_fkt_time', 'time_share_cost_fkt', 'time_share_grad_fkt')], INS)
def _(U):
    n = U.dim('n_runs')
    st, m, k = statistics(U, n)
    a = analyser(U, optimization_stats=st)
    q = U.index('run', n)
    for name, f in (('integral_cost_fkt_times', 'tc'), ('integral_grad_fkt_times', 'tg')):
        for how in ('given', 'first'):
            r = q if how == 'given' else ZERO
            U.run(name, lambda: U.call(a, name, *([num(q, 'int')] if how == 'given' else [])),
                  lambda v: U.arr_eq(name + ': sum of the calls per function', v, (k,), lambda j: total(
                      m(r), lambda t: real(f, r, t, j))))
    U.run('opt_times', lambda: U.call(a, 'opt_times'), lambda v: U.arr_eq(
        'duration of every run', v, (n,), lambda i: real('end', i) - real('start', i)))
    dur = total(n, lambda i: real('end', i) - real('start', i))
    for name, share, f in (('total_cost_fkt_time', 'time_share_cost_fkt', 'tc'),
                           ('total_grad_fkt_time', 'time_share_grad_fkt', 'tg')):
        s = total(n, lambda i: total(m(i), lambda t: total(k, lambda j: real(f, i, t, j))))
        U.run(name, lambda: U.call(a, name), lambda v: U.eq(
            name + ': sum over functions, calls and runs', v, s))
        U.run(share, lambda: U.call(a, share), lambda v: U.eq(
            share + ': ratio to the total duration', v, s * T.inv(dur)))


# ------------------------------------------------------------------ equality
def same_value(U, nm, a, b, seen=None):
    """Equal content, element by element."""
    a, b = unl(a), unl(b)
    seen = {} if seen is None else seen
    if a is b:
        return
    if isinstance(a, (Obj, DictV)):
        if id(a) in seen:
            return U.struct(nm, seen[id(a)] is b, 'structure')
        seen[id(a)] = b
    if isinstance(a, Arr) and isinstance(b, Arr):
        U.struct(nm + ': dtype', a.dtype == b.dtype)
        return U.arr_eq(nm, b, a.shape, a.el)
    if isinstance(a, PList) and isinstance(b, PList) and a.tup == b.tup:
        if a.items is not None and b.items is not None:
            U.struct(nm + ': length', len(a.items) == len(b.items))
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                same_value(U, '%s[%d]' % (nm, i), x, y, seen)
            return
        n = a.length().cint if a.length().cint is not None else b.length().cint
        if n is not None:
            U.eq(nm + ': length', a.length(), const(n))
            U.eq(nm + ': length', b.length(), const(n))
            for i in range(n):
                same_value(U, '%s[%d]' % (nm, i), U.I.list_at(a, const(i)), U.I.list_at(b, const(i)),
                           seen)
            return
        return U.list_eq(nm, b, a.length(), lambda e, i: same_value(
            U, nm + ': element', U.I.list_at(a, i), e, dict(seen)))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls:
        U.struct(nm + ': attributes', set(a.slots) == set(b.slots))
        for k in sorted(set(a.slots) & set(b.slots)):
            same_value(U, '%s.%s' % (nm, k), a.slots[k], b.slots[k], seen)
        return
    if isinstance(a, DictV) and isinstance(b, DictV):
        ka, kb = dict(a.pairs), dict(b.pairs)
        U.struct(nm + ': keys', set(ka) == set(kb))
        for k in sorted(set(ka) & set(kb), key=str):
            same_value(U, '%s[%s]' % (nm, k), ka[k], kb[k], seen)
        return
    if isnum(a) and isnum(b) and not (isinstance(a, bool) or isinstance(b, bool)):
        return U.eq(nm, a, b)
    U.struct(nm, same_ref(a, b), '%s and %s' % (describe(a), describe(b)))


# ------------------------------------------------------------------ results
RES = ('final_cost', 'indices', 'final_parameters', 'final_grad_norm', 'init_parameters', 'num_iter',
       'termination_reason', 'status', 'optimization_stats', 'optimizer', 'optim_summary')
FIELDS = ('final_costs', 'indices', 'init_parameters', 'final_parameters', 'costs', 'parameters',
          'status', 'optimization_statistics', 'storage_path', 'file_name', 'append_time_to_path')


def summary(U, *pre):
    n, t, k, f = U.dim('n_it'), U.dim('n_t'), U.dim('n_par'), U.dim('n_f')
    mk = lambda nm, sh: U.list_of(n, lambda i: mkarr(sh, lambda *j: real(nm, *(pre + (i,) + j)), 'f'))
    return U.I.call(U.cls(R + 'OptimizationSummary'), [], dict(
        indices=plist(['a', 'b']), iter_num=num(n, 'int'), costs=mk('sc', (f,)),
        gradients=mk('sg', (t, f, k)), parameters=mk('sp', (t, k))))


def stats_of(U, *pre):
    s = U.I.call(U.cls('qopt.performance_statistics:PerformanceStatistics'), [], {})
    m, f = U.dim('n_calls'), U.dim('n_f')
    for a in ('cost', 'grad'):
        U.I.setattr(s, a + '_func_eval_times', U.list_of(m, lambda i: flist(
            f, lambda j: real('t' + a, *(pre + (i, j))))))
    U.I.setattr(s, 'indices', plist(['a', 'b']))
    U.I.setattr(s, 'start_t_opt', Num(real('start', *pre), 'float'))
    U.I.setattr(s, 'end_t_opt', Num(real('end', *pre), 'float'))
    return s


def result(U, kind, labels=('a', 'b'), pre=ZERO):
    t, k, f = U.dim('n_t'), U.dim('n_par'), U.dim('n_f')
    scalar = kind == 'scalar'
    return U.I.call(U.cls(R + 'OptimizationResult'), [], dict(
        final_cost=Num(real('fc', pre), 'float') if scalar else mkarr(
            (f,), lambda j: real('fc', pre, j), 'f'),
        indices=plist(list(labels)), final_parameters=mkarr(
            (t, k), lambda *i: real('fp', pre, *i), 'f'),
        final_grad_norm=Num(real('gn', pre), 'float'),
        init_parameters=None if scalar else mkarr((t, k), lambda *i: real('ip', pre, *i), 'f'),
        num_iter=Num(fn('ni', pre, sort='i'), 'int'), termination_reason=SStr('why', pre),
        status=Num(fn('st', pre, sort='i'), 'int'),
        optimizer=None, optimization_stats=None if scalar else stats_of(U, pre),
        optim_summary=None if kind == 'no steps' else summary(U, pre)))


@unit('C27', 'result and dictionary', [R + 'OptimizationResult.' + x for x in (
    '__init__', 'to_dict', 'from_dict')], 'any content of a result')
def _(U):
    for kind in ('full', 'no steps', 'scalar'):
        r = U.input('result', result(U, kind))

        def post(v):
            d, n = v
            U.struct(kind + ': class', n.cls is r.cls)
            for k in RES:
                U.struct('%s: %s kept' % (kind, k), same_ref(unl(U.get(n, k)), unl(U.get(r, k))))
        U.run(kind, lambda: (lambda d: (d, U.call(r.cls, 'from_dict', d)))(U.call(r, 'to_dict')), post)
    n = U.dim('n_it')
    kw = dict(indices=plist(['a']), iter_num=num(n, 'int'), costs=flist(n, lambda i: real('c', i)),
              gradients=flist(n, lambda i: real('g', i)), parameters=flist(n, lambda i: real('p', i)))
    U.run('summary', lambda: U.I.call(U.cls(R + 'OptimizationSummary'), [], kw), lambda s: [
        U.struct('summary: ' + k, same_ref(unl(U.get(s, k)), kw[k])) for k in kw])
    mk = lambda: [U.I.call(U.cls(R + 'OptimizationSummary'), [], {}) for _ in range(2)]

    def sep(v):
        for k in ('costs', 'gradients', 'parameters'):
            a, b = [unl(U.get(s, k)) for s in v]
            U.eq('empty summary: ' + k, U.length(a), ZERO)
            U.struct('summaries do not share ' + k, a.st is not b.st)
    U.run('empty summaries', mk, sep)


LISTS = {'final_costs': 'final_cost', 'init_parameters': 'init_parameters',
         'final_parameters': 'final_parameters', 'status': 'status',
         'optimization_statistics': 'optimization_stats'}


def filled(U, n, labels=('a', 'b')):
    """Container with n results."""
    t, k, f = U.dim('n_t'), U.dim('n_par'), U.dim('n_f')
    return container(
        U, indices=plist(list(labels)), file_name='name',
        final_costs=U.list_of(n, lambda i: mkarr((f,), lambda j: real('hc', i, j), 'f')),
        init_parameters=U.list_of(n, lambda i: mkarr((t, k), lambda *j: real('hi', i, *j), 'f')),
        final_parameters=U.list_of(n, lambda i: mkarr((t, k), lambda *j: real('hp', i, *j), 'f')),
        costs=U.list_of(n, lambda i: U.list_of(fn('steps', i, sort='i'), lambda q: mkarr(
            (f,), lambda j: real('hs', i, q, j), 'f'))),
        parameters=U.list_of(n, lambda i: U.list_of(fn('steps', i, sort='i'), lambda q: mkarr(
            (t, k), lambda *j: real('hq', i, q, *j), 'f'))),
        status=symlist(n, lambda i: Num(fn('hst', i, sort='i'), 'int')),
        optimization_stats=U.list_of(n, lambda i: stats_of(U, i)))


@unit('C27', 'appending', [D + x for x in ('.__init__', '.append_optim_result', '._append',
                                           '.__len__')],
      'any number of results before, any content of the results')
def _(U):
    CTX.fbounds['steps'] = (0, var('largest') + 2)
    U.assume(ge(var('largest')))
    for kind in ('full', 'no steps', 'scalar'):
        for before in ('none', 'some'):
            CTX.push()
            n = ZERO if before == 'none' else U.dim('n_runs')
            nm = '%s, %s before' % (kind, before)
            r = U.input('result', result(U, kind))
            r2 = U.input('second result', result(U, 'full', pre=ONE))

            def go():
                c = container(U) if before == 'none' else filled(U, n)
                old = {k: unl(U.get(c, k)) for k in FIELDS}
                old = {k: U.I.snapshot(v) if isinstance(v, PList) else v for k, v in old.items()}
                U.call(c, 'append_optim_result', r)
                U.call(c, 'append_optim_result', r2)
                return c, old

            def post(v):
                c, old = v
                U.eq(nm + ': length', U.I.call(U.I.get('qopt.data_container:DataContainer.__len__'),
                                               [c], {}), n + 2)
                for k in list(LISTS) + ['costs', 'parameters']:
                    l = unl(U.get(c, k))
                    U.eq('%s: length of %s' % (nm, k), U.length(l), n + 2)
                    for q, x in enumerate((r, r2)):
                        e = U.item(l, n + q)
                        name = '%s: %s of result %d' % (nm, k, q)
                        if k in LISTS:
                            same_value(U, name, U.get(x, LISTS[k]), e)
                        elif unl(U.get(x, 'optim_summary')) is None:
                            U.eq(name, U.length(e), ZERO)
                        else:
                            same_value(U, name, U.get(U.get(x, 'optim_summary'), k), e)
                    if before == 'some':
                        t = T.temp()
                        with CTX.ranges([t], [n]):
                            same_value(U, '%s: earlier %s' % (nm, k), U.I.list_at(old[k], P(t)),
                                       U.item(l, P(t)))
                same_value(U, nm + ': labels', U.get(r, 'indices'), U.get(c, 'indices'))
            U.run(nm, go, post)
            CTX.pop()
    for labels in (('a',), ('a', 'c'), ('b', 'a'), ('a', 'b', 'c')):
        for n in (ONE, U.dim('n_runs')):
            c = U.input('container', filled(U, n))
            r = U.input('result', result(U, 'full', labels))
            U.must_raise('labels %s with %s results' % (' '.join(labels), n.key), lambda: U.call(
                c, 'append_optim_result', r))


@unit('C27', 'deep copy', [D + '.__deepcopy__', D + '.__init__'], 'any number of results')
def _(U):
    CTX.fbounds['steps'] = (0, var('largest') + 2)
    U.assume(ge(var('largest')))
    for n in (ZERO, U.dim('n_runs')):
        c = U.input('container', container(U) if n is ZERO else filled(U, n))
        nm = 'empty' if n is ZERO else 'with results'

        def post(d):
            U.struct(nm + ': class', d.cls is c.cls)
            for k in FIELDS:
                same_value(U, '%s: %s' % (nm, k), U.get(c, k), U.get(d, k))
            U.fresh(nm + ': nothing shared', d)
        U.run(nm, lambda: U.I.call(U.I.stubs['copy.deepcopy'] and Native(
            'deepcopy', U.I.stubs['copy.deepcopy']), [c], {}), post)


class Disk:
    """Files: what was written is there once the file is closed."""

    def __init__(self, U):
        self.U = U
        U.I.stubs = dict(U.I.stubs)
        from pyvc import interp
        interp.BUILTINS['open'] = Native('open', self.open)
        U.I.stubs['pickle.dump'] = self.dump
        U.I.stubs['pickle.load'] = self.load
        self.files = Cell()

    def copy(self, v):
        return self.U.I.stubs['copy.deepcopy'](self.U.I, [v], {})

    def open(self, I, a, kw):
        name = a[0] if a else kw['file']
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        f = Opaque('file', {})
        f.name_, f.mode, f.cell = name, mode, Cell()
        if mode == 'rb' and name not in self.files.slots:
            I.raise_('FileNotFoundError', name)

        def close(I, a, kw):
            if f.mode == 'wb' and 'data' in f.cell.slots:
                jset(self.files, name, f.cell.slots['data'])
        f.attrs.update(close=close, __exit__=close, __enter__=lambda I, a, kw: f)
        if mode == 'wb':
            jset(self.files, name, None)
        elif mode != 'rb':
            raise Unsupported('mode of a file')
        return f

    def dump(self, I, a, kw):
        if a[1].mode != 'wb':
            I.raise_('ValueError', 'not writable')
        jset(a[1].cell, 'data', self.copy(a[0]))

    def load(self, I, a, kw):
        f = a[0]
        if f.mode != 'rb':
            I.raise_('ValueError', 'not readable')
        d = self.files.slots.get(f.name_)
        if d is None:
            I.raise_('ValueError', 'empty file')
        return self.copy(d)


@unit('C27', 'files', [D + x for x in ('.to_pickle', '.from_pickle', '._to_dict', '._from_dict',
                                       '.__init__')],
      'any number of results; pickle stores a copy')
def _(U):
    CTX.fbounds['steps'] = (0, var('largest') + 2)
    U.assume(ge(var('largest')))
    Disk(U)
    for n in (ZERO, U.dim('n_runs')):
        for name, where in (('file', 'file'), (None, 'folder/name')):
            c = U.input('container', container(U, file_name='name') if n is ZERO else filled(U, n))
            nm = '%s results, file name %s' % (n.key or '0', name)

            def go():
                U.call(c, 'to_pickle', *([] if name is None else [name]))
                return U.call(U.cls(D), 'from_pickle', where)

            def post(d):
                U.struct(nm + ': class', d.cls is c.cls)
                for k in FIELDS:
                    same_value(U, '%s: %s' % (nm, k), U.get(c, k), U.get(d, k))
                U.fresh(nm + ': nothing shared', d)
            U.run(nm, go, post)
