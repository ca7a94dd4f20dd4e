"""C30: contracts of qopt.parallel over any optimiser."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from pyvc.loops import same_ref
from contracts.data import real, container
from contracts.simulate import lam, lamf, lamfun

# Environment: an optimiser whose result depends on the pulse and on everything
# it remembers, and which changes what it remembers.
GHOST = '''
from qopt.optimization_data import OptimizationResult, OptimizationSummary


class Optimizer:
    def __init__(self, evaluate, count, memory, labels):
        self.evaluate = evaluate
        self.count = count
        self.memory = memory
        self.history = []
        self.labels = labels

    def run_optimization(self, initial_control_amplitudes, verbose=0):
        self.count += 1
        self.history.append(initial_control_amplitudes)
        self.memory[0] = self.memory[0] + 1
        cost, final = self.evaluate(initial_control_amplitudes, self.memory)
        initial_control_amplitudes[:] = 0
        return OptimizationResult(
            final_cost=cost, indices=self.labels, final_parameters=final,
            init_parameters=initial_control_amplitudes, status=self.count,
            num_iter=len(self.history), optim_summary=OptimizationSummary(
                costs=[cost], parameters=[final]))
'''
P_ = 'qopt.parallel:'


@unit('C30', 'parallel runs', [P_ + 'run_optimization_parallel', P_ + 'run_optimization'] + [
    'qopt.data_container:DataContainer.' + x for x in ('append_optim_result', '_append')],
    'any number of initial pulses, any optimiser with a state of its own, any number of processes')
def _(U):
    U.source('ghost', GHOST)
    for kind in ('list', 'array', 'one', 'none', 'tuple', 'two'):
        for proc in (None, 'n'):
            CTX.push()
            n = U.dim('n_pulses', 2) if kind in ('list', 'array', 'tuple') else const(
                {'one': 1, 'none': 0, 'two': 2}[kind])
            t, k, f, m = U.dim('n_t'), U.dim('n_par'), U.dim('n_f'), U.dim('n_mem')
            nm = '%s, processes %s' % (kind, proc)
            p = lambda i, a, b: real('p', i, a, b)
            if kind == 'array':
                pulses = mkarr((n, t, k), p, 'f')
            elif n.cint is not None:
                pulses = plist([mkarr((t, k), lambda a, b, i=i: p(const(i), a, b), 'f')
                                for i in range(n.cint)])
            else:
                pulses = U.list_of(n, lambda i: mkarr((t, k), lambda a, b: p(i, a, b), 'f'))
                pulses.tup = kind == 'tuple'
            pulses = U.input('initial pulses', pulses)

            def evaluate(I, a, kw):
                ls = [lam(a[0]), lam(a[1])]
                return plist([mkarr((f,), lambda j: lamfun('cost', 'r', ls, j), 'f'),
                              mkarr((t, k), lambda *j: lamfun('final', 'r', ls, *j), 'f')], True)
            opt = U.input('optimiser', U.I.call(U.cls('ghost:Optimizer'), [
                Native('evaluate', evaluate), num(var('count'), 'int'),
                U.arr('mem', m, dtype='f'), plist(['a', 'b'])], {}))
            kw = {} if proc is None else dict(processes=num(U.dim('n_proc'), 'int'))

            def ls(i):
                mem = lamf(lambda j: real('mem', j) + eq0(j), m)
                return [lamf(lambda a, b: p(i, a, b), t, k), mem]

            def post(d):
                U.struct(nm + ': a container', d.cls.name == 'DataContainer')
                for name, sh, el in (('final_costs', (f,), lambda i, *j: lamfun(
                        'cost', 'r', ls(i), *j)), ('final_parameters', (t, k), lambda i, *j: lamfun(
                            'final', 'r', ls(i), *j))):
                    U.list_eq('%s: %s' % (nm, name), U.get(d, name), n, lambda e, i: U.arr_eq(
                        '%s: %s of the pulse alone' % (nm, name), e, sh, lambda *j: el(i, *j)))
                U.list_eq(nm + ': status', U.get(d, 'status'), n, lambda e, i: U.eq(
                    nm + ': status of the pulse alone', e, var('count') + 1))
                for name in ('costs', 'parameters'):
                    U.list_eq('%s: saved %s' % (nm, name), U.get(d, name), n, lambda e, i: U.eq(
                        '%s: number of saved %s' % (nm, name), U.length(e), ONE))
                U.fresh(nm + ': nothing shared with the optimiser and the pulses', d)
            U.run(nm, lambda: U.I.call(U.cls(P_ + 'run_optimization_parallel'), [opt, pulses], kw), post)
            CTX.pop()
