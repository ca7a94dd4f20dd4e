"""C22, C23: contracts of qopt.noise."""
from pyvc.unit import *
from pyvc.values import *
from pyvc import terms as T
from contracts.matrix import total

N = 'qopt.noise:'
INS = 'any number of operators, traces and samples; any standard deviations'


def erfinv(p):
    from pyvc.npstub import gfun
    return gfun('erfinv', p, sort='r')


def quantile(j, n):
    """Quantile of the standard normal distribution at (j + 1/2) / n."""
    h = const(Fraction(1, 2))
    return T.sqrt(const(2)) * erfinv(2 * ((j + h) * T.inv(n)) - 1)


def variance(n):
    m = total(n, lambda j: quantile(j, n)) * T.inv(n)
    return total(n, lambda j: (quantile(j, n) - m) ** 2) * T.inv(n)


def as_tuple(l):
    l.tup = True
    return l


def stds(U, k, kind):
    s = lambda i: fn('sd', i, sort='r')
    if kind == 'array':
        return U.input('standard_deviation', U.arr('sd', k, dtype='f')), s
    if kind == 'tuple':
        return U.input('standard_deviation', as_tuple(symlist(k, lambda i: Num(s(i), 'float')))), s
    return U.input('standard_deviation', symlist(k, lambda i: Num(s(i), 'float'))), s


@unit('C22', 'quantiles of the normal distribution', [
    N + 'sample_1dim_gaussian_distribution', N + 'inverse_cumulative_gaussian_distribution_function'],
    'any number of samples, standard deviation and mean')
def _(U):
    n = U.dim('n')
    sd, mean = U.real('std'), U.real('mean')
    f = U.cls(N + 'sample_1dim_gaussian_distribution')
    for kw in (dict(std=sd, n_samples=num(n, 'int'), mean=mean), dict(std=sd, n_samples=num(n, 'int'))):
        m = pol(mean) if 'mean' in kw else ZERO
        nm = 'mean given' if 'mean' in kw else 'mean zero'
        U.run(nm, lambda: U.I.call(f, [], kw), lambda r: U.arr_eq(
            nm + ': quantiles at (j + 1/2) / n', r, (n,), lambda j: pol(sd) * quantile(j, n) + m))
    f = U.cls(N + 'inverse_cumulative_gaussian_distribution_function')
    z = U.input('z', U.arr('z', n, dtype='f'))
    U.run('inverse', lambda: U.I.call(f, [], dict(z=z, std=sd, mean=mean)), lambda r: U.arr_eq(
        'inverse distribution function', r, (n,), lambda j: pol(sd) * T.sqrt(const(2)) * erfinv(
            2 * fn('z', j, sort='r') - 1) + pol(mean)))


def reported(U, nm, g, k, tr, m):
    U.eq(nm + ': number of operators', U.get(g, 'n_noise_operators'), k)
    U.eq(nm + ': number of traces', U.get(g, 'n_traces'), tr)
    U.eq(nm + ': samples per trace', U.get(g, 'n_samples_per_trace'), m)


QS = [N + 'NTGQuasiStatic.' + x for x in ('__init__', 'n_traces', '_sample_noise')] + [
    N + 'NoiseTraceGenerator.' + x for x in ('__init__', 'noise_samples')]


@unit('C22', 'deterministic sampling', QS, INS)
def _(U):
    for kind in ('list', 'array', 'tuple'):
        for corr in (False, True):
            for redraw in (False, True):
                CTX.push()
                k, n, m = U.dim('n_op'), U.dim('n', 2 if corr else 1), U.dim('n_samples')
                sd, s = stds(U, k, kind)
                nm = '%s, corrected %s, redrawn %s' % (kind, corr, redraw)

                def go():
                    g = U.I.call(U.cls(N + 'NTGQuasiStatic'), [], dict(
                        standard_deviation=sd, n_samples_per_trace=num(m, 'int'),
                        n_traces=num(n, 'int'), always_redraw_samples=redraw,
                        correct_std_for_discrete_sampling=corr))
                    return g, U.get(g, 'noise_samples'), U.get(g, 'noise_samples')

                def post(r):
                    g = r[0]
                    reported(U, nm, g, k, k * n, m)
                    for q, x in enumerate(r[1:]):
                        x = unl(x)
                        U.arr_eq('%s, read %d: shape' % (nm, q), x, (k, k * n, m), x.el)
                        ts = [T.temp() for _ in range(4)]
                        i, b, j, t = [P(a) for a in ts]
                        with CTX.ranges(ts, [k, k, n, m]):
                            e = x.el(i, b * n + j, t)
                            U.eq('%s, read %d: constant along the trace' % (nm, q), e, x.el(
                                i, b * n + j, ZERO))
                            U.eq('%s, read %d: one operator at a time' % (nm, q), e * (
                                ONE - eq0(i - b)), ZERO)
                            e = x.el(i, i * n + j, t)
                            if not corr:
                                U.eq('%s, read %d: quantiles' % (nm, q), e, s(i) * quantile(j, n))
                            else:
                                # proportional to the quantiles with the requested variance
                                U.eq('%s, read %d: corrected quantiles' % (nm, q), e * e *
                                     variance(n), (s(i) * quantile(j, n)) ** 2)
                U.run(nm, go, post, raises={'RuntimeError'})
                CTX.pop()


@unit('C22', 'Monte Carlo sampling', QS, INS)
def _(U):
    for kind in ('list', 'array', 'tuple'):
        for redraw in (False, True):
            for corr in (False, True):
                CTX.push()
                k, n, m = U.dim('n_op'), U.dim('n', 2 if corr else 1), U.dim('n_samples')
                sd, s = stds(U, k, kind)
                nm = 'Monte Carlo, %s, redrawn %s, corrected %s' % (kind, redraw, corr)

                def go():
                    g = U.I.call(U.cls(N + 'NTGQuasiStatic'), [], dict(
                        standard_deviation=sd, n_samples_per_trace=num(m, 'int'),
                        n_traces=num(n, 'int'), always_redraw_samples=redraw,
                        correct_std_for_discrete_sampling=corr, sampling_mode='monte_carlo'))
                    return g, U.get(g, 'noise_samples'), U.get(g, 'noise_samples')

                def post(r):
                    reported(U, nm, r[0], k, n, m)
                    for q, x in enumerate(r[1:]):
                        draw = 'randn#%d' % (q + 1 if redraw else 1)
                        U.arr_eq('%s, read %d: own standard deviation times independent normal '
                                 'samples' % (nm, q), x, (k, n, m), lambda i, j, t: s(i) * fn(
                                     draw, i, j, ZERO, sort='r'))
                U.run(nm, go, post)
                CTX.pop()
    k, n, m = U.dim('n_op'), U.dim('n'), U.dim('n_samples')
    sd, s = stds(U, k, 'list')
    U.must_raise('unknown sampling mode', lambda: U.get(U.I.call(U.cls(N + 'NTGQuasiStatic'), [], dict(
        standard_deviation=sd, n_samples_per_trace=num(m, 'int'), n_traces=num(n, 'int'),
        sampling_mode='other', correct_std_for_discrete_sampling=False)), 'noise_samples'))


def density(I, a, kw):
    x = I.unlazy(a[0])
    return mkarr(x.shape, lambda *i: fn('S', x.el(*i), sort='r'), 'f')


def lamfun(*a):
    from pyvc.npstub import lamfun as f
    return f(*a)


def coloured(white, n, dt, t):
    """Filtered white noise, element t; white: function of the sample."""
    h = T.fdiv(n, const(2))
    a, b = T.temp(), T.temp()
    with CTX.ranges([a], [n]):
        w = Lam([n], [a], white(P(a)))
    with CTX.ranges([b], [h + 1]):
        k = P(b)
        f = k * T.inv(h) * T.inv(dt) * Fraction(1, 2)
        # sqrt(S(f) / (2 dt)), zero mean
        spec = (ONE - eq0(k)) * lamfun('rfft', 'c', [w], k) * T.sqrt(
            fn('S', f, sort='r') * T.inv(dt) * Fraction(1, 2))
        l = Lam([h + 1], [b], spec)
    return lamfun('irfft', 'r', [l], n, t)


@unit('C23', 'coloured noise', [N + 'fast_colored_noise'],
      'any number of samples, time step and spectral density; output shapes of 0 to 3 dimensions')
def _(U):
    n = U.dim('n', 2)
    dt = U.real('dt', positive=True)
    f = U.cls(N + 'fast_colored_noise')
    s = Native('spectral density', density)
    for rank in (0, 1, 2, 3):
        dims = [U.dim('m%d' % i) for i in range(rank)]
        nm = 'output shape of %d dimensions' % rank

        def go():
            return U.I.call(f, [], dict(
                spectral_density=s, dt=dt, n_samples=num(n, 'int'),
                output_shape=plist([num(d, 'int') for d in dims], True)))
        U.run(nm, go, lambda r: U.arr_eq(
            nm + ': inverse transform of the weighted transform of white noise', r,
            tuple(dims) + (n,), lambda *i: coloured(
                lambda t: fn('randn#1', *i[:-1], t, sort='r'), n, pol(dt), i[-1])))


@unit('C23', 'noise traces', [N + 'NTGColoredNoise.' + x for x in ('__init__', '_sample_noise')] + [
    N + 'NoiseTraceGenerator.noise_samples', N + 'fast_colored_noise'],
    'any number of operators, traces, samples and extension ratio')
def _(U):
    s = Native('spectral density', density)
    for redraw in (False, True):
        for ext in (None, U.dim('extension')):
            n, tr, k = U.dim('n', 2), U.dim('n_traces'), U.dim('n_op')
            dt = U.real('dt', positive=True)
            nm = 'redrawn %s, %s' % (redraw, 'extended' if ext is not None else 'not extended')
            kw = dict(low_frequency_extension_ratio=num(ext, 'int')) if ext is not None else {}
            nn = n * (ONE if ext is None else ext)

            def go():
                g = U.I.call(U.cls(N + 'NTGColoredNoise'), [], dict(
                    n_samples_per_trace=num(n, 'int'), noise_spectral_density=s, dt=dt,
                    n_traces=num(tr, 'int'), n_noise_operators=num(k, 'int'),
                    always_redraw_samples=redraw, **kw))
                return g, U.get(g, 'noise_samples'), U.get(g, 'noise_samples')

            def post(r):
                reported(U, nm, r[0], k, tr, n)
                for q, x in enumerate(r[1:]):
                    draw = 'randn#%d' % (q + 1 if redraw else 1)
                    U.arr_eq('%s, read %d: coloured noise, cut' % (nm, q), x, (k, tr, n),
                             lambda i, j, t: coloured(lambda a: fn(
                                 draw, i, j, a, sort='r'), nn, pol(dt), t))
            U.run(nm, go, post)
    mk = lambda **kw: U.I.call(U.cls(N + 'NTGColoredNoise'), [], dict(
        dict(n_samples_per_trace=4, noise_spectral_density=s, dt=U.real('dt'), n_traces=2), **kw))
    U.must_raise('extension ratio below one', lambda: mk(low_frequency_extension_ratio=0))
    U.must_raise('several time steps', lambda: mk(dt=plist([U.real('a'), U.real('b')])))
