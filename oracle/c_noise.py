"""Concrete contracts of the noise generators (C22, C23)."""
import numpy as np
from scipy import special

from oracle.frame import case
from oracle.lib import eq, true, raises, Frozen, qnoise


def quantiles(std, n, mean=0.):
    z = (np.arange(n) + .5) / n
    return std * np.sqrt(2) * special.erfinv(2 * z - 1) + mean


@case('C22', quick=80, thorough=1000)
def quantile_samples(rng):
    std, n, mean = float(rng.uniform(.1, 3)), int(rng.integers(1, 40)), float(rng.normal())
    got = qnoise.sample_1dim_gaussian_distribution(std, n, mean)
    eq(got, quantiles(std, n, mean), 'quantiles std=%g n=%d mean=%g' % (std, n, mean))
    eq(qnoise.sample_1dim_gaussian_distribution(std=std, n_samples=n), quantiles(std, n),
       'quantiles around zero')
    z = rng.uniform(.001, .999, size=5)
    x = qnoise.inverse_cumulative_gaussian_distribution_function(z=z, std=std, mean=mean)
    eq(.5 * (1 + special.erf((x - mean) / std / np.sqrt(2))), z, 'inverse distribution')
    return 'std=%g n=%d' % (std, n)


@case('C22', quick=150, thorough=2000)
def deterministic(rng):
    n_op, n, m = int(rng.integers(1, 5)), int(rng.integers(2, 9)), int(rng.integers(1, 7))
    corr = bool(rng.integers(2))
    if not corr and rng.integers(3) == 0:
        n = 1
    unit = [1., 10. ** rng.uniform(-17, 10)][rng.integers(2)]
    stds = [float(s) * unit for s in rng.uniform(.1, 3, size=n_op)]
    arg = [stds, tuple(stds), np.array(stds)][rng.integers(3)]
    fz = Frozen(std=arg)
    redraw = bool(rng.integers(2))
    desc = 'operators=%d n=%d samples=%d correct=%s redraw=%s' % (n_op, n, m, corr, redraw)
    for rep in range(2):
        g = qnoise.NTGQuasiStatic(standard_deviation=arg, n_samples_per_trace=m,
                                  n_traces=n, correct_std_for_discrete_sampling=corr,
                                  always_redraw_samples=redraw)
        for read in range(2):
            s = g.noise_samples
            want = np.zeros((n_op, n * n_op, m))
            for i, std in enumerate(stds):
                q = quantiles(std, n)
                if corr:
                    q = q * std / np.std(q)
                for j in range(n):
                    want[i, i * n + j, :] = q[j]
            eq(s / unit, want / unit, 'deterministic samples, construction %d, %s' % (rep, desc))
            if corr:
                for i, std in enumerate(stds):
                    eq(np.std(s[i, i * n:(i + 1) * n, 0]) / unit, std / unit,
                       'sample standard deviation, ' + desc)
            true(g.n_traces == n * n_op and g.n_samples_per_trace == m
                 and g.n_noise_operators == n_op, 'reported shape, ' + desc)
        fz.check('NTGQuasiStatic')
    return desc


@case('C22', quick=80, thorough=1000)
def monte_carlo(rng):
    n_op, n, m = int(rng.integers(1, 5)), int(rng.integers(2, 9)), int(rng.integers(1, 7))
    unit = [1., 10. ** rng.uniform(-17, 10)][rng.integers(2)]
    stds = [float(s) * unit for s in rng.uniform(.1, 3, size=n_op)]
    corr = bool(rng.integers(2))
    fz = Frozen(std=stds)

    def draw(sd, redraw=True):
        np.random.seed(77)
        g = qnoise.NTGQuasiStatic(sd, n_samples_per_trace=m, n_traces=n,
                                  sampling_mode='monte_carlo', always_redraw_samples=redraw,
                                  correct_std_for_discrete_sampling=corr)
        np.random.seed(78)
        return g, np.array(g.noise_samples)
    g, s = draw(stds)
    desc = 'monte carlo operators=%d traces=%d samples=%d' % (n_op, n, m)
    true(s.shape == (n_op, n, m), 'shape %s of %s' % (s.shape, desc))
    true(g.n_traces == n, 'number of traces of ' + desc)
    eq(s / unit, np.repeat(s[:, :, :1], m, axis=2) / unit, 'constant along the trace, ' + desc)
    _, one = draw([1.] * n_op)
    eq(s / unit, one * np.array(stds)[:, None, None] / unit, 'scaled by the standard deviation, ' + desc)
    np.random.seed(78)
    w = np.random.randn(n_op, n, 1)
    eq(one[:, :, :1], w, 'independent normal samples, ' + desc)
    true(not np.allclose(g.noise_samples / unit, s / unit), 'samples are not redrawn, ' + desc)
    g, s = draw(stds, False)
    eq(g.noise_samples / unit, s / unit, 'cached samples, ' + desc)
    fz.check('NTGQuasiStatic')
    return desc


@case('C22', quick=4, thorough=20)
def monte_carlo_statistics(rng):
    stds = [.5, 2., 1.]
    g = qnoise.NTGQuasiStatic(stds, n_samples_per_trace=2, n_traces=20000,
                              sampling_mode='monte_carlo')
    s = g.noise_samples[:, :, 0]
    c = np.cov(s)
    eq(np.sqrt(np.diag(c)), stds, 'empirical standard deviations', .05)
    for i in range(3):
        for j in range(i):
            true(abs(c[i, j]) < .08 * stds[i] * stds[j], 'operators are correlated')
    return 'statistics'


@case('C22', quick=4, thorough=20)
def rejected(rng):
    raises(lambda: qnoise.NTGQuasiStatic([1.], 3, n_traces=2, sampling_mode='other',
                                         correct_std_for_discrete_sampling=False
                                         ).noise_samples, 'unknown sampling mode')
    return 'modes'


DENS = [('1/f', lambda f: 1 / f), ('const', lambda f: 0 * f + 2.5),
        ('f**-1.5', lambda f: 3 * f ** -1.5), ('lorentz', lambda f: 1 / (1 + f ** 2)),
        ('f', lambda f: f)]


def colored(s, dt, n, shape, seed):
    np.random.seed(seed)
    white = np.random.randn(*shape, n)
    ft = np.fft.rfft(white, axis=-1)
    f = np.linspace(0, 1 / dt / 2, n // 2 + 1)
    w = np.zeros(len(f))
    w[1:] = np.sqrt(s(f[1:]) / (2 * dt))
    return np.fft.irfft(ft * w, n=n, axis=-1)


def units(rng, s, dt):
    """Times and densities in arbitrary units."""
    if rng.integers(2):
        return s, dt
    a, b = 10. ** rng.uniform(-35, 10), 10. ** rng.uniform(-12, 6)
    return (lambda f: a * s(f * b)), dt * b


@case('C23', quick=200, thorough=3000)
def fast_colored(rng):
    name, s = DENS[rng.integers(len(DENS))]
    dt = float(10 ** rng.uniform(-3, 2))
    s, dt = units(rng, s, dt)
    n = int(rng.integers(2, 60))
    shape = [(1,), (3,), (2, 4), ()][rng.integers(4)]
    p2 = bool(rng.integers(4) == 0)
    seed = int(rng.integers(2 ** 31))
    m = int(2 ** np.ceil(np.log2(n))) if p2 else n
    np.random.seed(seed)
    got = qnoise.fast_colored_noise(s, dt, n, shape, r_power_of_two=p2)
    want = colored(s, dt, m, shape, seed)
    desc = 'S=%s dt=%g n=%d shape=%s power_of_two=%s' % (name, dt, n, shape, p2)
    true(got.shape == shape + (m,), 'shape %s of %s' % (got.shape, desc))
    eq(got / np.max(np.abs(want)), want / np.max(np.abs(want)), 'coloured noise ' + desc)
    true(np.all(np.abs(np.mean(got, axis=-1)) <= 1e-9 * np.max(np.abs(want))),
         'mean component is not removed, ' + desc)
    return desc


@case('C23', quick=150, thorough=2000)
def colored_generator(rng):
    name, s = DENS[rng.integers(len(DENS))]
    dt = float(10 ** rng.uniform(-3, 2))
    s, dt = units(rng, s, dt)
    n, nt, no = int(rng.integers(2, 20)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    ext = int(rng.integers(1, 5))
    redraw = bool(rng.integers(2))
    seed = int(rng.integers(2 ** 31))
    g = qnoise.NTGColoredNoise(n_samples_per_trace=n, noise_spectral_density=s, dt=dt,
                               n_traces=nt, n_noise_operators=no,
                               always_redraw_samples=redraw,
                               low_frequency_extension_ratio=ext)
    desc = 'S=%s dt=%g n=%d traces=%d operators=%d extension=%d redraw=%s' % (
        name, dt, n, nt, no, ext, redraw)
    np.random.seed(seed)
    a = np.array(g.noise_samples)
    want = colored(s, dt, n * ext, (no, nt), seed)[:, :, :n]
    sc = np.max(np.abs(want))
    true(a.shape == (no, nt, n), 'shape %s of %s' % (a.shape, desc))
    eq(a / sc, want / sc, 'samples of ' + desc)
    true(g.n_traces == nt and g.n_noise_operators == no and g.n_samples_per_trace == n,
         'reported shape of ' + desc)
    np.random.seed(seed + 1)
    b = np.array(g.noise_samples)
    want2 = colored(s, dt, n * ext, (no, nt), seed + 1)[:, :, :n] if redraw else want
    eq(b / sc, want2 / sc, '%s samples of %s' % ('redrawn' if redraw else 'cached', desc))
    return desc


@case('C23', quick=3, thorough=10)
def spectrum(rng):
    """Ensemble averaged one sided periodogram at the interior frequencies."""
    dt, n, k = .5, 64, 4000
    s = lambda f: 1 / (1 + f)
    x = qnoise.fast_colored_noise(s, dt, n, (k,))
    per = 2 * dt / n * np.mean(np.abs(np.fft.rfft(x, axis=-1)) ** 2, axis=0)
    f = np.fft.rfftfreq(n, dt)
    # samples have two sided density S / 2 ... one sided density S
    eq(per[1:-1] / s(f[1:-1]), np.ones(n // 2 - 1), 'power spectral density', .06)
    return 'n=%d' % n


@case('C23', quick=4, thorough=4)
def rejected_arguments(rng):
    raises(lambda: qnoise.NTGColoredNoise(4, lambda f: f, .1,
                                          low_frequency_extension_ratio=0),
           'extension ratio below one')
    raises(lambda: qnoise.NTGColoredNoise(4, lambda f: f, [.1, .2]), 'list of time steps')
    return 'arguments'


@case('C08', quick=30, thorough=400)
def noise_inputs(rng):
    std = [float(v) for v in rng.uniform(.1, 2, size=int(rng.integers(1, 4)))]
    if rng.integers(2):
        std = np.array(std)
    fz = Frozen(standard_deviation=std)
    g = qnoise.NTGQuasiStatic(std, n_samples_per_trace=3, n_traces=int(rng.integers(2, 5)),
                          sampling_mode=['uncorrelated_deterministic',
                                         'monte_carlo'][rng.integers(2)])
    g.noise_samples
    g.noise_samples
    fz.check('the noise trace generator')
    return 'operators=%d' % len(std)
