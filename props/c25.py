"""C25 convolutions, autocorrelations and effective sample numbers equal their definitions."""
import itertools
import math
from symx.run import Scenario

BOUNDS = 'sequences of up to 5 values (quick) / 7 (thorough), every real value, kernels of up to 3 symbolic or concrete values, all ' \
         'modes; auto-correlations of 3-4 rows with every real value and several sets of weights, maximum offsets and units; ' \
         'correlation lengths of every real auto-correlation array of up to 4 values and threshold; Gaussian smoothing of up to 3 values'
OUTSIDE = 'longer sequences; floating-point rounding inside the Fourier transforms (their matrices are taken from the real routines, ' \
          'coefficients agree to 1e-9)'
ASSUMPTIONS = ['fftpack/numpy transforms are the linear maps they compute on unit vectors']


def full(x, y):
    r = [0] * (len(x) + len(y) - 1)
    for i, a in enumerate(x):
        for j, b in enumerate(y):
            r[i + j] = r[i + j] + a * b
    return r


def part(x, y, mode):
    f = full(x, y)
    if mode == 'full':
        return f
    if mode == 'same':
        k = (len(y) - 1) // 2
        return f[k:k + len(x)]
    return f[len(y) - 1:len(x)]


KER = {2: [0.5, 2.], 3: [0.25, 1., -0.5], 1: [2.]}


def conv(c, U, n, m, mode, largest, cached, direct, sym):
    x = c.reals('x', n)
    y = c.reals('y', m) if sym else list(KER[m])
    x2 = c.reals('x2', n)
    X, Y, X2 = c.array(x), c.array(y), c.array(x2)
    C = {} if cached else None
    f = U.convolve.convolveFFT if direct else U.convolve.convolve1D
    args = dict(largest_size=largest, cache=C)
    # a second convolution with the same kernel, and a repeat of the first, may not be affected by what was stored
    for a, A in ((x, X), (x2, X2), (x, X)):
        c.check_all_near(f(A, Y, mode, **args), part(a, y, mode), 'convolution, mode ' + mode)
    if cached and direct:
        c.check_all_near(f(A, Y, mode, cache_args=[2], **args), part(x, y, mode), 'cached kernel only')
        c.check_all_near(f(c.array(x2), Y, mode, cache_args=[2], **args), part(x2, y, mode), 'cached kernel only, other values')
        c.check_all_near(f(X, c.array([2 * v for v in y]), mode, cache_args=[1], **args), part(x, [2 * v for v in y], mode),
                         'cached values only, other kernel')
        big = c.array(x + [1.])
        c.check_all_near(f(big, Y, mode, **args), part(x + [1.], y, mode), 'other size')


def conv2d(c, U, shape, kshape, mode, largest, cached, sym):
    n, m = shape
    p, q = kshape
    x = c.matrix('x', n, m)
    x2 = c.matrix('z', n, m)
    y = c.matrix('y', p, q) if sym else [[1. + i + 2 * j * (-1) ** i for j in range(q)] for i in range(p)]
    X, Y, X2 = c.array(x), c.array(y), c.array(x2)
    C = {} if cached else None

    def want(a):
        f = [[0] * (m + q - 1) for _ in range(n + p - 1)]
        for i, j, k, l in itertools.product(range(n), range(m), range(p), range(q)):
            f[i + k][j + l] = f[i + k][j + l] + a[i][j] * y[k][l]
        if mode == 'same':
            f = [r[(q - 1) // 2:(q - 1) // 2 + m] for r in f[(p - 1) // 2:(p - 1) // 2 + n]]
        elif mode == 'valid':
            f = [r[q - 1:m] for r in f[p - 1:n]]
        return [v for r in f for v in r]

    for a, A in ((x, X), (x2, X2), (x, X)):
        c.check_all_near(U.convolve.convolve2D(A, Y, mode, largest_size=largest, cache=C), want(a), '2D convolution, mode ' + mode)
    if cached:
        for a, A in ((x2, c.array(x2)), (x, c.array(x))):
            c.check_all_near(U.convolve.convolve2D(A, Y, mode, largest_size=largest, cache=C, cache_args=[2]), want(a),
                             '2D convolution, cached kernel, mode ' + mode)


def auto(c, U, n, k):
    x = c.reals('x', n)
    X = c.array(x)

    def cov(v, kk, norm):
        r = []
        for o in range(kk):
            t = c.sum([v[i] * v[i + o] for i in range(n - o)])
            r.append(t / (n - o) if norm else t)
        return r

    kk = k or n
    c.check_all_near(U.convolve.autoConvolve(X, k, normalize=False), cov(x, kk, False), 'sum_i x_i x_(i+k)')
    c.check_all_near(U.convolve.autoConvolve(X, k), cov(x, kk, True), 'sum over the number of terms')
    m = c.sum(x) / n
    d = [v - m for v in x]
    c.check_all_near(U.convolve.autoCorrelation(X, k, normalized=False), cov(d, kk, True), 'auto-covariance')
    c.assume(c.not_(c.eq(x[0], x[1])))
    r = cov(d, kk, True)
    c.check_all_near(U.convolve.autoCorrelation(X, k), [v / r[0] for v in r], 'auto-correlation')
    c.check_all_near(U.convolve.autoCorrelation(X, k, start_index=1), [v / r[0] for v in r][1:], 'from start_index')


WEIGHTS = {2: [[1., 2.]], 3: [[1., 1., 1.], [2., 1., 3.]], 4: [[1., 3., 2., 1.], [1., 0., 2., 1.]]}


def autocorr(c, U, n, wi, off, units, norm, index):
    w = WEIGHTS[n][wi]
    x = c.reals('x', n)
    s = U.chains.WeightedSamples(samples=c.array([[v, 1. + i] for i, v in enumerate(x)]), weights=c.array(list(w)), min_weight_ratio=-1)
    W = sum(w)
    m = c.sum([a * b for a, b in zip(x, w)]) / W
    d = [(a - m) * b for a, b in zip(x, w)]
    c.assume(c.not_(c.eq(x[0], x[n - 1])))
    got = s.getAutocorrelation(0 if index else c.array(x), maxOff=off, weight_units=units, normalized=norm)
    last = n - 1 if off is None else off
    want = []
    var = c.sum([b * (a - m) * (a - m) for a, b in zip(x, w)]) / W
    for k in range(last + 1):
        t = c.sum([d[i] * d[i + k] for i in range(n - k)]) / (n - k)
        if norm:
            t = t / var
        if units:
            t = t * n / W
        want.append(t)
    c.check_all_near(got, want, 'auto-correlation of the weighted sequence')


def length(c, U, n, deflt):
    s = U.chains.WeightedSamples(samples=c.array([[1.], [2.]]), weights=c.array([1., 1.]))
    r = c.reals('corr', n)
    c.assume(r[0] > 0)
    m = 0.05 if deflt else c.real('min_corr', 0, 0.5)
    got = s.getCorrelationLength(0, corr=c.array(r), **({} if deflt else dict(min_corr=m)))
    # correlations up to the first that is not above the threshold
    t = r[0]
    go = True
    for k in range(1, n):
        go = c.and_(go, r[k] > m * r[0])
        t = t + c.ite(go, 2 * r[k], 0)
    c.check_eq(got, t, 'sum of the correlations up to the threshold')


def effective(c, U, rows, unit, min_corr):
    n = rows
    x = [float((i * 7) % 5) for i in range(n)]
    v = c.reals('v', 2, -8, 8)
    x[0], x[n - 1] = v
    w = [1. + (0 if unit else i % 3) for i in range(n)]
    s = U.chains.WeightedSamples(samples=c.array([[a] for a in x]), weights=c.array(list(w)))
    W = sum(w)
    m = c.sum([a * b for a, b in zip(x, w)]) / W
    d = [(a - m) * b for a, b in zip(x, w)]
    var = c.sum([b * (a - m) * (a - m) for a, b in zip(x, w)]) / W
    last = n // 10
    r = [c.sum([d[i] * d[i + k] for i in range(n - k)]) / (n - k) for k in range(last + 1)]
    t = r[0]
    go = True
    mc = 0.05 if min_corr is None else min_corr
    for k in range(1, last + 1):
        go = c.and_(go, r[k] > mc * r[0])
        # a correlation within rounding of the threshold may count or not
        c.assume(c.or_(r[k] - mc * r[0] > 1e-3, r[k] - mc * r[0] < -1e-3))
        t = t + c.ite(go, 2 * r[k], 0)
    for wu in (True, False):
        want = t / var * (n / W if wu else 1)
        got = s.getCorrelationLength(0, weight_units=wu, min_corr=mc)
        c.check(close(c, got, want), 'correlation length', (got, want))
    got = s.getEffectiveSamples(0) if min_corr is None else s.getEffectiveSamples(0, min_corr=mc)
    want = W / (t / var * n / W)
    c.check(close(c, got * t, W * W * var / n), 'effective number of samples', (got, want))


def close(c, a, b, tol=1e-6):
    return c.and_(a - b < tol * (1 + abs(b)), b - a < tol * (1 + abs(b)))


def uncorrelated(c, U, n, sampler):
    w = c.reals('w', n, 0)
    c.assume(c.sum(w) > 0)
    s = U.chains.WeightedSamples(samples=c.array([[1. + i, (i * i) % 5.] for i in range(n)]), weights=c.array(w), min_weight_ratio=-1)
    s.sampler = sampler
    want = c.sum(w) * c.sum(w) / c.sum([a * a for a in w])
    c.check_eq(s.getEffectiveSamplesGaussianKDE(0), want, 'effective samples of uncorrelated samples')
    c.check_eq(s.getEffectiveSamplesGaussianKDE_2d(0, 1), want, 'effective samples of uncorrelated samples, 2D')


def kde_neff(c, U, two):
    """rows all far apart against the kernel: only equal successive rows count, so any multiplicity given as weights or as
    repeated rows counts the same"""
    n = 40
    vals = [float((i * 17) % 41) * 4 for i in range(n)]
    ws = [1. + i % 2 for i in range(n)]
    w0 = c.real('w', 1, 4)
    ws[5] = w0
    X = [[v, float((i * 23) % 43) * 4] for i, v in enumerate(vals)]
    s = U.chains.WeightedSamples(samples=c.array(X), weights=c.array(ws), min_weight_ratio=-1)
    h = 1e-3
    if two:
        got = s.getEffectiveSamplesGaussianKDE_2d(0, 1, h=h)
    else:
        got = s.getEffectiveSamplesGaussianKDE(0, h=h, scale=1.)
    W, W2 = c.sum(ws), c.sum([a * a for a in ws])
    c.check(close(c, got * W2, W * W), 'distinct rows', (got, W * W / W2))


def gauss(c, U, kind, n, sigma, mode, cached):
    x = c.reals('x', n, -1, 1)
    C = {} if cached else None
    x2 = c.reals('x2', n, -1, 1)

    def g(d):
        return math.exp(-d * d / 2. / sigma ** 2) / math.sqrt(2 * math.pi) / sigma

    fill = int(4 * sigma)
    for v in ((x, x2, x) if cached else (x,)):
        if kind == 'dct':
            got = U.convolve.convolveGaussianDCT(c.array(v), sigma, mode=mode, cache=C)
            lo, hi = (0, n) if mode == 'same' else (fill, n - fill)
            tol = 1e-3
        elif kind == 'fft':
            got = U.convolve.convolveGaussian(c.array(v), sigma, cache=C)
            lo, hi = 0, n
            tol = 1e-3
        else:
            got = U.convolve.convolveGaussianTrunc(c.array(v), sigma, mode=mode, cache=C)
            lo, hi = dict(same=(0, n), full=(-fill, n + fill), valid=(fill, n - fill))[mode]
            z = sum(math.exp(-d * d / 2. / sigma ** 2) for d in range(-fill, fill + 1))
            tol = 1e-9
            g = lambda d: math.exp(-d * d / 2. / sigma ** 2) / z if abs(d) <= fill else 0.
        c.check(len(got) == hi - lo, 'size', (len(got), hi - lo))
        for k, i in enumerate(range(lo, hi)):
            want = c.sum([v[j] * g(i - j) for j in range(n)])
            c.check(c.and_(got[k] - want < tol, want - got[k] < tol), 'Gaussian average, ' + mode, (got[k], want))


def reflect(c, U, n, sigma):
    """without padding the cosine transform reflects at both ends: constants stay constant and the sum is kept"""
    x = c.reals('x', n, -1, 1)
    got = U.convolve.convolveGaussianDCT(c.array(x), sigma, pad_sigma=0, cache={})
    c.check(c.and_(c.sum(list(got)) - c.sum(x) < 1e-6, c.sum(x) - c.sum(list(got)) < 1e-6), 'sum is kept')
    for i in range(n):
        want = 0
        for j in range(n):
            for im in range(-6, 7):
                for pos in (2 * n * im + j, 2 * n * im - 1 - j):
                    want = want + x[j] * (math.exp(-(i - pos) ** 2 / 2. / sigma ** 2) / math.sqrt(2 * math.pi) / sigma)
        c.check(c.and_(got[i] - want < 1e-3, want - got[i] < 1e-3), 'Gaussian average of the reflected values', (got[i], want))


def scenarios(tier):
    th = tier == 'thorough'
    for direct in (True, False):
        for mode in ('same', 'full', 'valid'):
            for n, m, largest, cached, sym in [(4, 3, 0, True, False), (3, 2, 0, False, True), (5, 2, 20, True, False)] + \
                    ([(3, 3, 0, True, True), (6, 3, 0, True, False), (7, 2, 24, False, False), (4, 1, 0, True, True)] if th else []):
                yield Scenario(conv, dict(n=n, m=m, mode=mode, largest=largest, cached=cached, direct=direct, sym=sym))
    for mode in ('same', 'full', 'valid'):
        for shape, k, largest, cached, sym in [((3, 3), (2, 3), 0, True, False), ((2, 3), (2, 2), 8, False, True)] + \
                ([((4, 3), (3, 2), 0, True, False), ((3, 3), (1, 3), 12, True, True)] if th else []):
            yield Scenario(conv2d, dict(shape=shape, kshape=k, mode=mode, largest=largest, cached=cached, sym=sym))
    for n, k in [(3, None), (4, 2), (2, None)] + ([(5, None), (5, 3), (7, 2)] if th else []):
        yield Scenario(auto, dict(n=n, k=k))
    for n, wi, off in [(3, 1, 1), (3, 0, None), (2, 0, None)] + ([(4, 0, 2), (4, 1, None), (4, 1, 3)] if th else []):
        for units in (True, False):
            for norm in (True, False):
                yield Scenario(autocorr, dict(n=n, wi=wi, off=off, units=units, norm=norm, index=units == norm))
    for n in (2, 3, 4) + ((5, 6) if th else ()):
        for deflt in (True, False):
            yield Scenario(length, dict(n=n, deflt=deflt))
    for rows in (10, 20) + ((30,) if th else ()):
        for unit in (True, False):
            for mc in (None, 0.3):
                yield Scenario(effective, dict(rows=rows, unit=unit, min_corr=mc))
    for sampler in ('nested', 'uncorrelated'):
        yield Scenario(uncorrelated, dict(n=3, sampler=sampler))
    for two in (False,):
        yield Scenario(kde_neff, dict(two=two))
    for n, sigma in [(2, 2.), (3, 2.25)] + ([(4, 3.)] if th else []):
        for cached in (True, False):
            yield Scenario(gauss, dict(kind='dct', n=n, sigma=sigma, mode='same', cached=cached))
            yield Scenario(gauss, dict(kind='fft', n=n, sigma=sigma, mode='same', cached=cached))
            for mode in ('same', 'full'):
                yield Scenario(gauss, dict(kind='trunc', n=n, sigma=sigma, mode=mode, cached=cached))
    for cached in (True, False):
        yield Scenario(gauss, dict(kind='trunc', n=18, sigma=2., mode='valid', cached=cached))
        yield Scenario(gauss, dict(kind='dct', n=18, sigma=2., mode='valid', cached=cached))
    for n, sigma in [(3, 2.), (4, 2.5)]:
        yield Scenario(reflect, dict(n=n, sigma=sigma))
