"""C04 thinning conserves: right number, right rows, no invented samples."""
import numpy as np
from symx.run import Scenario
from props.common import include

PRELOAD = ['getdist.mcsamples']

BOUNDS = 'up to 3 rows (4 thorough), integer weights 1..4 (5), every thin factor 1..6 (8); 3 rows for random selection'
OUTSIDE = 'more rows, larger weights'
ASSUMPTIONS = ['the random generator is replaced by arbitrary values in [0,1)']


def build(c, U, n, wmax, cls='WeightedSamples'):
    X = c.matrix('x', n, 1)
    w = c.ints('w', n, 1, wmax)
    L = c.reals('l', n)
    kw = {} if cls == 'WeightedSamples' else dict(names=['a'])
    s = getattr(U.chains, cls)(samples=c.array(X), weights=c.array(w), loglikes=c.array(L), min_weight_ratio=-1, **kw)
    return s, X, w, L


def expected(c, ix, w, f, label):
    """ix: list of concrete row indices kept (with repeats)"""
    n = len(w)
    tot = c.sum(w)
    c.check(all(0 <= i < n for i in ix), label + ': rows exist')
    c.check(all(a <= b for a, b in zip(ix, ix[1:])), label + ': original order kept')
    big = c.or_([x > f for x in w])  # some row is longer than the factor
    m = len(ix)
    # number of kept unit samples: floor(total/f), or one more when whole rows are picked per block
    c.check(c.implies(big, c.and_(m * f <= tot, tot < (m + 1) * f)), label + ': keeps floor(total/factor) samples')
    c.check(c.and_((m - 1) * f <= tot, tot < (m + 1) * f), label + ': number kept is total/factor to within one')
    cum = []
    t = 0
    for x in w:
        t = t + x
        cum.append(t)
    # every f-th unit sample (counting weights) is the one kept
    for k, i in enumerate(ix):
        lo = cum[i] - w[i]
        u = (k + 1) * f  # 1-based unit sample number
        c.check(c.implies(big, c.and_(lo < u, u <= cum[i])), label + ': keeps every factor-th unit sample')
    # otherwise: one row per successive block of f units
    c.check(c.or_(big, all(a < b for a, b in zip(ix, ix[1:]))), label + ': no row twice')
    for a, b in zip(ix, ix[1:]):
        d = cum[b] - cum[a]
        c.check(c.or_(big, c.and_(d > 0, d < 2 * f)), label + ': kept rows are less than two blocks apart')


def indices(c, U, n, wmax, fmax):
    s, X, w, L = build(c, U, n, wmax)
    f = c.choice('f', fmax) + 1
    ix = [int(i) for i in s.thin_indices(f)]
    expected(c, ix, w, f, 'thin_indices')
    c.observe('ix', ix)


def thin(c, U, n, wmax, fmax, cls, loglikes=True):
    s, X, w, L = build(c, U, n, wmax, cls)
    if not loglikes:
        s.loglikes = None
    f = c.choice('f', fmax) + 1
    ix = [int(i) for i in s.thin_indices(f)]
    expected(c, ix, w, f, 'thin')
    s.thin(f)
    c.check_all_eq([r[0] for r in s.samples], [X[i][0] for i in ix], 'thin: rows')
    if loglikes:
        c.check_all_eq(list(s.loglikes), [L[i] for i in ix], 'thin: loglikes')
    else:
        c.check(s.loglikes is None, 'thin: no loglikes')
    c.check_all_eq(list(s.weights), [1] * len(ix), 'thin: unit weights')
    c.check_eq(s.get_norm(), len(ix), 'thin: norm')


def weighted(c, U, n, wmax, fmax, cls):
    s, X, w, L = build(c, U, n, wmax, cls)
    f = c.choice('f', fmax) + 1
    s.weighted_thin(f)
    # identify kept rows through the tags
    for i in range(n):
        for j in range(i):
            c.assume(c.not_(c.eq(X[i][0], X[j][0])))
    rows = []
    for k in range(s.numrows):
        hit = [i for i in range(n) if c.eq(s.samples[k, 0], X[i][0])]
        c.check(len(hit) == 1, 'weighted_thin: rows come from the input')
        if len(hit) != 1:
            return
        c.check_eq(s.loglikes[k], L[hit[0]], 'weighted_thin: loglike of the same row')
        c.check(s.weights[k] >= 1, 'weighted_thin: weight at least 1')
        c.check(s.weights[k] <= w[hit[0]], 'weighted_thin: weight never grows')
        rows += [hit[0]] * int(s.weights[k])
    expected(c, rows, w, f, 'weighted_thin')
    c.check_eq(s.get_norm(), len(rows), 'weighted_thin: norm')
    c.observe('w', s.weights)


def rejects(c, U, n):
    """non-integer weights or factors are refused, never silently rounded"""
    X = c.matrix('x', n, 1)
    w = c.reals('w', n, 0)
    c.assume(c.sum(w) > 0)
    for x in w:
        c.assume(x <= 4)
    f = c.real('f', 1, 5)
    E = U.chains.WeightedSampleError
    s = U.chains.WeightedSamples(samples=c.array(X), weights=c.array(w), min_weight_ratio=-1)
    frac = c.or_([c.and_(w[i] > k + 1e-3, w[i] < k + 1) for i in range(n) for k in range(4)])
    ffrac = c.or_([c.and_(f > k, f < k + 1) for k in range(1, 5)])
    bad = bool(c.or_(frac, ffrac))
    if not c.symbolic or bad:
        pass
    if not bad:
        c.assume(False) if not c.symbolic else c.cut('accepted inputs are covered by the other scenarios')
    v, e = c.raises(lambda: s.thin_indices(f), E)
    c.check(e is not None, 'refuses non-integer weights or factor', v)


class _Gen:
    def __init__(self, c):
        self.c = c
        self.k = 0

    def random(self, size=None, *a, **k):
        n = size if isinstance(size, int) else (1 if size is None else int(np.prod(size)))
        out = []
        for i in range(n):
            self.k += 1
            v = self.c.real('rnd%d' % self.k, 0)
            self.c.assume(v < 1)
            out.append(v)
        return out[0] if size is None else self.c.array(out)

    random_sample = rand = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)


def randsel(c, U, n, mode):
    """row i is kept iff its uniform draw falls below w_i/(w_max*thin)"""
    X = c.matrix('x', n, 1)
    w = c.reals('w', n, 0)
    c.assume(c.sum(w) > 0)
    s = U.chains.WeightedSamples(samples=c.array(X), weights=c.array(w), min_weight_ratio=-1)
    mx = c.max(w)
    th = 1
    kw = {}
    if mode == 'thin':
        th = c.real('thin', 1, 10)
        kw = dict(thin=th)
    elif mode == 'max':
        ms = c.choice('ms', 3) + 1
        kw = dict(max_samples=ms)
        th = c.max(1, c.sum(w) / mx / ms)
    gen = _Gen(c)
    npm = U.chains.np
    old = npm.random
    real = np.random.default_rng
    if c.symbolic:
        npm._sx_table['random'] = _RM(gen)
        try:
            ix = [int(i) for i in s.random_single_samples_indices(**kw)]
        finally:
            npm._sx_table['random'] = old
    else:
        np.random.default_rng = lambda *a: gen
        try:
            ix = [int(i) for i in s.random_single_samples_indices(**kw)]
        finally:
            np.random.default_rng = real
    draws = [c.real('rnd%d' % (i + 1), 0) for i in range(n)]
    c.check(ix == sorted(set(ix)), 'each row at most once, in order')
    for i in range(n):
        lhs, rhs = draws[i] * mx * th, w[i]
        if i in ix:
            c.check(c.le(lhs, rhs), 'kept only if the draw is within weight/max weight')
        else:
            c.check(c.le(rhs, lhs), 'dropped only if the draw is above weight/max weight')
    c.observe('ix', ix)


class _RM:
    def __init__(self, g):
        self.g = g

    def default_rng(self, *a):
        return self.g

    def __getattr__(self, n):
        if n in ('Generator', 'RandomState'):
            return getattr(np.random, n)
        return getattr(self.g, n)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for n, wmax, fmax in ((1, 5, 6), (2, 4, 6), (3, 3, 5)) + (((3, 4, 8), (4, 3, 6)) if big else ()):
        out.append(Scenario(indices, dict(n=n, wmax=wmax, fmax=fmax)))
    for cls in ('WeightedSamples', 'Chains'):
        for n, wmax, fmax in ((2, 3, 4),) + (((3, 3, 5),) if big else ()):
            out.append(Scenario(thin, dict(n=n, wmax=wmax, fmax=fmax, cls=cls)))
            out.append(Scenario(weighted, dict(n=n, wmax=wmax, fmax=fmax, cls=cls)))
    out.append(Scenario(rejects, dict(n=2)))
    out.append(Scenario(thin, dict(n=2, wmax=2, fmax=3, cls='Chains', loglikes=False)))
    out.extend(include('c07', tier, 'thin', 'wthin', 'refuse'))
    for mode in ('plain', 'thin', 'max'):
        out.append(Scenario(randsel, dict(n=3 if big else 2, mode=mode)))
    return out
