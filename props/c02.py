"""C02 tail-count confidence limits are weighted quantiles."""
from symx.run import Scenario

BOUNDS = 'up to 4 samples (quick) / 5 (thorough), arbitrary real values incl. ties, arbitrary non-negative real weights ' \
         'with positive total, arbitrary limit fraction in [0,1], sub-ranges start:end'
OUTSIDE = 'more samples; rounding of the cumulative sum'


def isquantile(c, v, x, w, target):
    """v is the smallest sample value whose cumulative weight reaches target"""
    F = lambda t: c.sum([c.ite(a <= t, b, 0) for a, b in zip(x, w)])
    c.check(c.or_([c.eq(v, a) for a in x]), 'limit is one of the sample values')
    if c.symbolic:
        c.check(F(v) >= target, 'cumulative weight up to the limit reaches the tail fraction')
        for a in x:
            c.check(c.implies(a < v, F(a) < target), 'no smaller sample value reaches the tail fraction')
    else:
        tol = 1e-9 * sum(w)
        c.check(F(v) >= target - tol, 'cumulative weight up to the limit reaches the tail fraction', (v, F(v), target))
        for a in x:
            c.check(not (a < v) or F(a) < target + tol, 'no smaller sample value reaches the tail fraction', (v, a))


def data(c, U, n, p=1):
    X = c.matrix('x', n, p)
    w = c.reals('w', n, 0)
    c.assume(c.sum(w) > 0)
    s = U.chains.WeightedSamples(samples=c.array(X), weights=c.array(w), min_weight_ratio=-1)
    return s, X, w


def limit(c, U, n, upper):
    s, X, w = data(c, U, n)
    f = c.real('f', 0, 1)
    v = s.confidence(0, f, upper=upper)
    c.observe('v', v)
    x = [r[0] for r in X]
    isquantile(c, v, x, w, (1 - f if upper else f) * c.sum(w))
    if n <= 3:
        d = s.initParamConfidenceData(0)
        c.check_eq(s.confidence(d, f, upper=upper), v, 'precomputed confidence data gives the same limit')


def ranged(c, U, n, start, end):
    s, X, w = data(c, U, n)
    f = c.real('f', 0, 1)
    ww = w[start:end]
    c.assume(c.sum(ww) > 0)
    v = s.confidence(s.samples[:, 0], f, start=start, end=end)
    c.observe('v', v)
    isquantile(c, v, [r[0] for r in X][start:end], ww, f * c.sum(ww))


def ownweights(c, U, n, start):
    s, X, w = data(c, U, n)
    w2 = c.reals('u', n, 0)
    c.assume(c.sum(w2[start:]) > 0)
    f = c.real('f', 0, 1)
    v = s.confidence(0, f, weights=c.array(w2), start=start)
    isquantile(c, v, [r[0] for r in X][start:], w2[start:], f * c.sum(w2[start:]))


def twotail(c, U, n):
    s, X, w = data(c, U, n)
    conf = c.real('conf', 0, 1)
    lo, hi = s.twoTailLimits(0, conf)
    c.observe('lims', [lo, hi])
    x = [r[0] for r in X]
    isquantile(c, lo, x, w, (1 - conf) / 2 * c.sum(w))
    isquantile(c, hi, x, w, (1 - (1 - conf) / 2) * c.sum(w))
    c.check(lo <= hi, 'limits ordered')


def nested_limits(c, U, n):
    """a larger confidence gives a containing interval"""
    s, X, w = data(c, U, n)
    c1 = c.real('c1', 0, 1)
    c2 = c.real('c2', 0, 1)
    c.assume(c1 < c2)
    a = s.twoTailLimits(0, c1)
    b = s.twoTailLimits(0, c2)
    c.check(c.and_(b[0] <= a[0], a[1] <= b[1]), 'wider confidence interval contains the narrower one')


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for n in (1, 2, 3, 4) + ((5,) if big else ()):
        for up in (False, True):
            out.append(Scenario(limit, dict(n=n, upper=up)))
    out.append(Scenario(ranged, dict(n=4, start=1, end=None)))
    out.append(Scenario(ranged, dict(n=4, start=1, end=3)))
    out.append(Scenario(ranged, dict(n=4, start=0, end=3)))
    out.append(Scenario(ownweights, dict(n=3, start=0)))
    out.append(Scenario(ownweights, dict(n=3, start=1)))
    out.append(Scenario(twotail, dict(n=3)))
    out.append(Scenario(nested_limits, dict(n=3)))
    if big:
        out.append(Scenario(twotail, dict(n=4)))
        out.append(Scenario(ranged, dict(n=5, start=1, end=4)))
        out.append(Scenario(ownweights, dict(n=4, start=1)))
    return out
