"""C05 importance reweighting and cooling multiply weights by exactly the likelihood ratio."""
from symx.run import Scenario

BOUNDS = 'up to 3 rows (4 thorough); arbitrary real -log(likelihood) values and positive weights; cooling factors ' \
         '0, 1/2, 1, 2, 3; histories of two operations'
OUTSIDE = 'other cooling factors; overflow of exp'
ASSUMPTIONS = ['exp is an exact homomorphism on integer combinations of the symbolic log-likelihoods']


def build(c, U, n, cls, L):
    X = c.matrix('x', n, 1)
    w = c.reals('w', n)
    for a in w:
        c.assume(a > 0)
    kw = {} if cls == 'WeightedSamples' else dict(names=['a'])
    s = getattr(U.chains, cls)(samples=c.array(X), weights=c.array(w), loglikes=c.array(L) if L is not None else None,
                               min_weight_ratio=-1, **kw)
    return s, X, w


def ratio(c, s, X, w, D, label):
    """weights now proportional to w_i exp(-D_i), rows untouched"""
    n = len(w)
    c.check(s.numrows == n, label + ': keeps all rows')
    c.check_all_eq([r[0] for r in s.samples], [r[0] for r in X], label + ': samples unchanged')
    for i in range(n):
        c.check(s.weights[i] > 0, label + ': weights stay positive')
        for j in range(i):
            # w'_i / w'_j == w_i/w_j exp(D_j - D_i)
            c.check_eq(s.weights[i] * w[j], s.weights[j] * w[i] * c.exp(D[j] - D[i]), label + ': weight ratio')
    c.check_eq(s.get_norm(), c.sum(list(s.weights)), label + ': norm updated')
    c.check_eq(s.mean(0), c.sum([a * b[0] for a, b in zip(s.weights, X)]) / c.sum(list(s.weights)), label + ': mean uses new weights')


def reweight(c, U, n, cls, hasL):
    L = [c.logreal('l%d' % i) for i in range(n)] if hasL else None
    D = [c.logreal('d%d' % i) for i in range(n)]
    s, X, w = build(c, U, n, cls, L)
    before = s.mean(0)
    s.reweightAddingLogLikes(c.array(D))
    ratio(c, s, X, w, D, 'reweight')
    if hasL:
        c.check_all_eq(list(s.loglikes), [a + b for a, b in zip(L, D)], 'reweight: loglikes are added')
    else:
        c.check(s.loglikes is None, 'reweight: no loglikes invented')


def scale(c, U, n, cls):
    """no overflow by construction: the largest factor applied to any weight is 1"""
    D = [c.logreal('d%d' % i) for i in range(n)]
    s, X, w = build(c, U, n, cls, None)
    s.reweightAddingLogLikes(c.array(D))
    for i in range(n):
        c.check(c.le(s.weights[i], w[i]), 'reweight: factors are at most 1')
    c.check(c.or_([c.eq(a, b) for a, b in zip(s.weights, w)]), 'reweight: best sample keeps its weight')


def cool(c, U, n, cls, fac):
    unit = [c.logreal('u%d' % i) for i in range(n)]
    L = [2 * u for u in unit]
    s, X, w = build(c, U, n, cls, L)
    s.mean(0)
    f = [0, 0.5, 1, 2, 3][fac]
    s.cool(f)
    ratio(c, s, X, w, [(f - 1) * a for a in L], 'cool')
    c.check_all_eq(list(s.loglikes), [f * a for a in L], 'cool: loglikes are multiplied by the factor')


def twice(c, U, n, cls):
    """adding two likelihoods one after the other is the same as adding their sum"""
    L = [c.logreal('l%d' % i) for i in range(n)]
    D = [c.logreal('d%d' % i) for i in range(n)]
    E = [c.logreal('e%d' % i) for i in range(n)]
    s, X, w = build(c, U, n, cls, L)
    s.reweightAddingLogLikes(c.array(D))
    s.reweightAddingLogLikes(c.array(E))
    ratio(c, s, X, w, [a + b for a, b in zip(D, E)], 'reweight twice')
    c.check_all_eq(list(s.loglikes), [a + b + d for a, b, d in zip(L, D, E)], 'reweight twice: loglikes')


def undo(c, U, n, cls):
    """adding and then removing a likelihood restores the weights up to normalisation"""
    L = [c.logreal('l%d' % i) for i in range(n)]
    D = [c.logreal('d%d' % i) for i in range(n)]
    s, X, w = build(c, U, n, cls, L)
    s.reweightAddingLogLikes(c.array(D))
    s.reweightAddingLogLikes(c.array([-a for a in D]))
    ratio(c, s, X, w, [0] * n, 'undo')
    c.check_all_eq(list(s.loglikes), L, 'undo: loglikes restored')


def intweights(c, U, n, cls):
    """integer weights are reweighted without truncation"""
    X = c.matrix('x', n, 1)
    k = c.ints('k', n, 1, 4)
    D = [c.logreal('d%d' % i) for i in range(n)]
    kw = {} if cls == 'WeightedSamples' else dict(names=['a'])
    s = getattr(U.chains, cls)(samples=c.array(X), weights=c.iarray(k), min_weight_ratio=-1, **kw)
    s.reweightAddingLogLikes(c.array(D))
    ratio(c, s, X, k, D, 'integer weights')


def intcool(c, U, n, cls):
    X = c.matrix('x', n, 1)
    k = c.ints('k', n, 1, 4)
    L = [2 * c.logreal('u%d' % i) for i in range(n)]
    kw = {} if cls == 'WeightedSamples' else dict(names=['a'])
    s = getattr(U.chains, cls)(samples=c.array(X), weights=c.iarray(k), loglikes=c.array(L), min_weight_ratio=-1, **kw)
    s.cool(0.5)
    ratio(c, s, X, k, [-0.5 * a for a in L], 'cool, integer weights')


def zeros(c, U, n, cls, integer, hasL):
    """rows whose weight is zero, and only those, go when zeros are deleted, before or after reweighting"""
    X = c.matrix('x', n, 1)
    w = c.ints('w', n, 0, 3) if integer else c.reals('w', n, 0)
    zero = [c.choice('z%d' % i, 2) == 1 for i in range(n)]
    for a, z in zip(w, zero):
        c.assume(c.eq(a, 0) if z else a > 0)
    keep = [i for i in range(n) if not zero[i]]
    if not keep:
        c.cut('no row left')
    L = [c.logreal('l%d' % i) for i in range(n)] if hasL else None
    D = [c.logreal('d%d' % i) for i in range(n)]
    kw = {} if cls == 'WeightedSamples' else dict(names=['a'])
    after = c.choice('after', 2) == 1

    def make():
        return getattr(U.chains, cls)(samples=c.array(X), weights=c.iarray(w) if integer else c.array(w),
                                      loglikes=c.array(L) if hasL else None, min_weight_ratio=-1, **kw)

    s = make()
    if after:
        s.reweightAddingLogLikes(c.array(D))
        s.deleteZeros()
    else:
        s.deleteZeros()
        D = [D[i] for i in keep]
        s.reweightAddingLogLikes(c.array(D))
        D = dict(zip(keep, D))
    c.check(s.numrows == len(keep), 'rows of positive weight', (s.numrows, len(keep)))
    ratio(c, s, [X[i] for i in keep], [w[i] for i in keep], [D[i] for i in keep], 'zero weights deleted')
    if hasL:
        c.check_all_eq(list(s.loglikes), [L[i] + D[i] for i in keep], 'likelihoods of the rows kept')


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for cls in ('WeightedSamples', 'Chains'):
        for n in (2, 3) + ((4,) if big else ()):
            for h in (True, False):
                out.append(Scenario(reweight, dict(n=n, cls=cls, hasL=h)))
            out.append(Scenario(scale, dict(n=n, cls=cls)))
        for fac in range(5):
            out.append(Scenario(cool, dict(n=3 if big else 2, cls=cls, fac=fac)))
        out.append(Scenario(twice, dict(n=3 if big else 2, cls=cls)))
        out.append(Scenario(undo, dict(n=3 if big else 2, cls=cls)))
        out.append(Scenario(intweights, dict(n=2, cls=cls)))
        out.append(Scenario(intcool, dict(n=2, cls=cls)))
        for integer in (False, True):
            out.append(Scenario(zeros, dict(n=3 if big else 2, cls=cls, integer=integer, hasL=not integer)))
    return out
