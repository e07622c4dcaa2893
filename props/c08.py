"""C08 statistics always describe the current samples, whatever was computed before they were changed."""
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = '3-4 rows, 2 parameters; statistics are queried, the samples are changed by one or two operations (every pair in the ' \
         'thorough tier), and queried again; all sample values, weights and operation arguments symbolic'
OUTSIDE = 'arrays modified in place by the caller behind the object; kernel density estimates are represented by a stand-in that ' \
          'records the samples it was computed from'


def touch(s, names):
    s.getMeans()
    s.getVars()
    s.getCov()
    s.setDiffs()
    s.mean(0)
    s.get_norm()
    if names:
        s.mean('a')
        s.getParams()


def opn(c, s, name, tag, names):
    n, p = s.samples.shape
    if name == 'filter':
        k = c.choice('k' + tag, n)
        s.filter(np.array([i != k for i in range(n)]))
    elif name == 'reweight':
        s.reweightAddingLogLikes(c.array(c.reals('d' + tag, n, -2, 2)))
    elif name == 'cool':
        s.cool(2)
    elif name == 'change':
        s.changeSamples(c.array(c.matrix('y' + tag, n, p)))
    elif name == 'set':
        s.setSamples(c.array(c.matrix('y' + tag, n, p)), c.array(c.reals('v' + tag, n, 1, 2)), c.array(c.reals('m' + tag, n)),
                     min_weight_ratio=-1)
    elif name == 'burn':
        s.removeBurn(1)
    elif name == 'zeros':
        s.deleteZeros()
    elif name == 'derived':
        s.addDerived(c.array(c.reals('e' + tag, n)), 'd' + tag)
    elif name == 'burnfrac':
        s.removeBurnFraction(0.34)
    elif name == 'single':
        pass
    else:
        raise ValueError(name)


def definitions(c, s, names, label):
    n, p = s.samples.shape
    w = list(s.weights)
    X = [list(r) for r in s.samples]
    N = c.sum(w)
    c.check(s.numrows == n and s.n == p and len(w) == n, label + ': sizes')
    c.check_eq(s.get_norm(), N, label + ': norm')
    sx = [c.sum([w[i] * X[i][j] for i in range(n)]) for j in range(p)]
    m = list(s.getMeans())
    c.check(len(m) == p, label + ': number of means')
    for j in range(p):
        c.check_eq(m[j] * N, sx[j], label + ': getMeans')
        c.check_eq(s.mean(j) * N, sx[j], label + ': mean')
    v = list(s.getVars())
    cov = s.getCov()
    c.check(cov.shape == (p, p), label + ': covariance shape')
    if cov.shape != (p, p):
        return
    for j in range(p):
        sxx = c.sum([w[i] * X[i][j] * X[i][j] for i in range(n)])
        c.check_eq(v[j] * N * N, sxx * N - sx[j] * sx[j], label + ': getVars')
        for k in range(j, p):
            sxy = c.sum([w[i] * X[i][j] * X[i][k] for i in range(n)])
            c.check_eq(cov[j, k] * N * N, sxy * N - sx[j] * sx[k], label + ': getCov')
    d = s.mean_diff(0)
    c.check(len(d) == n, label + ': mean_diff length')
    if len(d) == n:
        c.check_eq(d[0] * N, X[0][0] * N - sx[0], label + ': mean_diff')
    if names:
        nm = s.paramNames.list()
        c.check(len(nm) == p, label + ': names')
        P = s.getParams()
        for j in range(min(p, len(nm))):
            c.check_eq(s.mean(nm[j]) * N, sx[j], label + ': mean by name')
            c.check_all_eq(list(getattr(P, nm[j])), [X[i][j] for i in range(n)], label + ': getParams')
    if s.loglikes is not None and names:
        c.check_eq(s.mean('loglike') * N, c.sum([a * b for a, b in zip(w, list(s.loglikes))]), label + ': mean loglike')


def history(c, U, cls, n, ops):
    X = c.matrix('x', n, 2)
    w = c.reals('w', n, 1, 2)
    L = c.reals('l', n, 0, 3)
    names = cls != 'WeightedSamples'
    kw = dict(names=['a', 'b']) if names else {}
    s = getattr(U.chains, cls)(samples=c.array(X), weights=c.array(w), loglikes=c.array(L), min_weight_ratio=-1, **kw)
    touch(s, names)
    for i, o in enumerate(ops):
        opn(c, s, o, str(i), names)
        if i + 1 < len(ops):
            touch(s, names)
    definitions(c, s, names, '+'.join(ops))


def corr(c, U, op):
    """the cached correlation matrix: off-diagonal squared equals cov^2/(var var) of the current samples"""
    n = 4
    s = U.chains.WeightedSamples(samples=c.array([[1., 2], [2, 1], [4, 9], [3, -3]]), weights=c.array([1., 2, 1, 3]),
                                 loglikes=c.array([1., 2, 1, 4]), min_weight_ratio=-1)
    s.getCorrelationMatrix()
    touch(s, False)
    if op == 'set':
        x, y = c.real('x', -5, 5), c.real('y', -5, 5)
        s.setSamples(c.array([[x, 2], [2, 1], [4, y], [3, 3]]), c.array([1, 2, 1, 1]), None, min_weight_ratio=-1)
    else:
        opn(c, s, op, '0', False)
    C = s.getCov()
    for j in range(2):
        c.assume(C[j, j] > 0)
    r = s.getCorrelationMatrix()
    c.check_eq(r[0, 1] * r[0, 1] * C[0, 0] * C[1, 1], C[0, 1] * C[0, 1], op + ': correlation')
    c.check(c.implies(C[0, 1] > 0, r[0, 1] > 0), op + ': correlation sign')
    c.check(c.implies(C[0, 1] < 0, r[0, 1] < 0), op + ': correlation sign')


class Dens:
    def __init__(self, s, name):
        j = s.paramNames.list().index(name)
        self.sig = [list(s.samples[:, j]), list(s.weights)]


def mcs(c, U, ops, query):
    n = 4
    X = c.matrix('x', n, 1, -20, 20)
    for i in range(1, n):
        c.assume(X[i][0] - X[i - 1][0] >= 1)
    w = c.reals('w', n, 1, 1.01)
    s = U.mcsamples.MCSamples(samples=c.array(X), weights=c.array(w), loglikes=c.array(np.arange(1., n + 1)), names=['a'], ignore_rows=0,
                              settings={'min_weight_ratio': -1, 'contours': '0.5 0.6', 'num_contours': 2})
    calls = []

    def grid(j, **kw):
        nm = j if isinstance(j, str) else s.paramNames.list()[j]
        d = Dens(s, nm)
        s.density1D[nm] = d
        return d

    def marge(par, *a, **kw):
        calls.append(par.name)
        par.sig = Dens(s, par.name).sig

    s.get1DDensityGridData = grid
    s._setMargeLimits = marge
    s.ranges.setRange('a', [-100, 100])

    def ask():
        if query == 'density':
            return s.get1DDensity('a').sig
        if query == 'marge':
            return s.getMargeStats().names[0].sig
        if query == 'cov':
            return s.getCovMat().matrix
        return s.getLikeStats()

    ask()
    for i, o in enumerate(ops):
        if o == 'scale':
            # new likelihoods in the same order
            s.reweightAddingLogLikes(np.arange(n) * 0.001)
        elif o == 'ranges':
            s.setRanges({'a': [-200, 300]})
        else:
            opn(c, s, o, str(i), True)
    r = ask()
    W, XX = list(s.weights), list(s.samples[:, 0])
    label = query + ' after ' + '+'.join(ops)
    N = c.sum(W)
    if query in ('density', 'marge'):
        c.check(len(r[0]) == len(XX), label + ': from the current rows')
        if len(r[0]) == len(XX):
            c.check_all_eq(r[0], XX, label + ': from the current values')
            c.check_all_eq(r[1], W, label + ': from the current weights')
        if 'ranges' in ops:
            c.check(s.getUpper('a') == 300 and s.getLower('a') == -200, label + ': current ranges')
    elif query == 'cov':
        sx = c.sum([a * b for a, b in zip(W, XX)])
        sxx = c.sum([a * b * b for a, b in zip(W, XX)])
        c.check_eq(r[0, 0] * N * N, sxx * N - sx * sx, label + ': current covariance')
    else:
        LL = list(s.loglikes)
        c.check_eq(r.meanLogLike * N, c.sum([a * b for a, b in zip(W, LL)]), label + ': mean')
        c.check_eq(r.logLike_sample, c.min(LL), label + ': best')
        ix = [i for i in range(len(LL)) if float(LL[i]) == min(float(x) for x in LL)][0]
        c.check_eq(r.names[0].bestfit_sample, XX[ix], label + ': best sample')


def chain_gr(c, U):
    """per-chain statistics after the combined samples are reweighted"""
    X = [c.matrix('x%d' % k, 2, 1, -5, 5) for k in range(2)]
    s = U.chains.Chains(names=['a'], min_weight_ratio=-1)
    s.loadChains('r', [c.array(x) for x in X], weights=[c.array([1., 1]) for _ in X], loglikes=[c.array([1., 1]) for _ in X])
    for ch in s.chains:
        ch.getMeans()
    s.makeSingle()
    s.getMeans()
    s.reweightAddingLogLikes(c.array(c.reals('d', 4, -2, 2)))
    W = list(s.weights)
    for x in W:
        c.assume(c.and_(x > 1e-5, x < 1e5))
    for k, ch in enumerate(s.getSeparateChains()):
        ww = W[2 * k:2 * k + 2]
        c.check_eq(ch.getMeans()[0] * c.sum(ww), c.sum([a * b[0] for a, b in zip(ww, X[k])]), 'mean of a chain after reweighting')
    c.check_eq(s.getMeans()[0] * c.sum(W), c.sum([a * b[0] for a, b in zip(W, X[0] + X[1])]), 'mean after reweighting')


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    base = ['filter', 'reweight', 'cool', 'change', 'set', 'burn', 'zeros']
    for cls in ('WeightedSamples', 'Chains'):
        ops = base + (['derived', 'burnfrac'] if cls == 'Chains' else [])
        for o in ops:
            out.append(Scenario(history, dict(cls=cls, n=3, ops=(o,))))
        if cls == 'Chains':
            pairs = [('filter', 'derived'), ('derived', 'filter'), ('reweight', 'filter'), ('burn', 'derived'), ('change', 'reweight')]
            if big:
                pairs = [(a, b) for a in ops for b in ops]
            for p in pairs:
                out.append(Scenario(history, dict(cls=cls, n=3, ops=p)))
    for o in ('filter', 'set', 'burn'):
        out.append(Scenario(corr, dict(op=o)))
    for q in ('density', 'marge', 'cov', 'like'):
        for o in ('filter', 'scale', 'burn') + (('ranges',) if q in ('density', 'marge') else ()) + (('derived',) if q == 'density' or big and q == 'marge' else ()):
            out.append(Scenario(mcs, dict(ops=(o,), query=q)))
        out.append(Scenario(mcs, dict(ops=('scale', 'burn'), query=q)))
    out.append(Scenario(chain_gr, dict()))
    return out
