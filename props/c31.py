"""C31 Gaussian mixture models: density, marginal and conditional mixtures, moments and simulated samples are those of the stated mixture."""
import math
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples', 'getdist.gaussian_mixtures']
BOUNDS = '1-3 components in 1-3 dimensions; every mean, weight and limit, with fixed covariances of several shapes; every fixed parameter value and ' \
         'position; every value of the random draws of up to 4 samples'
OUTSIDE = 'quality of the random numbers; densities at symbolic covariances'

COVS = {1: [[[4.]], [[0.25]], [[1.]]],
        2: [[[1., 0.5], [0.5, 4.]], [[2., -1.], [-1., 1.]], [[0.25, 0.], [0., 1.]]],
        3: [[[2., 0.5, 0.25], [0.5, 1., -0.25], [0.25, -0.25, 4.]], [[1., 0., 0.5], [0., 2., 1.], [0.5, 1., 2.]], [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]]}


def near(c, a, b, t=1e-9):
    s = t * (1 + abs(b)) if isinstance(b, float) else t * (1 + abs(b))
    return c.and_(c.le(a - b, s), c.le(b - a, s))


def mixture(c, U, dim, n, symm=True, symw=True, lims=None, names=None, means=None):
    G = U('getdist.gaussian_mixtures')
    M = means or [[c.real('m%d%d' % (k, i), -2, 2) if symm and (k, i) in ((0, 0), (1, dim - 1)) else 0.5 * k - i for i in range(dim)]
                  for k in range(n)]
    W = None if symw is None else [c.real('w%d' % k, 0.5, 2) if symw and k == 0 else 1. + k for k in range(n)]
    kw = dict(names=names or ['p%d' % i for i in range(dim)], labels=['l%d' % i for i in range(dim)])
    m = G.MixtureND(c.array(M), COVS[dim][:n], None if W is None else c.array(W), lims=lims, **kw)
    if W is None:
        W = [1.] * n
    t = c.sum(W)
    return G, m, M, [w / t for w in W]


def moments(c, U, dim, n, symw):
    G, m, M, W = mixture(c, U, dim, n, True, symw)
    for k in range(n):
        c.check(near(c, m.weights[k], W[k]), 'normalised weights')
    mean = [c.sum([w * x[i] for w, x in zip(W, M)]) for i in range(dim)]
    for i in range(dim):
        c.check(near(c, m.total_mean[i], mean[i]), 'mean of the mixture')
        for j in range(dim):
            cov = c.sum([w * (COVS[dim][k][i][j] + (x[i] - mean[i]) * (x[j] - mean[j])) for k, (w, x) in enumerate(zip(W, M))])
            c.check(near(c, m.total_cov[i][j], cov), 'covariance of the mixture', (i, j))


def gauss(c, mean, cov, x):
    """density of one component at x"""
    ic = np.linalg.inv(np.array(cov))
    d = [a - b for a, b in zip(x, mean)]
    q = c.sum([float(ic[i][j]) * d[i] * d[j] for i in range(len(d)) for j in range(len(d))])
    return c.exp(-q / 2) / ((2 * math.pi) ** (len(d) / 2.) * math.sqrt(np.linalg.det(np.array(cov))))


def density(c, U, dim, n, how):
    """value of the density at points"""
    G, m, M, W = mixture(c, U, dim, n, False, True)
    pts = [[0.5 * i + 0.25 * k for i in range(dim)] for k in range(2)]
    if how == 'one':
        r = [m.pdf(c.array(p)) for p in pts]
    elif how == 'many':
        r = m.pdf(c.array(pts))
    else:
        m2 = G.Mixture2D(M, COVS[2][:n], c.array([w * 3 for w in W]))
        r = m2.pdf(c.array([p[0] for p in pts]), c.array([p[1] for p in pts]))
        c.check_eq(len(r), 2, 'one value for each point')
    for p, v in zip(pts, r):
        c.check(near(c, v, c.sum([w * gauss(c, mu, cov, p) for w, mu, cov in zip(W, M, COVS[dim])])), 'density of the mixture')


def marginal(c, U, dim, n, keep, by, lims):
    L = None
    if lims:
        L = [[None, None] for _ in range(dim)]
        L[keep[0]] = [c.real('lo', -9, -5), c.real('hi', 5, 9)]
    G, m, M, W = mixture(c, U, dim, n, True, True, lims=L)
    sel = [m.names[i] if by == 'name' else m.paramNames.names[i] if by == 'info' else i for i in keep]
    r = m.marginalizedMixture(sel, label='q')
    c.check(r.names == ['p%d' % i for i in keep] and r.paramNames.labels() == ['l%d' % i for i in keep] and r.label == 'q', 'names and labels')
    c.check(r.dim == len(keep) and len(r.covs) == n, 'size')
    for k in range(n):
        c.check(near(c, r.weights[k], W[k]), 'weights')
        for a, i in enumerate(keep):
            c.check(near(c, r.means[k][a], M[k][i]), 'means')
            for b, j in enumerate(keep):
                c.check(near(c, r.covs[k][a][b], COVS[dim][k][i][j]), 'covariances')
    if lims:
        lo, hi = L[keep[0]]
        c.check_eq(r.getLower('p%d' % keep[0]), lo, 'lower limit')
        c.check_eq(r.getUpper('p%d' % keep[0]), hi, 'upper limit')
        if len(keep) > 1:
            c.check(r.getLower('p%d' % keep[1]) is None and r.getUpper('p%d' % keep[1]) is None, 'no limits')
        if dim > 1:
            other = [i for i in range(dim) if i != keep[0]]
            c.check(c.raises(lambda: m.marginalizedMixture(other)), 'limits of parameters integrated over are refused')
            ok = m.marginalizedMixture(other, no_limit_marge=True)
            c.check(ok.names == ['p%d' % i for i in other], 'unless accepted')


def marg1d(c, U, dim, n, i, by, lims):
    """one-dimensional marginal density on a grid"""
    G, m, M, W = mixture(c, U, dim, n, False, True)
    L = None
    if lims:
        L = [[None, None] for _ in range(dim)]
        L[(i + 1) % dim] = [-4., 4.]
        m.lims = L
        c.check(c.raises(lambda: m.pdf_marged(i, 0.5)) and c.raises(lambda: m.density1D(i, num_points=3)), 'limits of others are refused')
    sel = m.names[i] if by == 'name' else i
    kw = dict(no_limit_marge=True) if lims else {}
    want = lambda x: c.sum([w * gauss(c, [mu[i]], [[cov[i][i]]], [x]) for w, mu, cov in zip(W, M, COVS[dim])])
    v = m.pdf_marged(sel, c.array([0.25, -0.5]), **kw)
    for x, y in zip([0.25, -0.5], v):
        c.check(near(c, y, want(x)), 'marginal density')
    d = m.density1D(sel, num_points=5, sigma_max=2, **kw)
    c.check(len(d.x) == 5, 'grid')
    lo = min(mu[i] - 2 * math.sqrt(cov[i][i]) for mu, cov in zip(M, COVS[dim]))
    hi = max(mu[i] + 2 * math.sqrt(cov[i][i]) for mu, cov in zip(M, COVS[dim]))
    c.check(near(c, d.x[0], lo) and near(c, d.x[-1], hi), 'range covers every component')
    for x, y in zip(d.x, d.P):
        c.check(near(c, y, want(float(x))), 'marginal density on the grid')


def dens2d(c, U, dim, n, params):
    G, m, M, W = mixture(c, U, dim, n, False, True)
    d = m.density2D(params, num_points=3, xmin=-1., xmax=1., ymin=0., ymax=2.)
    i, j = [m.names.index(p) if isinstance(p, str) else p for p in params or (0, 1)]
    c.check(np.shape(d.P) == (3, 3), 'grid')
    for a, y in enumerate([0., 1., 2.]):
        for b, x in enumerate([-1., 0., 1.]):
            want = c.sum([w * gauss(c, [mu[i], mu[j]], [[cov[i][i], cov[i][j]], [cov[j][i], cov[j][j]]], [x, y])
                          for w, mu, cov in zip(W, M, COVS[dim])])
            c.check(near(c, d.P[a][b], want), 'density of the pair')


def conditional(c, U, dim, n, fix, by, symm):
    means = None
    c.exact_logs()
    if not symm:
        means = [[0.25 * k - 0.5 * i for i in range(dim)] for k in range(n)]
    G, m, M, W = mixture(c, U, dim, n, symm, True, means=means)
    vals = [0.5 - 0.75 * k for k in range(len(fix))]
    if symm:
        vals[0] = c.real('v', -1, 1)
    keep = [i for i in range(dim) if i not in fix]
    sel = [m.names[i] if by == 'name' else i for i in fix]
    r = m.conditionalMixture(sel, c.array(vals), label='q')
    c.check(r.names == ['p%d' % i for i in keep] and r.paramNames.labels() == ['l%d' % i for i in keep], 'names and labels')
    wts = []
    for k in range(n):
        C = np.array(COVS[dim][k])
        ff, kf, kk = C[np.ix_(fix, fix)], C[np.ix_(keep, fix)], C[np.ix_(keep, keep)]
        A = kf.dot(np.linalg.inv(ff))
        S = kk - A.dot(kf.T)
        d = [v - M[k][i] for v, i in zip(vals, fix)]
        for a, i in enumerate(keep):
            c.check(near(c, r.means[k][a], M[k][i] + c.sum([float(A[a][b]) * d[b] for b in range(len(fix))])), 'conditional mean')
            for b in range(len(keep)):
                c.check(near(c, r.covs[k][a][b], float(S[a][b])), 'conditional covariance')
        if not symm:
            wts.append(W[k] * gauss(c, [M[k][i] for i in fix], ff, vals))
    if not symm:
        t = c.sum(wts)
        for k in range(n):
            c.check(near(c, r.weights[k] * t, wts[k], 1e-7), 'weights of the components given the fixed values')
    elif n == 1:
        c.check(near(c, r.weights[0], 1.), 'weight')
    c.check(c.raises(lambda: m.conditionalMixture(list(range(dim)), [0.] * dim)), 'at least one parameter is left')


def limits(c, U, dim, kind):
    """limits of named parameters and automatic ranges"""
    G = U('getdist.gaussian_mixtures')
    lo, hi = c.real('lo', -6, -1), c.real('hi', 1, 6)
    a, b = c.real('a', -1, 1), c.real('b', -1, 1)
    if kind == '1d':
        m = G.Mixture1D([a, b], [1., 2.], xmin=lo, xmax=hi, name='z')
        L = [(lo, hi)]
        sig = [[1.], [2.]]
        mu = [[a], [b]]
        c.check(m.names == ['z'], 'name')
    elif kind == '1dlo':
        m = G.Mixture1D([a, b], [1., 2.], lims=[lo, None], name='z')
        L = [(lo, None)]
        sig = [[1.], [2.]]
        mu = [[a], [b]]
    else:
        m = G.Mixture2D(c.array([[a, b], [b, 0.]]), [[2., 1., 0.5], [[0.25, 0.], [0., 1.]]], lims=[(lo, None), (None, 9.)] if kind == 'lims' else None,
                        xmax=hi if kind == 'xmax' else None, ymin=lo if kind != 'lims' else None)
        L = [(lo, None), (None, 9.)] if kind == 'lims' else [(None, hi if kind == 'xmax' else None), (lo, None)]
        sig = [[2., 1.], [0.5, 1.]]
        mu = [[a, b], [b, 0.]]
        c.check(near(c, m.covs[0][0][1], 1.) and near(c, m.covs[0][0][0], 4.) and near(c, m.covs[0][1][1], 1.), 'covariance from errors and correlation')
    for i, nm in enumerate(m.names):
        for got, want in ((m.getLower(nm), L[i][0]), (m.getUpper(nm), L[i][1])):
            c.check(got is None if want is None else got is not None and bool(c.eq(got, want)), 'limit of each parameter', (nm, got, want))
    r = m.autoRanges(3)
    for i, (x, y) in enumerate(r):
        w0, w1 = L[i]
        if w0 is not None:
            c.check_eq(x, w0, 'range starts at the limit')
        else:
            c.check(c.and_(*[c.le(x, q[i] - 3 * s[i]) for q, s in zip(mu, sig)]), 'range covers every component')
        if w1 is not None:
            c.check_eq(y, w1, 'range ends at the limit')
        else:
            c.check(c.and_(*[c.le(q[i] + 3 * s[i], y) for q, s in zip(mu, sig)]), 'range covers every component')


class Draws(np.random.Generator):
    """random numbers given by the scenario"""

    def set(self, c, dim, counts):
        self.c, self.dim, self.counts, self.rows, self.calls = c, dim, list(counts), [], 0
        return self

    def multinomial(self, n, p, size=None):
        k = self.counts.pop(0) if self.counts else [n] + [0] * (len(p) - 1)
        self.asked = getattr(self, 'asked', []) + [(n, sum(k))]
        return np.array(k)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        out = []
        for _ in range(int(size)):
            self.calls += 1
            r = [self.c.real('z%d_%d' % (self.calls, i), -3, 3) if self.calls <= 4 else 0.125 * (self.calls % 7) for i in range(self.dim)]
            self.rows.append((r, mean))
            out.append(r)
        return self.c.array(out)

    def permutation(self, x, axis=0):
        return x[::-1]


def simulate(c, U, dim, counts, size, lims):
    """samples stay within the limits and there are as many as asked for"""
    G = U('getdist.gaussian_mixtures')
    L = [(c.real('lo', -1, 0) if lims in ('lo', 'both') else None, 1. if lims in ('hi', 'both') else None)] + [(None, None)] * (dim - 1)
    m = G.MixtureND(c.array([[0.5 * k] * dim for k in range(2)]), COVS[dim][:2], lims=None if lims is None else L)
    g = Draws(np.random.PCG64(1)).set(c, dim, counts)
    s = m.sim(size, random_state=g)
    c.check(np.shape(s) == (size, dim), 'number of samples', np.shape(s))
    for row in s:
        if L[0][0] is not None:
            c.check(row[0] >= L[0][0], 'lower limit')
        if L[0][1] is not None:
            c.check(row[0] <= L[0][1], 'upper limit')
        c.check(c.or_(*[c.and_(*[c.eq(a, b) for a, b in zip(row, r)]) for r, _ in g.rows]), 'every sample is one that was drawn')
    if lims is None:
        for r, _ in g.rows[:size]:
            c.check(c.or_(*[c.and_(*[c.eq(a, b) for a, b in zip(row, r)]) for row in s]), 'all draws are used')


def samples(c, U, dim, like):
    """mixtures as sets of samples"""
    G = U('getdist.gaussian_mixtures')
    names = ['u%d' % i for i in range(dim)]
    pts = [[0.5 * i - 0.25 * k * (-1) ** k for i in range(1, dim + 1)] for k in range(4)]
    cls = {1: lambda: G.Mixture1D([0., 1.], [1., 0.5], name='u0', xmin=-3.), 2: lambda: G.Mixture2D([[0., 1.], [1., 0.]], COVS[2][:2], names=names, xmin=-3.),
           3: lambda: G.MixtureND([[0.] * 3, [1.] * 3], COVS[3][:2], names=names, lims=[(-3., None), (None, None), (None, None)])}
    m = cls[dim]()
    m.sim = lambda size, random_state=None: c.array(pts)
    x = c.real('x', -1, 1)
    pts[1][0] = x if not like else pts[1][0]
    s = m.MCSamples(4, logLikes=like, settings={'ignore_rows': 0, 'smooth_scale_1D': 0.5})
    c.check(s.paramNames.list() == names, 'names')
    c.check(np.shape(s.samples) == (4, dim), 'samples')
    for k in range(4):
        for i in range(dim):
            c.check_eq(s.samples[k][i], pts[k][i], 'sample values')
    c.check(s.getLower('u0') == -3. and s.getUpper('u0') is None, 'limits')
    if like:
        c.check(np.shape(s.loglikes) == (4,), 'one likelihood for each sample', np.shape(s.loglikes))
        w = [0.5, 0.5]
        mu = [[0.], [1.]] if dim == 1 else [[0., 1.], [1., 0.]] if dim == 2 else [[0.] * 3, [1.] * 3]
        cov = [[[1.]], [[0.25]]] if dim == 1 else COVS[dim][:2]
        for k in range(4):
            p = c.sum([a * gauss(c, b, d, pts[k]) for a, b, d in zip(w, mu, cov)])
            c.check(near(c, s.loglikes[k], -math.log(p), 1e-8), 'likelihood of each sample')
    else:
        c.check(s.loglikes is None, 'no likelihoods')


def scenarios(tier):
    th = tier == 'thorough'
    for dim in (1, 2, 3):
        for n in (1, 2, 3):
            yield Scenario(moments, dict(dim=dim, n=n, symw=True))
            if n == 2:
                yield Scenario(moments, dict(dim=dim, n=n, symw=None))
            for how in ('one', 'many') + (('xy',) if dim == 2 else ()):
                yield Scenario(density, dict(dim=dim, n=n, how=how))
    for dim, keep, by in [(2, [1], 'name'), (2, [1, 0], 'index'), (3, [2, 0], 'name'), (3, [1], 'info'), (3, [0, 1, 2], 'index')]:
        for lims in (False, True):
            yield Scenario(marginal, dict(dim=dim, n=2, keep=keep, by=by, lims=lims))
    for dim, i, by, lims in [(1, 0, 'index', False), (2, 1, 'name', False), (3, 1, 'index', False), (3, 2, 'name', True), (2, 0, 'index', True)]:
        yield Scenario(marg1d, dict(dim=dim, n=2, i=i, by=by, lims=lims))
    for dim, params in [(2, None), (2, [1, 0]), (3, ['p2', 'p0']), (3, [0, 1])]:
        yield Scenario(dens2d, dict(dim=dim, n=2, params=params))
    for dim, fix, by in [(2, [0], 'name'), (2, [1], 'index'), (3, [1], 'name'), (3, [2, 0], 'index'), (3, [0, 1], 'name')]:
        for n in (1, 2, 3) if th else (1, 2):
            for symm in (False, True):
                yield Scenario(conditional, dict(dim=dim, n=n, fix=fix, by=by, symm=symm))
    for kind in ('1d', '1dlo', 'lims', 'xmax', 'ymin'):
        yield Scenario(limits, dict(dim=2, kind=kind))
    for dim, counts, size, lims in [(1, [[2, 1]], 3, None), (2, [[2, 2]], 4, None), (1, [[2, 1]], 2, 'lo'), (2, [[1, 2]], 2, 'both'), (1, [[0, 2]], 2, 'hi'), (1, [[3, 0]], 3, None)]:
        yield Scenario(simulate, dict(dim=dim, counts=counts + [[2, 3], [1, 4], [3, 2], [1, 1]], size=size, lims=lims))
    for dim in (1, 2, 3):
        for like in (False, True):
            yield Scenario(samples, dict(dim=dim, like=like))
