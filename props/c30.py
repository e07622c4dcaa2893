"""C30 convergence diagnostics are computed from their definitions and reported for the right parameter."""
import os
import re
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = '2-3 chains of 2-24 samples, 1-3 parameters; every value of one or two samples (the others at fixed generic values), every weight of one ' \
         'sample where weights matter, all selections of tests, thresholds and output options'
OUTSIDE = 'more samples; Raftery-Lewis statistics beyond integer-weight failure cases; eigenvalues of more than two correlated parameters'

NUM = re.compile(r'<~\d+~>|[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?')


def near(c, a, b, t):
    return c.and_(c.le(a - b, t), c.le(b - a, t))


def chainset(c, U, X, W, names, derived=(), settings=None):
    P = U.paramnames.ParamNames()
    P.names = [U.paramnames.ParamInfo(name=n, label=n + '_l', derived=n in derived) for n in names]
    st = {'ignore_rows': 0, 'contours': '0.5 0.8', 'smooth_scale_1D': 0.5}
    st.update(settings or {})
    s = U.mcsamples.MCSamples(samples=[c.array(x) for x in X], weights=[c.array(w) for w in W], paramNamesFile=P, settings=st)
    return s


def fixed(n, npar, k):
    return [[((i * 7 + k * 5 + p * 3) % 11) * (1. + p) + 0.25 * i + k for p in range(npar)] for i in range(n)]


def data(c, lens, npar, free, symw):
    X = [fixed(n, npar, k) for k, n in enumerate(lens)]
    W = [[1. + (i + k) % 2 for i in range(n)] for k, n in enumerate(lens)]
    for k, i, p in free:
        X[k][i][p] = c.real('x%d_%d_%d' % (k, i, p), -4, 12)
    if symw:
        W[0][1] = c.real('w', 1, 1.5)
    return X, W


def wmean(c, X, W, p):
    return c.sum([w * x[p] for x, w in zip(X, W)]) / c.sum(W)


def section(t, start):
    i = t.index(start)
    return t[i:].split('\n\n\n')[0].split('\n')


def par_lines(t, title, names):
    """lines of each parameter in a section of the report"""
    ls = t.split('\n')
    i = [k for k, x in enumerate(ls) if title in x][0]
    out = {}
    started = False
    for ln in ls[i + 1:]:
        w = ln.split()
        if w and w[0].rstrip('*') in names:
            started = True
            out.setdefault(w[0].rstrip('*'), []).append(ln)
        elif started:
            break
    return out


def numbers(c, ln, name, n):
    return [c.value(x) for x in NUM.findall(ln[len(name):])[:n]]


def meanvar(c, U, lens, names, derived, free, symw):
    npar = len(names)
    X, W = data(c, lens, npar, free, symw)
    s = chainset(c, U, X, W, names, derived)
    t = s.getConvergeTests(what=('MeanVar',))
    rows = par_lines(t, 'var(chain mean)', names)
    allX, allW = sum(X, []), sum(W, [])
    N = c.sum(allW)
    for p, n in enumerate(names):
        nm = n
        c.check(list(rows) == names and len(rows[nm]) == 1, 'one line for each parameter')
        m = wmean(c, allX, allW, p)
        ms = [wmean(c, x, w, p) for x, w in zip(X, W)]
        between = c.sum([(a - m) * (a - m) for a in ms]) / (len(X) - 1)
        within = c.sum([w * (x[p] - mk) * (x[p] - mk) for xx, ww, mk in zip(X, W, ms) for x, w in zip(xx, ww)]) / N
        v = numbers(c, rows[nm][0], nm, 1)[0]
        r = c.sqrt(between / within)
        c.check(near(c, v, r, 0.5001e-4), 'sqrt(var(mean)/mean(var)) of the parameter', (v, r))
        c.check(rows[nm][0].rstrip().endswith(n + '_l'), 'label')
    c.check('eigenvalues' not in t and 'Split' not in t and 'Raftery' not in t, 'only the tests asked for')


def gelman(c, U, lens, names, derived, free, orth, sub):
    """eigenvalues of var(mean)/mean(var)"""
    npar = len(names)
    X, W = data(c, lens, npar, free, False)
    if orth:
        # two parameters uncorrelated within every chain
        y = [c.real('y%d' % k, 1, 3) for k in range(len(lens))]
        o = [c.real('o%d' % k, -2, 2) for k in range(len(lens))]
        X = [[[a * (k + 1) + o[k], b * y[k] + k] for a, b in ((1., 1.), (1., -1.), (-1., 1.), (-1., -1.))] for k in range(len(lens))]
        W = [[1.] * 4 for _ in lens]
    s = chainset(c, U, X, W, names, derived)
    chains = s.getSeparateChains()
    use = chains[:2] if sub else None
    D = s.getGelmanRubinEigenvalues(chainlist=use)
    worst = s.getGelmanRubin(chainlist=use)
    sel = X[:2] if sub else X
    selW = W[:2] if sub else W
    n = len([x for x in names if x not in derived])
    allX, allW = sum(X, []), sum(W, [])
    B = [[0.] * n for _ in range(n)]
    V = [[0.] * n for _ in range(n)]
    for xx, ww in zip(sel, selW):
        mk = [wmean(c, xx, ww, p) for p in range(n)]
        m = [wmean(c, allX, allW, p) for p in range(n)]
        for a in range(n):
            for b in range(n):
                B[a][b] = B[a][b] + (mk[a] - m[a]) * (mk[b] - m[b]) / (len(sel) - 1)
                V[a][b] = V[a][b] + c.sum([w * (x[a] - mk[a]) * (x[b] - mk[b]) for x, w in zip(xx, ww)]) / c.sum(ww) / len(sel)
    c.check(len(D) == n, 'one value for each non-derived parameter')
    if n == 1:
        c.check(near(c, D[0] * V[0][0], B[0][0], 1e-6), 'var(mean)/mean(var)')
        c.check(near(c, worst, D[0], 1e-9), 'worst')
    else:
        # uncorrelated within the chains: eigenvalues from trace and determinant
        tr = B[0][0] / V[0][0] + B[1][1] / V[1][1]
        det = (B[0][0] * B[1][1] - B[0][1] * B[1][0]) / (V[0][0] * V[1][1])
        c.check(near(c, D[0] + D[1], tr, 1e-6), 'sum of the eigenvalues')
        c.check(near(c, D[0] * D[1], det, 1e-6), 'product of the eigenvalues')
        c.check(c.and_(worst >= D[0], worst >= D[1], c.or_(c.eq(worst, D[0]), c.eq(worst, D[1]))), 'worst')
    if not sub:
        t = s.getConvergeTests(what=('GelmanRubin',))
        ls = t.split('\n')
        i = [k for k, x in enumerate(ls) if 'eigenvalues' in x][0]
        vals = [ln.split() for ln in ls[i + 1:i + 1 + n]]
        c.check([v[0] for v in vals] == [str(k + 1) for k in range(n)], 'numbered')
        for v, d in zip(vals, D):
            c.check(near(c, c.value(v[1]), d, 0.51e-5), 'reported eigenvalue')
        c.check(near(c, s.GelmanRubin, worst, 1e-9), 'worst eigenvalue kept')
        f = os.path.join(c.scratch, 'x.converge')
        t2 = s.getConvergeTests(what=('GelmanRubin',), writeDataToFile=True, filename=f)
        r = U.types.ConvergeStats(f)
        c.check(len(r.R_eigs) == n and near(c, c.value(r.R_eigs[-1]), worst, 0.51e-5) is not False, 'file can be read')
        c.check(near(c, c.value(r.worstR()), worst, 0.51e-5), 'worst value from the file')


def unmoved(c, U):
    """a direction that never moves"""
    a = c.real('a', 1, 3)
    X = [[[1. * i, 2. * i + k] for i in range(3)] for k in range(2)]
    X = [[[x[0] + k * a, 3 * x[0]] for x in xx] for k, xx in enumerate(X)]
    for xx in X:
        for x in xx:
            x[1] = 2. * xx.index(x)
    s = chainset(c, U, X, [[1.] * 3] * 2, ['a', 'b'])
    c.assume(True)
    D = s.getGelmanRubinEigenvalues()
    t = s.getConvergeTests(what=('GelmanRubin', 'MeanVar'))
    c.check(D is None or len(D) == 2, 'eigenvalues')


def split(c, U, n, nw, maxsplit, free, conf):
    """rms change of the quantiles in subsets of the samples"""
    X, W = data(c, (n,), 1, free, False)
    if nw:
        W = [[1., 2., 1.] * (n // 3) + [1.] * (n % 3)]
    for i in range(n):
        for _, j, _ in free:
            if i != j:
                c.assume(c.or_(X[0][i][0] - X[0][j][0] > 1e-3, X[0][j][0] - X[0][i][0] > 1e-3))
    s = chainset(c, U, X, W, ['a'], settings={'converge_test_limit': 0.95})
    s.max_split_tests = maxsplit
    for k in range(2, maxsplit + 1):
        fr = [int(x) for x in s.getFractionIndices(s.weights, k)]
        c.check(fr[0] == 0 and fr[-1] == n and len(fr) == k + 1 and all(a <= b for a, b in zip(fr, fr[1:])), 'subsets', fr)
        tot = sum(W[0])
        for q in range(1, k):
            below = sum(W[0][:fr[q]])
            c.check(below <= tot * q / k + 1e-9 and below + W[0][fr[q]] >= tot * q / k - 1e-9, 'equal weights', fr)
    t = s.getConvergeTests(conf, what=('SplitTest',))
    rows = par_lines(t, 'Split tests', ['a'])['a']
    c.check(len(rows) == 2 and rows[0].rstrip().endswith('upper') and rows[1].rstrip().endswith('lower'), 'upper and lower quantile')
    c.check('limit=%.0f%%' % (100 * conf) in t, 'limit', t[:200])
    xs, w = [x[0] for x in X[0]], W[0]
    m = c.sum([a * b for a, b in zip(w, xs)]) / sum(w)
    var = c.sum([a * (b - m) * (b - m) for a, b in zip(w, xs)]) / sum(w)
    for e, ln in enumerate(rows):
        f = 1 - (1 - conf) / 2 if e == 0 else (1 - conf) / 2
        v = numbers(c, ln, 'a', maxsplit - 1)
        for k in range(2, maxsplit + 1):
            fr = [int(x) for x in s.getFractionIndices(s.weights, k)]
            full = s.confidence(c.array(xs), f)
            d = [s.confidence(c.array(xs), f, start=a, end=b) - full for a, b in zip(fr, fr[1:])]
            sq = c.sum([x * x for x in d]) / k
            r = v[k - 2]
            # |r - sqrt(sq/var)| <= 0.00005
            lo, hi = r - 0.501e-4, r + 0.501e-4
            c.check(c.and_(r >= 0, hi * hi * var >= sq, c.or_(lo <= 0, lo * lo * var <= sq)), 'rms change of the quantile', (r, k))


def corrlen(c, U, lens, free, names, wt, smooth=False):
    """correlation lengths of parameters over several chains"""
    X, W = data(c, lens, len(names), free, False)
    if smooth:
        for k, xx in enumerate(X):
            for i, x in enumerate(xx):
                if (k, i, 0) not in free:
                    x[0] = 0.5 * i + 0.25 * (i % 2) - k
    if not wt:
        W = [[1.] * n for n in lens]
    s = chainset(c, U, X, W, names)
    t = s.getConvergeTests(what=('CorrLengths',))
    rows = par_lines(t, 'autocorrelation lengths', names)
    allX, allW = sum(X, []), sum(W, [])
    N = sum(allW)
    maxoff = min(lens) // 10
    worst = []
    for p, nm in enumerate(names):
        m = wmean(c, allX, allW, p)
        var = c.sum([w * (x[p] - m) * (x[p] - m) for x, w in zip(allX, allW)]) / N
        corr = [0.] * (maxoff + 1)
        for xx, ww in zip(X, W):
            mk = wmean(c, xx, ww, p)
            d = [w * (x[p] - mk) for x, w in zip(xx, ww)]
            n = len(d)
            for k in range(maxoff + 1):
                corr[k] = corr[k] + c.sum([d[i] * d[i + k] for i in range(n - k)]) / (n - k) * n
        corr = [x / (N * var) for x in corr]
        L = corr[0]
        for x in corr[1:]:
            c.assume(c.or_(x > corr[0] * 0.0501, x < corr[0] * 0.0499))
            if not bool(x > 0.05 * corr[0]):
                break
            L = L + 2 * x
        v = numbers(c, rows[nm][0], nm, 3)
        mult = N / len(allX)
        c.check(near(c, v[0], L, L * 0.00501 + 1e-9 if not wt else 0.00501), 'correlation length in weight units', (v, L))
        c.check(near(c, v[1], L / mult, 0.00501), 'correlation length in samples')
        c.check(c.and_(v[2] * L <= N + 1e-6 * N, (v[2] + 1) * L >= N * (1 - 1e-6)), 'effective number of samples', (v, N))
        worst.append(L)
    c.check(near(c, s.indep_thin, c.max(worst), 1e-6), 'worst correlation length kept')


def steps(c, U, lens, thin, free, nsteps):
    """auto-correlations as function of step separation"""
    names = ['a', 'b']
    X, _ = data(c, lens, 2, free, False)
    W = [[1.] * n for n in lens]
    s = chainset(c, U, X, W, names, settings={'corr_length_thin': thin, 'corr_length_steps': nsteps})
    t = s.getConvergeTests(what=('CorrSteps',))
    f = os.path.join(c.scratch, 'x.converge')
    with open(f, 'w') as h:
        h.write(t)
    allX = sum(X, [])
    N = len(allX)
    maxoff = min(nsteps, len(s.thin_indices(thin)) // (2 * len(lens)))
    thinned = [[int(k) for k in ch.thin_indices(thin)] for ch in s.getSeparateChains()]
    maxoff = min([maxoff] + [len(x) // thin for x in thinned])
    ls = t.split('\n')
    i = [k for k, x in enumerate(ls) if 'Parameter auto-correlations' in x][0]
    c.check([int(x) for x in ls[i + 2].split()] == [(k + 1) * thin for k in range(maxoff)], 'separations', ls[i + 2])
    for p, nm in enumerate(names):
        m = c.sum([x[p] for x in allX]) / N
        var = c.sum([(x[p] - m) * (x[p] - m) for x in allX]) / N
        v = numbers(c, [x for x in ls[i:] if x.startswith(nm)][0], nm, maxoff)
        for k in range(1, maxoff + 1):
            r = 0.
            for xx, ix in zip(X, thinned):
                mk = c.sum([x[p] for x in xx]) / len(xx)
                d = [xx[q][p] - mk for q in ix]
                r = r + c.sum([d[q] * d[q + k] for q in range(len(d) - k)]) / (len(d) - k)
            r = r / var / len(lens)
            c.check(near(c, v[k - 1], r, 0.000501), 'auto-correlation of the parameter', (v, r))


def raftery(c, U, which):
    """integer weights only"""
    X, W = data(c, (6, 6), 1, [(0, 1, 0)], False)
    if which == 'noninteger':
        W[0][0] = c.real('w', 1.05, 1.9)
    s = chainset(c, U, X, W, ['a'])
    t = s.getConvergeTests(what=('RafteryLewis',))
    c.check(('Raftery' in t) == (which == 'integer'), 'needs integer weights')
    if which == 'integer':
        ls = t.split('\n')
        i = [k for k, x in enumerate(ls) if 'markov_thin' in x][0]
        c.check([ln.split()[0] for ln in ls[i + 1:i + 3]] == ['0', '1'], 'one line for each chain')


def scenarios(tier):
    th = tier == 'thorough'
    yield Scenario(meanvar, dict(lens=(3, 4), names=['a'], derived=[], free=[(0, 0, 0)], symw=False))
    yield Scenario(meanvar, dict(lens=(3, 2, 4), names=['a', 'b'], derived=['b'], free=[(2, 3, 1)], symw=False))
    yield Scenario(meanvar, dict(lens=(2, 3), names=['a', 'b', 'd'], derived=['d'], free=[(1, 0, 2), (0, 0, 0)], symw=False))
    yield Scenario(gelman, dict(lens=(3, 4), names=['a'], derived=[], free=[(0, 0, 0), (1, 2, 0)], orth=False, sub=False))
    yield Scenario(gelman, dict(lens=(3, 3, 2), names=['a', 'b'], derived=['b'], free=[(0, 0, 0), (1, 2, 0)], orth=False, sub=False))
    yield Scenario(gelman, dict(lens=(3, 3, 2), names=['a'], derived=[], free=[(0, 0, 0), (2, 1, 0)], orth=False, sub=True))
    yield Scenario(gelman, dict(lens=(4, 4), names=['a', 'b'], derived=[], free=[], orth=True, sub=False))
    if th:
        yield Scenario(gelman, dict(lens=(3, 5, 2), names=['a', 'b'], derived=['b'], free=[(0, 1, 0), (2, 1, 0)], orth=False, sub=True))
    for n, nw, ms in [(6, False, 2), (7, True, 3)] + ([(8, False, 3)] if th else []):
        yield Scenario(split, dict(n=n, nw=nw, maxsplit=ms, free=[(0, 2, 0)], conf=0.8))
    yield Scenario(split, dict(n=6, nw=False, maxsplit=2, free=[(0, 5, 0)], conf=0.9))
    yield Scenario(corrlen, dict(lens=(12, 11), free=[(0, 3, 0)], names=['a'], wt=True))
    yield Scenario(corrlen, dict(lens=(22, 24), free=[(1, 3, 0)], names=['a', 'b'], wt=False))
    yield Scenario(corrlen, dict(lens=(22, 24), free=[(1, 3, 0)], names=['a'], wt=False, smooth=True))
    if th:
        yield Scenario(corrlen, dict(lens=(22, 24), free=[(0, 5, 0)], names=['a'], wt=True))
    for thin, ns in [(1, 2), (2, 2), (2, 1)] + ([(3, 2)] if th else []):
        yield Scenario(steps, dict(lens=(9, 12), thin=thin, free=[(0, 2, 1), (1, 4, 0)], nsteps=ns))
    yield Scenario(raftery, dict(which='integer'))
    yield Scenario(raftery, dict(which='noninteger'))
