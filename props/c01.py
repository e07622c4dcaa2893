"""C01 weighted statistics are the weighted-sample definitions."""
from symx.run import Scenario
from props.common import include

BOUNDS = 'up to 3 rows (quick) / 4 rows (thorough), up to 2 parameters, all real weights >=0 with positive total, ' \
         'all real sample values, every boolean row selection, index selections'
OUTSIDE = 'more rows/parameters; rounding'


def make(c, U, n, p, loglikes=True, cls='WeightedSamples'):
    X = c.matrix('x', n, p)
    w = c.reals('w', n, 0)
    L = c.reals('l', n)
    c.assume(c.sum(w) > 0)
    if cls == 'WeightedSamples':
        s = U.chains.WeightedSamples(samples=c.array(X), weights=c.array(w), loglikes=c.array(L) if loglikes else None,
                                     min_weight_ratio=-1)
    else:
        s = U.chains.Chains(samples=c.array(X), weights=c.array(w), loglikes=c.array(L), names=['a', 'b', 'c'][:p],
                            min_weight_ratio=-1)
    return s, X, w, L


def wmean(c, x, w):
    return c.sum([a * b for a, b in zip(x, w)]) / c.sum(w)


def wcov(c, x, y, w):
    mx, my = wmean(c, x, w), wmean(c, y, w)
    return c.sum([b * (a1 - mx) * (a2 - my) for a1, a2, b in zip(x, y, w)]) / c.sum(w)


def col(X, j):
    return [r[j] for r in X]


def basic(c, U, n, p, cls):
    s, X, w, L = make(c, U, n, p, cls=cls)
    names = list(range(p)) if cls == 'WeightedSamples' else ['a', 'b', 'c'][:p]
    c.check_eq(s.get_norm(), c.sum(w), 'norm is the sum of weights')
    for j, nm in enumerate(names):
        x = col(X, j)
        c.check_eq(s.weighted_sum(nm), c.sum([a * b for a, b in zip(x, w)]), 'weighted_sum')
        m = s.mean(nm)
        c.check_eq(m, wmean(c, x, w), 'mean')
        c.observe('mean', m)
        c.check_all_eq(list(s.mean_diff(nm)), [a - wmean(c, x, w) for a in x], 'mean_diff')
        v = s.var(nm)
        c.check_eq(v, wcov(c, x, x, w), 'var')
        c.observe('var', v)
        if n > 2:
            continue
        sd = s.std(nm)
        c.check(sd >= 0, 'std >= 0')
        c.check_eq(sd * sd, wcov(c, x, x, w), 'std^2 == var')
    c.check_eq(s.mean(-1), wmean(c, L, w), 'mean of loglikes')
    c.check_eq(s.mean(-2), wmean(c, w, w), 'mean of weights')
    # arbitrary vectors, not only stored columns
    v = c.array([a + 2 * l for a, l in zip(col(X, 0), L)])
    c.check_eq(s.mean(v), wmean(c, [a + 2 * l for a, l in zip(col(X, 0), L)], w), 'mean of a vector')


def covs(c, U, n, p, cls):
    s, X, w, L = make(c, U, n, p, cls=cls)
    names = list(range(p)) if cls == 'WeightedSamples' else ['a', 'b', 'c'][:p]
    C = s.cov()
    C2 = s.getCov()
    C3 = s.cov(names[::-1])
    for i in range(p):
        for j in range(p):
            ref = wcov(c, col(X, i), col(X, j), w)
            c.check_eq(C[i, j], ref, 'cov')
            c.check_eq(C2[i, j], ref, 'getCov')
            c.check_eq(C3[p - 1 - i, p - 1 - j], ref, 'cov(pars) order')
    c.observe('cov', C)
    c.check_all_eq(list(s.getMeans()), [wmean(c, col(X, j), w) for j in range(p)], 'getMeans')
    c.check_all_eq(list(s.getMeans([p - 1, 0])), [wmean(c, col(X, j), w) for j in (p - 1, 0)], 'getMeans(pars)')
    c.check_all_eq(list(s.getVars()), [wcov(c, col(X, j), col(X, j), w) for j in range(p)], 'getVars')
    sub = s.getCov(1)
    c.check(tuple(sub.shape) == (1, 1), 'getCov(nparam) shape')
    c.check_eq(sub[0, 0], C[0, 0], 'getCov(nparam)')
    sub = s.getCov(pars=[p - 1])
    c.check_eq(sub[0, 0], C[p - 1, p - 1], 'getCov(pars)')
    for o in ([p - 1, 0], [0, p - 1], list(range(p))[::-1]):
        sub = s.getCov(pars=o)
        c.check_all_eq([list(r) for r in sub], [[C[i, j] for j in o] for i in o], 'getCov(pars) in the order asked for')
    d = s.mean_diffs()
    for j in range(p):
        c.check_all_eq(list(d[j]), [a - wmean(c, col(X, j), w) for a in col(X, j)], 'mean_diffs')
    c.check_all_eq(list(s.mean([names[0], names[-1]])), [wmean(c, col(X, 0), w), wmean(c, col(X, p - 1), w)], 'mean(list)')
    c.check_all_eq(list(s.var([names[0], names[-1]])), [C[0, 0], C[p - 1, p - 1]], 'var(list)')


def corr(c, U, n, cls, unit):
    p = 2
    s, X, w, L = make(c, U, n, p, cls=cls)
    if unit:
        for x in w:
            c.assume(c.eq(x, 1))
    ref = [[wcov(c, col(X, i), col(X, j), w) for j in range(p)] for i in range(p)]
    R = s.getCorrelationMatrix()
    R2 = s.corr()
    for A, nm in ((R, 'getCorrelationMatrix'), (R2, 'corr')):
        pos = c.and_(ref[0][0] > 0, ref[1][1] > 0)
        c.check(c.implies(pos, c.and_(c.eq(A[0, 0], 1), c.eq(A[1, 1], 1))), nm + ' unit diagonal')
        c.check_eq(A[0, 1], A[1, 0], nm + ' symmetric')
        c.check(c.implies(pos, c.eq(A[0, 1] * A[0, 1] * ref[0][0] * ref[1][1], ref[0][1] * ref[0][1])), nm + ' value')
        c.check(c.implies(pos, (A[0, 1] > 0) == (ref[0][1] > 0) if c.symbolic else
                          (abs(ref[0][1]) < 1e-12 or (A[0, 1] > 0) == (ref[0][1] > 0))), nm + ' sign')
    # the covariance itself must not have been overwritten by normalising it
    c.check_eq(s.getCov()[0, 1], ref[0][1], 'cov intact after corr')
    # linearity: correlation inputs given as explicit vectors
    C = s.cov([0, c.array(L)])
    c.check_eq(C[0, 1], wcov(c, col(X, 0), L, w), 'cov with vector')


def where(c, U, n, p, mode, cls):
    s, X, w, L = make(c, U, n, p, cls=cls)
    if mode == 'mask':
        keep = [bool(b) for b in c.bools('k', n)]
        import numpy as np
        wh = np.array(keep)
        idx = [i for i in range(n) if keep[i]]
    elif mode == 'cond':
        thr = c.real('t')
        wh = s.samples[:, p - 1] >= thr
        idx = [i for i in range(n) if X[i][p - 1] >= thr]
    else:
        import numpy as np
        k = c.choice('m', n) + 1
        idx = [c.choice('i%d' % i, n) for i in range(min(k, 2))]
        c.assume(len(set(idx)) == len(idx))
        wh = np.array(idx, dtype=int)
    ww = [w[i] for i in idx]
    c.assume(c.sum(ww) > 0)
    c.check_eq(s.get_norm(wh), c.sum(ww), 'norm(where)')
    for j in range(p):
        x = [X[i][j] for i in idx]
        c.check_eq(s.weighted_sum(j, wh), c.sum([a * b for a, b in zip(x, ww)]), 'weighted_sum(where)')
        c.check_eq(s.mean(j, wh), wmean(c, x, ww), 'mean(where)')
        c.check_all_eq(list(s.mean_diff(j, wh)), [a - wmean(c, x, ww) for a in x], 'mean_diff(where)')
        v = s.var(j, wh)
        c.check_eq(v, wcov(c, x, x, ww), 'var(where)')
        c.observe('v', v)
        if n > 2:
            continue
        sd = s.std(j, wh)
        c.check_eq(sd * sd, v, 'std(where)')
    C = s.cov(where=wh)
    D = s.cov([p - 1, 0], where=wh)
    vl = s.var([0, p - 1], wh)
    ml = s.mean([0, p - 1], wh)
    for i in range(p):
        for j in range(p):
            c.check_eq(C[i, j], wcov(c, [X[k][i] for k in idx], [X[k][j] for k in idx], ww), 'cov(where)')
    c.check_eq(D[0, 1], C[p - 1, 0], 'cov(pars, where)')
    c.check_all_eq(list(vl), [C[0, 0], C[p - 1, p - 1]], 'var(list, where)')
    c.check_all_eq(list(ml), [wmean(c, [X[k][0] for k in idx], ww), wmean(c, [X[k][p - 1] for k in idx], ww)],
                   'mean(list, where)')


def unweighted(c, U, n, p):
    X = c.matrix('x', n, p)
    s = U.chains.WeightedSamples(samples=c.array(X))
    one = [1] * n
    c.check_eq(s.get_norm(), n, 'norm')
    c.check_eq(s.mean(0), wmean(c, col(X, 0), one), 'mean default weights')
    c.check_eq(s.cov()[0, p - 1], wcov(c, col(X, 0), col(X, p - 1), one), 'cov default weights')


def scenarios(tier):
    out = []
    big = tier == 'thorough'
    for cls in ('WeightedSamples', 'Chains'):
        for n, p in ((1, 1), (2, 2), (3, 2)) + (((4, 1), (4, 2), (5, 1)) if big else ()):
            out.append(Scenario(basic, dict(n=n, p=p, cls=cls)))
            out.append(Scenario(covs, dict(n=n, p=p, cls=cls)))
        out.append(Scenario(corr, dict(n=2, cls=cls, unit=False)))
        out.append(Scenario(corr, dict(n=3, cls=cls, unit=True)))
        for mode in ('mask', 'cond', 'idx'):
            out.append(Scenario(where, dict(n=2, p=2, mode=mode, cls=cls)))
            out.append(Scenario(where, dict(n=3, p=2, mode=mode, cls=cls)))
            if big:
                out.append(Scenario(where, dict(n=4, p=2, mode=mode, cls=cls)))
    out.append(Scenario(unweighted, dict(n=3, p=2)))
    return out + list(include('c25', tier, 'autocorr', 'length', 'effective', 'uncorrelated'))
