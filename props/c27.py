"""C27 best fits, likelihood summaries, single samples and combined sets are those of the actual samples and files."""
import os
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = '2-6 samples, 2 parameters, every value and every order of likelihoods and weights (ratios up to 4), every sample value; best-fit ' \
         'files with up to 5 parameters and every value; every subset of common parameters of two sets with any values and weights'
OUTSIDE = 'ties between likelihoods; more samples; values beyond the printed precision'


def build(c, U, X, w, L, names=('a', 'b'), derived=(), cls=None, **kw):
    P = U.paramnames.ParamNames()
    P.names = [U.paramnames.ParamInfo(name=n, label=n + '_l', derived=n in derived) for n in names]
    kw.setdefault('settings', {'ignore_rows': 0, 'contours': '0.5 0.8', 'smooth_scale_1D': 0.5})
    return U.mcsamples.MCSamples(samples=c.array(X), weights=c.array(w), loglikes=None if L is None else c.array(L), paramNamesFile=P, **kw)


def like(c, U, n, conts, symw, symx):
    """N-D regions contain the samples of highest likelihood up to the fraction of the weight"""
    L = c.reals('l', n, 0, 20)
    for i in range(n):
        for j in range(i):
            c.assume(c.not_(c.eq(L[i], L[j])))
    w = [c.real('w0', 1, 4)] + [1. + (i % 2) for i in range(1, n)] if symw else [1. + (i % 3) for i in range(n)]
    X = [[10. * i * (-1) ** i, 3. * i + 0.5] for i in range(n)]
    if symx:
        X[0][0] = c.real('x', -3, 3)
        X[n - 1][1] = c.real('y', 1, 3)
    s = build(c, U, X, w, L, settings={'ignore_rows': 0, 'contours': ' '.join(map(str, conts))})
    m = s.getLikeStats()
    N = c.sum(w)
    order = sorted(range(n), key=lambda i: sum(1 for j in range(n) if bool(L[j] < L[i])))
    best = order[0]
    c.check_eq(m.logLike_sample, L[best], 'likelihood of the best sample')
    mean = c.sum([a * b for a, b in zip(w, L)]) / N
    c.check_eq(m.meanLogLike, mean, 'mean likelihood')
    c.check_eq(m.complexity, 2 * (mean - L[best]), 'complexity')
    c.check(m.list() == ['a', 'b'], 'parameters')
    for j in range(2):
        par = m.names[j]
        c.check_eq(par.bestfit_sample, X[best][j], 'best sample')
        c.check(len(par.ND_limit_bot) >= len(conts[:2]) and len(par.ND_limit_top) >= len(conts[:2]), 'limits of each contour')
        for k, ct in enumerate(conts[:2]):
            # number of best samples below the fraction of the weight
            cum, inside = 0, 0
            for i in order:
                cum = cum + w[i]
                if not bool(cum < N * ct - 1e-9):
                    break
                inside += 1
            c.assume(c.or_(cum > N * ct + 1e-6, cum < N * ct - 1e-6))
            sel = order[:max(inside, 1)]
            alt = order[:inside + 1]
            lo, hi = c.min([X[i][j] for i in sel]), c.max([X[i][j] for i in sel])
            lo2, hi2 = c.min([X[i][j] for i in alt]), c.max([X[i][j] for i in alt])
            # the sample the fraction falls on may count or not
            c.check(c.or_(c.and_(c.eq(par.ND_limit_bot[k], lo), c.eq(par.ND_limit_top[k], hi)),
                          c.and_(c.eq(par.ND_limit_bot[k], lo2), c.eq(par.ND_limit_top[k], hi2))), 'range of the best samples',
                    (par.ND_limit_bot[k], par.ND_limit_top[k], lo, hi))
    d = s.getParamBestFitDict(best_sample=True)
    c.check_eq(d['a'], X[best][0], 'best sample by name')
    c.check_eq(d['b'], X[best][1], 'best sample by name')
    c.check_eq(d['loglike'], L[best], 'its likelihood')
    c.check_eq(d['weight'], w[best], 'its weight')
    t = str(m)
    c.check(t.count('\na ') + t.count('\nb ') == 2, 'one line for each parameter')


def means(c, U, n):
    """mean likelihood and mean inverse likelihood"""
    L = [c.logreal('l%d' % i) for i in range(n)]
    for a, b in zip(L, L[1:]):
        c.assume(b > a)
    c.assume(L[-1] - L[0] < 20)
    w = c.reals('w', n, 1, 1.01)
    X = [[float(i), 2. * i] for i in range(n)]
    s = build(c, U, X, w, L, settings={'ignore_rows': 0, 'contours': '0.5 0.8', 'smooth_scale_1D': 0.5})
    m = s.getLikeStats()
    N = c.sum(w)
    c.check_eq(m.logMeanLike, L[0] - c.log(c.sum([a * c.exp(L[0] - b) for a, b in zip(w, L)]) / N), '-log of the mean likelihood')
    c.check_eq(m.logMeanInvLike, L[0] + c.log(c.sum([a * c.exp(b - L[0]) for a, b in zip(w, L)]) / N), 'log of the mean inverse likelihood')


def nolike(c, U):
    X = c.matrix('x', 2, 2, -5, 5)
    c.assume(X[1][0] > X[0][0] + 1)
    c.assume(X[1][1] > X[0][1] + 1)
    s = build(c, U, X, [1., 1.5], None)
    c.check(s.getLikeStats() is None, 'no likelihood statistics without likelihoods')
    d = s.getParamSampleDict(1)
    c.check(sorted(d) == ['a', 'b', 'weight'], 'values of a sample', sorted(d))
    c.check_eq(d['a'], X[1][0], 'value')


def sample(c, U, ix, derived, fixed):
    n = 3
    X = [[1., 5.], [2., 7.], [4., 6.]]
    X[ix] = [c.real('x', -9, 9), c.real('y', -9, 9)]
    L = [3., 2., 4.]
    L[ix] = c.real('l', 5, 6)
    w = [1., 1.5, 1.25]
    w[ix] = c.real('w', 1, 1.5)
    f = c.real('f')
    s = build(c, U, X, w, L, derived=('b',), ranges={'q': (f, f), 'a': (-9, None)} if fixed else None)
    d = s.getParamSampleDict(ix, want_derived=derived, want_fixed=True)
    want = {'a': X[ix][0], 'weight': w[ix], 'loglike': L[ix]}
    if derived:
        want['b'] = X[ix][1]
    if fixed:
        want['q'] = f
    c.check(sorted(d) == sorted(want), 'names', (sorted(d), sorted(want)))
    for k in want:
        c.check_eq(d[k], want[k], 'value of ' + k)
    d = s.getParamSampleDict(ix, want_derived=derived, want_fixed=False)
    c.check('q' not in d, 'without fixed parameters')


def num(c, v):
    return '%.7E' % v


def bestfile(c, U, weight, chi2, nfixed, nder, likes, max_post, empty):
    """best-fit files as written by the minimiser"""
    v = c.reals('v', 2 + nder + nfixed, -100, 100)
    ll = c.real('like', 0, 1e4)
    root = os.path.join(c.scratch, 'run')
    lines = []
    if weight:
        lines.append('     weight = ' + c.put(3.5))
    lines.append('-log(Like) = ' + c.put(ll))
    if chi2:
        lines.append(' chi-sq   = ' + c.put(2 * ll))
    lines.append('')
    pos = [('a', 'A_l a', False), ('b', 'B', False)] + [('d%d' % i, 'D', True) for i in range(nder)]
    k = 0
    free = []
    for nm, lab, der in pos[:2]:
        lines.append('%5d  %s   %-22s %s' % (k + 1, c.put(v[k]), nm, '' if empty and nm == 'b' else lab))
        free.append((nm, '' if empty and nm == 'b' else lab, False, v[k], k + 1))
        k += 1
    lines.append('')
    fixed = []
    for i in range(nfixed):
        lines.append('%5d  %s   %-22s %s' % (k + 1, c.put(v[k]), 'f%d' % i, 'F'))
        fixed.append(('f%d' % i, 'F', v[k]))
        k += 1
    lines.append('')
    for nm, lab, der in pos[2:]:
        lines.append('%5d  %s   %-22s %s' % (k + 1, c.put(v[k]), nm, lab))
        free.append((nm, lab, True, v[k], k + 1))
        k += 1
    parts = []
    if likes:
        cs = c.reals('chi', 3, 0, 1e4)
        lines += ['', ' -log(Like)     chi-sq   data']
        which = [('CMB', None, 'TT: v 1'), ('BAO', '6DF', 'six'), ('', None, 'other')]
        for q, (kind, tag, nm) in zip(cs, which if likes is True else which[:likes]):
            lines.append('%s  %s   %s' % (c.put(q / 2), c.put(q), ((kind + ': ') if kind else '') + (tag + ' = ' if tag else '') + nm))
            parts.append((kind, tag, nm, q))
    open(root + ('.minimum' if max_post else '.bestfit'), 'w').write('\n'.join(lines) + '\n')
    other = root + ('.bestfit' if max_post else '.minimum')
    open(other, 'w').write('-log(Like) = 1\n\n    1  77.5  a   x\n')
    s = build(c, U, [[0., 1.], [1., 0.], [2., 3.]], [1., 1.25, 1.], [1., 2., 3.], ranges={'f0': (5, 5)} if nfixed else None)
    s.root = root
    bf = s.getBestFit(max_posterior=max_post)
    c.check(close(c, bf.logLike, ll), 'likelihood')
    c.check(bf.list() == [f[0] for f in free], 'parameters', (bf.list(), [f[0] for f in free]))
    if bf.list() == [f[0] for f in free]:
        for par, (nm, lab, der, x, number) in zip(bf.names, free):
            c.check(close(c, par.best_fit, x), 'value of ' + nm)
            c.check(par.label == lab and bool(par.isDerived) == der and par.number == number, 'label and number of ' + nm,
                    (par.label, par.isDerived, par.number))
    if likes:
        got = [(kind, q.tag, q.name) for kind, q in bf.chiSquareds]
        c.check(got == [p[:3] for p in parts], 'likelihoods of each part', (got, [p[:3] for p in parts]))
        if len(got) == len(parts):
            for (kind, q), p in zip(bf.chiSquareds, parts):
                c.check(close(c, q.chisq, p[3]), 'chi-squared of each part')
                c.check(close(c, bf.chiSquareForKindName(p[0], p[2]), p[3]), 'chi-squared by name')
        c.check([k for k, _ in bf.sortedChiSquareds()] == sorted(p[0] for p in parts), 'parts by kind')
    else:
        c.check(bf.chiSquareds == [], 'no parts')
    for der in (True, False):
        d = s.getParamBestFitDict(want_derived=der, want_fixed=bool(nfixed), max_posterior=max_post)
        want = {f[0]: f[3] for f in free if der or not f[2]}
        want['loglike'] = ll
        want['weight'] = 1
        if nfixed:
            want['f0'] = 5
        c.check(sorted(d) == sorted(want), 'names of the best fit', (sorted(d), sorted(want)))
        for k in want:
            if k in d:
                c.check(close(c, d[k], want[k]), 'best fit of ' + k)
    b2 = U.types.BestFit(root + ('.minimum' if max_post else '.bestfit'), want_fixed=True)
    c.check([p.name for p in b2.names] == [f[0] for f in free[:2]] + [f[0] for f in fixed] + [f[0] for f in free[2:]], 'with fixed parameters')
    for nm, lab, x in fixed:
        c.check(close(c, b2.parWithName(nm).best_fit, x), 'value of a fixed parameter')
    if not max_post:
        return
    m = s.getMargeStats(include_bestfit=True)
    c.check(m.list() == ['a', 'b'], 'results with best fit')
    for par in m.names:
        c.check(close(c, par.best_fit, dict((f[0], f[3]) for f in free)[par.name]), 'best fit beside the mean')


def close(c, a, b):
    d = a - b
    h = abs(b) * 1e-5 + 1e-9
    return c.and_(c.le(d, h), c.le(-d, h))


def combine(c, U, names2, weights, likes, n):
    X = [[1., 5.], [2., 7.], [4., 6.]][:n]
    Y = [[float(i + 1 + (j * i) % 3) for j in range(len(names2))] for i in range(2)]
    X[0][0] = c.real('x', -9, 0)
    Y[1][0] = c.real('y', 20, 29)
    w, v = [1.] * n, [1., 1.]
    w[0], v[0] = c.real('w', 1, 1.5), c.real('v', 1, 1.5)
    L = [3., 2., 4.][:n] if likes != 'second' else None
    K = [1., 2.5] if likes != 'first' else None
    s = build(c, U, X, w, L, derived=('b',))
    t = build(c, U, Y, v, K, names=names2, derived=('b',))
    r = s.getCombinedSamplesWithSamples(t) if weights == 'default' else s.getCombinedSamplesWithSamples(t, sample_weights=weights)
    common = [k for k in names2 if k in ('a', 'b')]
    c.check(sorted(r.paramNames.list()) == sorted(common), 'common parameters')
    c.check(r.numrows == n + 2, 'all samples of both')
    for k in common:
        j, l = ('a', 'b').index(k), names2.index(k)
        c.check_all_eq(list(r[k]), [q[j] for q in X] + [q[l] for q in Y], 'values of ' + k)
        p = r.paramNames.parWithName(k)
        c.check(p.label == k + '_l' and bool(p.isDerived) == (k == 'b'), 'label')
    if weights is None:
        c.check_all_eq(list(r.weights), w + v, 'weights')
    else:
        f = (1, 1) if weights == 'default' else weights
        S, T = c.sum(w), c.sum(v)
        W = list(r.weights)
        for i in range(n + 2):
            for k in range(i):
                wi, wk = [(w[q] * f[0] / S if q < n else v[q - n] * f[1] / T) for q in (i, k)]
                c.check_eq(W[i] * wk, W[k] * wi, 'weight of each set')
    if likes == 'both':
        c.check_all_eq(list(r.loglikes), L + K, 'likelihoods')
    else:
        c.check(r.loglikes is None, 'no likelihoods')
    c.check_all_eq(list(s['a']), [q[0] for q in X], 'first set unchanged')
    c.check_all_eq(list(s.weights), w, 'first set unchanged')
    c.check_all_eq(list(t.weights), v, 'second set unchanged')


def scenarios(tier):
    th = tier == 'thorough'
    for n, conts, symw, symx in [(3, (0.5, 0.8), True, True), (4, (0.68, 0.95), False, True), (3, (0.4,), True, False), (2, (0.68, 0.95, 0.99), True, True)] + \
            ([(4, (0.5, 0.8), True, True), (5, (0.68, 0.95), False, False)] if th else []):
        yield Scenario(like, dict(n=n, conts=conts, symw=symw, symx=symx))
    for n in (2, 3):
        yield Scenario(means, dict(n=n))
    yield Scenario(nolike, {})
    for ix in range(3):
        for derived in (True, False):
            yield Scenario(sample, dict(ix=ix, derived=derived, fixed=ix != 1))
    for weight, chi2, nfixed, nder, likes, mp, empty in [(False, True, 1, 1, True, True, False), (True, True, 2, 2, True, False, False),
                                                         (False, False, 1, 0, False, True, True), (False, True, 0, 1, False, True, False),
                                                         (False, True, 0, 0, True, True, True), (False, True, 1, 1, 1, True, False),
                                                         (True, False, 0, 0, 2, False, False)]:
        yield Scenario(bestfile, dict(weight=weight, chi2=chi2, nfixed=nfixed, nder=nder, likes=likes, max_post=mp, empty=empty))
    for names2 in (('a', 'b'), ('b', 'a'), ('b', 'q'), ('q', 'b', 'a')):
        for weights in ('default', None, (1, 3)):
            yield Scenario(combine, dict(names2=names2, weights=weights, likes='both', n=2))
    for likes in ('first', 'second'):
        yield Scenario(combine, dict(names2=('b', 'a'), weights='default', likes=likes, n=3))
