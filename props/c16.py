"""C16 samples written as text load back as the same samples."""
import os
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = '2-3 rows, 1-3 parameters, 1-2 chains, all sample values, weights, likelihoods and limits symbolic'
OUTSIDE = 'larger tables; values beyond the printed precision (9 significant digits); burn-in removed on loading (see C06); rows of negligible weight (see C02)'


def close(c, a, b, rel=1e-7):
    d, h = a - b, abs(b) * rel + 1e-12
    return c.and_(d <= h, -d <= h)


def data(c, n, p, tag='', l0=10, sym=True):
    if not sym:
        # mostly concrete: one symbolic value, one symbolic weight per chain
        X = [[0.25 + i + 0.375 * j * (i - 1) + l0 for j in range(p)] for i in range(n)]
        X[0][0] = c.real('x' + tag, l0, l0 + 0.5)
        w = [c.real('w' + tag, 1, 1.5)] + [1.25] * (n - 1)
        return X, w, [l0 + 0.75 * i for i in range(n)]
    X = c.matrix('x' + tag, n, p, 1, 3)
    for i in range(1, n):
        for j in range(p):
            c.assume(X[i][j] - X[i - 1][j] > 0.1)
    w = c.reals('w' + tag, n, 1, 1.5)
    L = c.reals('l' + tag, n, l0, l0 + 10)
    for a, b in zip(L[1:], L):
        c.assume(a > b + 0.01)
    return X, w, L


def make(c, U, names, derived, X, w, L, **kw):
    P = U.paramnames.ParamNames()
    P.names = [U.paramnames.ParamInfo(name=n, label=n + '_l', derived=d, comment='about ' + n) for n, d in zip(names, derived)]
    kw.setdefault('settings', {'ignore_rows': 0})
    arr = lambda v: None if v is None else ([c.array(a) for a in v] if kw.get('_many') else c.array(v))
    many = kw.pop('_many', False)
    if many:
        s = U.mcsamples.MCSamples(paramNamesFile=P, **kw)
        s.readChains([c.array(a) for a in X], [c.array(a) for a in w], [c.array(a) for a in L])
        return s
    return U.mcsamples.MCSamples(samples=c.array(X), weights=c.array(w), loglikes=None if L is None else c.array(L), paramNamesFile=P, **kw)


def rows_close(c, s, X, w, L, label):
    c.check(s.samples is not None and tuple(s.samples.shape) == (len(X), len(X[0])), label + ': number of rows and parameters')
    if s.samples is None or tuple(s.samples.shape) != (len(X), len(X[0])):
        return
    for i in range(len(X)):
        for j in range(len(X[0])):
            c.check(close(c, s.samples[i, j], X[i][j]), label + ': sample value')
        c.check(close(c, s.weights[i], w[i]), label + ': weight')
        c.check(close(c, s.loglikes[i], 0 if L is None else L[i]), label + ': likelihood')


def names_same(c, s, names, derived, label):
    got = [(p.name, p.label, bool(p.isDerived)) for p in s.paramNames.names]
    c.check(got == [(n, n + '_l', d) for n, d in zip(names, derived)], label + ': names, labels and derived flags in order', [got])


def load(c, U, root, how, **kw):
    kw.setdefault('settings', {'ignore_rows': 0})
    if how == 'load':
        return U.mcsamples.loadMCSamples(root, no_cache=True, **kw)
    if how == 'chains':
        s = U.chains.Chains(root, min_weight_ratio=-1)
        s.loadChains(root, U.chains.chainFiles(root))
        s.makeSingle()
        return s
    if how == 'file':
        return U.chains.WeightedSamples(root + '.txt', min_weight_ratio=-1)
    s = U.mcsamples.MCSamples(root, **kw)
    s.readChains(U.chains.chainFiles(root))
    return s


def single(c, U, n, p, derived, how, loglikes=True, label=None, sampler=None, suffix='', ranges=False, cls='MC', sub=''):
    names = ['a', 'b', 'q'][:p]
    X, w, L = data(c, n, p)
    if not loglikes:
        L = None
    kw = {}
    if label:
        kw['label'] = label
    if sampler:
        kw['sampler'] = sampler
    lo = c.real('lo', 0, 0.9) if ranges else None
    hi = c.real('hi', 3.5, 5) if ranges else None
    if ranges:
        kw['ranges'] = {'a': [lo, hi], 'b': [None, hi]} if p > 1 else {'a': [lo, hi]}
    s = make(c, U, names, derived, X, w, L, **kw)
    root = os.path.join(c.scratch, sub, 'run.x')
    s.saveAsText(root + suffix, make_dirs=bool(sub))
    c.check(sorted(f for f in os.listdir(os.path.dirname(root)) if f.endswith('.txt')) == ['run.x.txt'], 'file name')
    rows_eq(c, s, X, w, L, 'saving changes nothing')
    t = load(c, U, root, how)
    rows_close(c, t, X, w, L, 'reloaded')
    if how == 'file':
        return
    names_same(c, t, names, derived, 'reloaded')
    if how == 'chains':
        return
    c.check((t.label or None) == label, 'label')
    c.check(t.sampler == (sampler or 'mcmc'), 'sampler type', [t.sampler])
    if ranges:
        c.check(t.ranges.getLower('a') is not None and t.ranges.getUpper('a') is not None, 'limits exist')
        c.check(close(c, t.ranges.getLower('a'), lo, 1e-5), 'lower limit')
        c.check(close(c, t.ranges.getUpper('a'), hi, 1e-5), 'upper limit')
        if p > 1:
            c.check(t.ranges.getLower('b') is None, 'unbounded side stays unbounded')
            c.check(close(c, t.ranges.getUpper('b'), hi, 1e-5), 'upper limit')


def rows_eq(c, s, X, w, L, label):
    for i in range(len(X)):
        c.check_all_eq(list(s.samples[i]), X[i], label)
    c.check_all_eq(list(s.weights), w, label)
    if L is not None:
        c.check_all_eq(list(s.loglikes), L, label)


def chains(c, U, n, combined, again, order):
    """several chains, written one per file, whatever order the directory lists them in"""
    names, der = ['a', 'b'], (False, True)
    parts = [data(c, n, 2, t, l0, False) for t, l0 in (('u', 10), ('v', 21))]
    s = make(c, U, names, der, [p[0] for p in parts], [p[1] for p in parts], [p[2] for p in parts], _many=True)
    if combined:
        s.makeSingle() if s.chains is not None else None
    root = os.path.join(c.scratch, 'mm')
    s.saveChainsAsText(root)
    fs = sorted(os.listdir(c.scratch))
    c.check([f for f in fs if f.endswith('.txt')] == ['mm_1.txt', 'mm_2.txt'], 'one file per chain', fs)
    real = os.listdir

    def listing(d='.'):
        x = sorted(real(d))
        return x if order == 'up' else x[::-1]
    os.listdir = listing
    try:
        t = load(c, U, root, 'load')
    finally:
        os.listdir = real
    rows_close(c, t, parts[0][0] + parts[1][0], parts[0][1] + parts[1][1], parts[0][2] + parts[1][2], 'reloaded in order')
    names_same(c, t, names, der, 'reloaded')
    sep = t.getSeparateChains()
    c.check(len(sep) == 2, 'same number of chains')
    for k, q in zip(sep, parts):
        rows_close(c, k, q[0], q[1], q[2], 'chain')
    if again:
        t.saveChainsAsText(os.path.join(c.scratch, 'nn'))
        u = load(c, U, os.path.join(c.scratch, 'nn'), 'read')
        c.check(u.numrows == 2 * n, 'rows after a second round trip')


def one_chain_index(c, U, idx):
    X, w, L = data(c, 2, 1)
    s = make(c, U, ['a'], (False,), X, w, L)
    root = os.path.join(c.scratch, 'ii')
    s.saveAsText(root, chain_index=idx)
    c.check(os.path.exists(root + '_%d.txt' % (idx + 1)), 'numbered from one')
    c.check(os.path.exists(root + '.paramnames') == (idx == 0), 'names written with the first chain')
    t = load(c, U, root + '_%d' % (idx + 1), 'file')
    rows_close(c, t, X, w, L, 'reloaded')


def changed(c, U, op):
    """history: reload, change, save, reload"""
    X, w, L = data(c, 3, 1, sym=False)
    s = make(c, U, ['a'], (False,), X, w, L)
    root = os.path.join(c.scratch, 'hh')
    s.saveAsText(root)
    t = load(c, U, root, 'load')
    if op == 'filter':
        t.filter(np.array([0, 2]))
        exp = [0, 2]
    else:
        t.removeBurn(1)
        exp = [1, 2]
    t.saveAsText(os.path.join(c.scratch, 'gg'))
    u = load(c, U, os.path.join(c.scratch, 'gg'), 'load')
    ix = lambda v: [v[i] for i in exp]
    c.check(u.numrows == 2, 'rows')
    if u.numrows == 2:
        for i, k in enumerate(exp):
            c.check(close(c, u.samples[i, 0], X[k][0], 3e-7), 'value')
            c.check(close(c, u.weights[i], w[k], 3e-7), 'weight')
            c.check(close(c, u.loglikes[i], L[k], 3e-7), 'likelihood')


def scenarios(tier):
    th = tier == 'thorough'
    F, T = False, True
    for how in ('load', 'read', 'chains', 'file'):
        yield Scenario(single, dict(n=2, p=2, derived=(F, T), how=how))
    yield Scenario(single, dict(n=2, p=1, derived=(F,), how='load', label='my label', sampler='nested'))
    yield Scenario(single, dict(n=2, p=1, derived=(F,), how='load', sampler='uncorrelated'))
    yield Scenario(single, dict(n=2, p=3, derived=(T, F, T), how='load', ranges=T, label='x'))
    yield Scenario(single, dict(n=2, p=1, derived=(F,), how='read', ranges=T))
    yield Scenario(single, dict(n=2, p=2, derived=(F, F), how='load', suffix='.txt'))
    yield Scenario(single, dict(n=2, p=2, derived=(F, F), how='chains', loglikes=F))
    yield Scenario(single, dict(n=2, p=1, derived=(F,), how='load', sub='deep/er'))
    for comb in (F, T):
        for order in ('up', 'down'):
            yield Scenario(chains, dict(n=2, combined=comb, again=order == 'up', order=order))
    for i in (0, 1, 2):
        yield Scenario(one_chain_index, dict(idx=i))
    for op in ('filter', 'burn'):
        yield Scenario(changed, dict(op=op))
    if th:
        yield Scenario(single, dict(n=4, p=3, derived=(T, F, T), how='load', ranges=T, label='x'))
        yield Scenario(chains, dict(n=3, combined=T, again=T, order='down'))
