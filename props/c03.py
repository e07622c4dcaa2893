"""C03 row selections keep exactly the selected rows, weights, likelihoods and parameters together."""
import numpy as np
from symx.run import Scenario
from props.common import include

PRELOAD = ['getdist.mcsamples']

BOUNDS = 'up to 4 rows (5 thorough), 2 parameters, arbitrary real values/weights, every mask and index list'
OUTSIDE = 'more rows'


def build(c, U, n, cls='WeightedSamples', loglikes=True, minw=-1, wlo=0):
    X = c.matrix('x', n, 2)
    w = c.reals('w', n, wlo)
    L = c.reals('l', n)
    kw = dict(samples=c.array(X), weights=c.array(w), loglikes=c.array(L) if loglikes else None)
    if minw is not None:
        kw['min_weight_ratio'] = minw
    if cls != 'WeightedSamples':
        kw['names'] = ['a', 'b']
    s = getattr(U.chains, cls)(**kw)
    return s, X, w, L


def same_rows(c, s, X, w, L, idx, label):
    c.check(s.samples.shape[0] == len(idx), label + ': number of rows')
    c.check(s.numrows == len(idx), label + ': numrows')
    if s.samples.shape[0] != len(idx):
        return
    c.check(len(s.weights) == len(idx), label + ': number of weights')
    c.check_all_eq([list(r) for r in s.samples], [list(X[i]) for i in idx], label + ': parameter rows')
    c.check_all_eq(list(s.weights), [w[i] for i in idx], label + ': weights')
    if L is None:
        c.check(s.loglikes is None, label + ': no loglikes')
    else:
        c.check_all_eq(list(s.loglikes), [L[i] for i in idx], label + ': loglikes')
    c.check_eq(s.get_norm(), c.sum([w[i] for i in idx]), label + ': norm')


def build_low(c, U, n, cls, loglikes):
    """samples held by an object whose own minimum weight ratio is above some of their weights (as after reweighting)"""
    r = c.real('r', 0, 1)
    X = c.matrix('x', n, 2)
    w = c.reals('w', n, 0)
    L = c.reals('l', n)
    kw = {} if cls == 'WeightedSamples' else dict(names=['a', 'b'])
    s = getattr(U.chains, cls)(min_weight_ratio=r, **kw)
    s.setSamples(c.array(X), c.array(w), c.array(L) if loglikes else None, min_weight_ratio=-1)
    return s, X, w, L


def filt(c, U, n, mode, cls, loglikes, low=False):
    s, X, w, L = (build_low if low else build)(c, U, n, cls, loglikes)
    if mode == 'mask':
        keep = [bool(b) for b in c.bools('k', n)]
        idx = [i for i in range(n) if keep[i]]
        wh = np.array(keep)
    elif mode == 'cond':
        t = c.real('t')
        wh = s.samples[:, 1] > t
        idx = [i for i in range(n) if X[i][1] > t]
    else:
        m = c.choice('m', 3)
        idx = [c.choice('i%d' % j, n) for j in range(m)]
        wh = np.array(idx, dtype=int)
    c.assume(len(idx) > 0)
    s.filter(wh)
    same_rows(c, s, X, w, L if loglikes else None, idx, 'filter')
    c.observe('w', s.weights)


def zeros(c, U, n, cls):
    s, X, w, L = build(c, U, n, cls)
    c.assume(c.sum(w) > 0)
    s.deleteZeros()
    same_rows(c, s, X, w, L, [i for i in range(n) if w[i] > 0], 'deleteZeros')


def minratio(c, U, n, cls, when):
    r = c.real('r', 0, 1)
    c.assume(r < 1)
    X = c.matrix('x', n, 2)
    w = c.reals('w', n, 0)
    L = c.reals('l', n)
    c.assume(c.sum(w) > 0)
    kw = {} if cls == 'WeightedSamples' else dict(names=['a', 'b'])
    K = getattr(U.chains, cls)
    if when == 'init':
        s = K(samples=c.array(X), weights=c.array(w), loglikes=c.array(L), min_weight_ratio=r, **kw)
    elif when == 'set':
        s = K(min_weight_ratio=-1, samples=c.array(X), weights=c.array(w), loglikes=c.array(L), **kw)
        s.setMinWeightRatio(r)
    else:
        s = K(samples=c.array(X), min_weight_ratio=-1, **kw)
        s.setSamples(c.array(X), c.array(w), c.array(L), min_weight_ratio=r)
    mx = c.max(w)
    # strictly below the ratio: dropped; strictly above: kept; exactly at it: either (all rows when none is below)
    for i in range(n):
        c.assume(c.not_(c.eq(w[i], mx * r)) if c.symbolic else True)
    idx = [i for i in range(n) if w[i] > mx * r]
    same_rows(c, s, X, w, L, idx, 'min_weight_ratio')




def init_keeps(c, U, n, cls):
    X = c.matrix('x', n, 2)
    w = c.reals('w', n, 0)
    L = c.reals('l', n)
    mx = c.max(w)
    c.assume(mx > 0)
    for i in range(n):
        c.assume(c.or_(c.eq(w[i], 0), w[i] > mx * 1e-20))
    kw = {} if cls == 'WeightedSamples' else dict(names=['a', 'b'])
    s = getattr(U.chains, cls)(samples=c.array(X), weights=c.array(w), loglikes=c.array(L), **kw)
    same_rows(c, s, X, w, L, [i for i in range(n) if w[i] > 0], 'constructor')


def ignore(c, U, n, cls):
    """ignore_rows=k at construction drops exactly the first k rows"""
    k = c.choice('k', n)
    X = c.matrix('x', n, 2)
    w = c.reals('w', n, 0)
    L = c.reals('l', n)
    c.assume(c.sum(w[k:]) > 0)
    kw = {} if cls == 'WeightedSamples' else dict(names=['a', 'b'])
    s = getattr(U.chains, cls)(samples=c.array(X), weights=c.array(w), loglikes=c.array(L), ignore_rows=k,
                               min_weight_ratio=-1, **kw)
    same_rows(c, s, X, w, L, list(range(k, n)), 'ignore_rows')


def history(c, U, n, cls):
    """filter, then zero removal, then change of samples, then filter: rows stay aligned throughout"""
    s, X, w, L = build(c, U, n, cls)
    keep = [bool(b) for b in c.bools('k', n)]
    idx = [i for i in range(n) if keep[i]]
    c.assume(c.sum([w[i] for i in idx]) > 0)
    s.filter(np.array(keep))
    s.deleteZeros()
    idx = [i for i in idx if w[i] > 0]
    same_rows(c, s, X, w, L, idx, 'filter+deleteZeros')
    Y = c.matrix('y', n, 2)
    s.changeSamples(c.array([Y[i] for i in idx]))
    same_rows(c, s, Y, w, L, idx, 'changeSamples')
    s.filter(s.samples[:, 0] >= Y[idx[0]][0])
    idx = [i for i in idx if Y[i][0] >= Y[idx[0]][0]]
    same_rows(c, s, Y, w, L, idx, 'filter on new samples')


def coldata(c, U, n):
    """a chain table is read as weight, -log(likelihood), parameters"""
    T = c.matrix('t', n, 4)
    for r in T:
        c.assume(r[0] > 0)
    s = U.chains.WeightedSamples(min_weight_ratio=-1)
    s.setColData(c.array(T))
    same_rows(c, s, [r[2:] for r in T], [r[0] for r in T], [r[1] for r in T], list(range(n)), 'setColData')
    s = U.chains.WeightedSamples(min_weight_ratio=-1)
    s.setColData(c.array(T), are_chains=False)
    same_rows(c, s, T, [1] * n, None, list(range(n)), 'setColData(no weights)')


def vectors(c, U, n, how, cls):
    """samples given as a list of parameter vectors, or as one vector"""
    X = c.matrix('x', n, 2)
    w = c.reals('w', n, 1, 2)
    L = c.reals('l', n)
    K = getattr(U.chains, cls)
    one = how == 'one'
    kw = {} if cls == 'WeightedSamples' else dict(names=['a'] if one else ['a', 'b'])
    cols = [c.array([r[j] for r in X]) for j in range(2)]
    v = cols[0] if one else tuple(cols) if how == 'tuple' else cols
    if how == 'set':
        s = K(**kw)
        s.setSamples(v, c.array(w), c.array(L))
    else:
        s = K(samples=v, weights=c.array(w), loglikes=c.array(L), **kw)
    same_rows(c, s, [r[:1] for r in X] if one else X, w, L, list(range(n)), 'vectors')
    c.check(s.n == (1 if one else 2), 'vectors: number of parameters')


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for cls in ('WeightedSamples', 'Chains'):
        for how in ('list', 'tuple', 'one', 'set'):
            out.append(Scenario(vectors, dict(n=3, how=how, cls=cls)))
    out.extend(include('c07', tier, 'combine', 'history', 'refuse'))
    for cls in ('WeightedSamples', 'Chains'):
        for ll in (True, False):
            for mode in ('mask', 'cond', 'idx'):
                out.append(Scenario(filt, dict(n=4 if big else 3, mode=mode, cls=cls, loglikes=ll)))
        for mode in ('mask', 'cond'):
            out.append(Scenario(filt, dict(n=3, mode=mode, cls=cls, loglikes=True, low=True)))
        out.append(Scenario(zeros, dict(n=4, cls=cls)))
        for when in ('init', 'set', 'setSamples'):
            out.append(Scenario(minratio, dict(n=4 if big else 3, cls=cls, when=when)))
        out.append(Scenario(init_keeps, dict(n=4 if big else 3, cls=cls)))
        out.append(Scenario(ignore, dict(n=4, cls=cls)))
        out.append(Scenario(history, dict(n=4 if big else 3, cls=cls)))
    out.append(Scenario(coldata, dict(n=3)))
    return out
