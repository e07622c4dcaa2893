"""C06 burn-in removal drops exactly the requested leading rows of each chain, once."""
import os
import numpy as np
from symx.run import Scenario
from props.common import include
from props.c03 import same_rows

PRELOAD = ['getdist.mcsamples']
BOUNDS = 'chains of up to 5 rows (7 thorough), up to 2 chains, every integer row count and every real fraction in [0,1)'
OUTSIDE = 'longer chains; text parsing of the chain files (numeric tables stand for them in the symbolic run)'


def build(c, n, tag='', p=1):
    X = c.matrix('x' + tag, n, p)
    w = c.reals('w' + tag, n)
    for a in w:
        c.assume(a >= 1)
        c.assume(a <= 1.001)
    # one maximum-posterior row; likelihood values otherwise free
    L = c.reals('l' + tag, n)
    for i in range(n):
        c.assume(L[i] >= (100 if tag == 'b' else 0) + 10 * i)
        c.assume(L[i] <= (100 if tag == 'b' else 0) + 10 * i + 5)
    # parameters vary, so that fixed-parameter removal does not apply
    for j in range(p):
        for i in range(1, n):
            c.assume(X[i][j] - X[i - 1][j] >= 1)
        for i in range(n):
            c.assume(X[i][j] >= -20)
            c.assume(X[i][j] <= 20)
    return X, w, L


def amount(c, n, kind):
    if kind == 'int':
        k = c.int('k', 1, n - 1)
        return k
    f = c.real('f', 0, 1)
    c.assume(f < 1)
    return f


def removed_ok(c, n, left, rem, kind, label):
    k = n - left
    if kind == 'int':
        c.check(c.eq(k, rem), label + ': integer burn-in removes exactly that many rows')
    else:
        c.check(c.and_(c.le(n * rem - k, 0.5), c.le(k - n * rem, 0.5)), label + ': fraction removes that fraction of rows, rounded')
    return list(range(k, n))


def single(c, U, n, kind, cls):
    X, w, L = build(c, n)
    kw = {} if cls == 'WeightedSamples' else dict(names=['a'])
    s = getattr(U.chains, cls)(samples=c.array(X), weights=c.array(w), loglikes=c.array(L), min_weight_ratio=-1, **kw)
    r = amount(c, n, kind)
    if kind == 'frac':
        c.assume(n * r < n - 0.5)
    if cls == 'Chains':
        s.removeBurnFraction(r)
    else:
        s.removeBurn(r)
    idx = removed_ok(c, n, s.numrows, r, kind, 'removeBurn')
    same_rows(c, s, X, w, L, idx, 'removeBurn')
    c.observe('rows', s.numrows)


def separate(c, U, n, m, kind):
    A, B = build(c, n, 'a'), build(c, m, 'b')
    s = U.chains.Chains(names=['a'], min_weight_ratio=-1)
    s.loadChains('root', [c.array(A[0]), c.array(B[0])], weights=[c.array(A[1]), c.array(B[1])],
                 loglikes=[c.array(A[2]), c.array(B[2])])
    r = amount(c, min(n, m), kind)
    if kind == 'frac':
        c.assume(n * r < n - 0.5)
        c.assume(m * r < m - 0.5)
    s.removeBurnFraction(r)
    c.check(len(s.chains) == 2, 'removeBurnFraction: chains kept apart')
    for nn, D, ch in ((n, A, s.chains[0]), (m, B, s.chains[1])):
        idx = removed_ok(c, nn, ch.numrows, r, kind, 'removeBurnFraction')
        same_rows(c, ch, D[0], D[1], D[2], idx, 'removeBurnFraction')


def onload(c, U, n, kind, how):
    """ignore_rows given to the constructor"""
    X, w, L = build(c, n)
    r = amount(c, n, kind)
    if kind == 'frac':
        c.assume(n * r < n - 0.5)
        c.assume(r > 0)
    else:
        r = int(r)
    if how == 'ws':
        s = U.chains.WeightedSamples(samples=c.array(X), weights=c.array(w), loglikes=c.array(L), ignore_rows=r, min_weight_ratio=-1)
    elif how == 'file':
        fn = os.path.join(c.scratch, 'c.txt')
        c.table(fn, [[w[j], L[j]] + X[j] for j in range(n)])
        s = U.chains.WeightedSamples(fn, ignore_rows=r, min_weight_ratio=-1)
    elif how == 'one':
        s = U.chains.Chains(names=['a'], ignore_rows=r, min_weight_ratio=-1)
        s.loadChains('r', c.array(X), weights=c.array(w), loglikes=c.array(L))
    else:
        s = U.chains.Chains(names=['a'], ignore_rows=r, min_weight_ratio=-1)
        s.loadChains('r', [c.array(X)], weights=[c.array(w)], loglikes=[c.array(L)])
        s = s.chains[0]
    idx = removed_ok(c, n, s.numrows, r, kind, 'ignore_rows')
    same_rows(c, s, X, w, L, idx, 'ignore_rows')


def combined_ok(c, s, parts, r, kind, label):
    """s holds the chains' rows, each with its own burn-in removed, in order"""
    total = sum(len(p[0]) for p in parts)
    exp = []
    # number of rows each chain may lose
    offs = s.chain_offsets
    if len(parts) > 1:
        c.check(offs is not None and len(offs) == len(parts) + 1, label + ': chain boundaries kept')
        if offs is None or len(offs) != len(parts) + 1:
            return
        lens = [int(b) - int(a) for a, b in zip(offs[:-1], offs[1:])]
    else:
        lens = [s.numrows]
    c.check(sum(lens) == s.numrows, label + ': boundaries cover all rows')
    pos = 0
    for D, ln in zip(parts, lens):
        n = len(D[0])
        if kind == 'none':
            c.check(ln == n, label + ': nothing removed')
            if ln != n:
                return
            idx = list(range(n))
        else:
            c.check(0 <= ln <= n, label + ': rows left')
            if not 0 <= ln <= n:
                return
            idx = removed_ok(c, n, ln, r, kind, label)
        c.check_all_eq([list(x) for x in s.samples[pos:pos + ln]], [D[0][i] for i in idx], label + ': parameter rows')
        c.check_all_eq(list(s.weights[pos:pos + ln]), [D[1][i] for i in idx], label + ': weights')
        if s.loglikes is not None:
            c.check_all_eq(list(s.loglikes[pos:pos + ln]), [D[2][i] for i in idx], label + ': loglikes')
        pos += ln


def mcs_arrays(c, U, sizes, kind):
    parts = [build(c, n, 'abc'[i]) for i, n in enumerate(sizes)]
    kw = {}
    r = None
    if kind != 'none':
        r = amount(c, min(sizes) - 1, kind)
        if kind == 'frac':
            for n in sizes:
                c.assume(n * r < n - 1.5)
        else:
            r = int(r)
        kw['ignore_rows'] = r
    else:
        kw['ignore_rows'] = 0
    if len(sizes) == 1:
        a, b = c.array(parts[0][0]), c.array(parts[0][1])
    else:
        a, b = [c.array(p[0]) for p in parts], [c.array(p[1]) for p in parts]
    s = U.mcsamples.MCSamples(samples=a, weights=b, names=['a'], settings={'min_weight_ratio': -1}, **kw)
    combined_ok(c, s, parts, r, kind, 'MCSamples(ignore_rows)')


def mcs_files(c, U, sizes, kind, props, empty=None):
    """rows are removed from each chain file; burn_removed in the properties file turns it off"""
    parts = [build(c, n, 'abc'[i]) for i, n in enumerate(sizes)]
    root = os.path.join(c.scratch, 'ch')
    files = []
    for i, D in enumerate(parts):
        fn = root + '_%d.txt' % (i + 1)
        c.table(fn, [[D[1][j], D[2][j]] + D[0][j] for j in range(len(D[0]))])
        files.append(fn)
    if empty is not None:
        # a chain that has only been started holds no samples: it is left out, the others are as without it
        with open(root + '_9.txt', 'w') as f:
            f.write('# weight like a\n' if empty % 2 else '')
        files.insert(empty, root + '_9.txt')
    with open(root + '.paramnames', 'w') as f:
        f.write('a  A\n')
    if props:
        with open(root + '.properties.ini', 'w') as f:
            f.write('burn_removed = T\n')
    r = amount(c, min(sizes) - 1, kind)
    if kind == 'frac':
        for n in sizes:
            c.assume(n * r < n - 1.5)
    else:
        r = int(r)
    s = U.mcsamples.MCSamples(root, settings={'ignore_rows': r, 'min_weight_ratio': -1})
    s.readChains(files)
    combined_ok(c, s, parts, r, 'none' if props else kind, 'files')


def jobitem(c, U, kind):
    """grid chains that are importance sampled or already have burn-in removed are not cut again"""
    n = 4
    parts = [build(c, n, 'a')]

    class Job:
        batchPath = ''
        isImportanceJob = bool(c.bool('imp'))
        _rm = bool(c.bool('rm'))

        def isBurnRemoved(self):
            return self._rm

    f = c.real('f', 0.25, 0.5)
    s = U.mcsamples.MCSamples(samples=c.array(parts[0][0]), weights=c.array(parts[0][1]), names=['a'], jobItem=Job(),
                              ignore_rows=f, settings={'min_weight_ratio': -1})
    keepall = Job.isImportanceJob or Job._rm
    combined_ok(c, s, parts, f, 'none' if keepall else 'frac', 'grid item')


def scenarios(tier):
    big = tier == 'thorough'
    out = list(include('c24', tier, 'files'))
    for kind in ('int', 'frac'):
        for n in (2, 3, 5) + ((7,) if big else ()):
            for cls in ('WeightedSamples', 'Chains'):
                out.append(Scenario(single, dict(n=n, kind=kind, cls=cls)))
        out.append(Scenario(separate, dict(n=3, m=4, kind=kind)))
        for how in ('ws', 'file', 'one', 'list'):
            out.append(Scenario(onload, dict(n=4, kind=kind, how=how)))
        for sizes in ((4,), (3, 4)) + (((4, 5),) if big else ()):
            out.append(Scenario(mcs_arrays, dict(sizes=sizes, kind=kind)))
            for props in (False, True):
                out.append(Scenario(mcs_files, dict(sizes=sizes, kind=kind, props=props)))
    for empty in (0, 1, 2):
        out.append(Scenario(mcs_files, dict(sizes=(3, 4), kind='int' if empty else 'frac', props=False, empty=empty)))
    out.append(Scenario(mcs_arrays, dict(sizes=(3, 3), kind='none')))
    out.append(Scenario(jobitem, dict(kind='frac')))
    return out
