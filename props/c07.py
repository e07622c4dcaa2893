"""C07 combined chains can always be split back into the surviving rows of each chain."""
import os
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = 'up to 3 chains of up to 4 rows, 2 parameters, histories of up to 2 operations (3 thorough) on the combined samples'
OUTSIDE = 'more/longer chains; unsorted index lists given to filter'


def build(c, U, sizes, how='arrays', loglikes=True, ints=False, zero=False):
    rows = []
    for k, n in enumerate(sizes):
        X = c.matrix('x%d' % k, n, 2, -10, 10)
        if ints:
            w = [int(v) for v in c.ints('w%d' % k, n, 1, 2)]
        else:
            w = c.reals('w%d' % k, n, 0 if zero else 1, 1.5)
            if zero:
                for a in w:
                    c.assume(c.or_(c.eq(a, 0), a >= 1))
        L = c.reals('l%d' % k, n)
        rows.append([(X[i], w[i], L[i]) for i in range(n)])
    s = U.chains.Chains(names=['a', 'b'], min_weight_ratio=-1)
    arrs = [c.array([r[0] for r in ch]) for ch in rows]
    ws = [c.array([r[1] for r in ch]) for ch in rows]
    Ls = [c.array([r[2] for r in ch]) for ch in rows] if loglikes else None
    if how == 'arrays':
        s.loadChains('root', arrs, weights=ws, loglikes=Ls)
    else:
        root = os.path.join(c.scratch, 'ch')
        fl = []
        for k, ch in enumerate(rows):
            fl.append(root + '_%d.txt' % (k + 1))
            c.table(fl[-1], [[r[1], r[2]] + r[0] for r in ch])
        s.loadChains(root, fl)
    return s, rows


def same(c, ch, rows, label, loglikes=True):
    c.check(ch.samples.shape[0] == len(rows), label + ': number of rows')
    if ch.samples.shape[0] != len(rows):
        return
    c.check_all_eq([list(r) for r in ch.samples], [list(r[0]) for r in rows], label + ': parameter rows')
    c.check_all_eq(list(ch.weights), [r[1] for r in rows], label + ': weights')
    if loglikes:
        c.check(ch.loglikes is not None, label + ': has loglikes')
        if ch.loglikes is not None:
            c.check_all_eq(list(ch.loglikes), [r[2] for r in rows], label + ': loglikes')
    else:
        c.check(ch.loglikes is None, label + ': no loglikes')
    c.check_eq(ch.get_norm(), c.sum([r[1] for r in rows]), label + ': norm')


def state(c, s, rows, label, loglikes=True, skip_zero=False):
    same(c, s, [r for ch in rows for r in ch], label + ', combined', loglikes)
    if any(not ch for ch in rows):
        return
    seps = s.getSeparateChains()
    c.check(len(seps) == len(rows), label + ': number of chains')
    for k, (a, b) in enumerate(zip(seps, rows)):
        if skip_zero:
            b = [r for r in b if r[1] > 0]
        same(c, a, b, label + ', chain', loglikes)


def combine(c, U, sizes, how, loglikes):
    s, rows = build(c, U, sizes, how, loglikes)
    for a, b in zip(s.getSeparateChains(), rows):
        same(c, a, b, 'loaded', loglikes)
    s.makeSingle()
    c.check(s.chains is None, 'combined state')
    state(c, s, rows, 'makeSingle', loglikes)
    c.observe('w', s.weights)


def op(c, s, rows, name, tag):
    flat = [(k, r) for k, ch in enumerate(rows) for r in ch]
    n = len(flat)
    K = len(rows)
    if name in ('mask', 'idx'):
        keep = [bool(b) for b in c.bools('k' + tag, n)]
        c.assume(any(keep))
        new = [[r for (k, r), f in zip(flat, keep) if f and k == q] for q in range(K)]
        s.filter(np.array(keep) if name == 'mask' else [i for i in range(n) if keep[i]])
    elif name == 'cond':
        t = c.real('t' + tag)
        fl = [r[0][0] > t for k, r in flat]
        c.assume(c.or_(fl))
        s.filter(s['a'] > t)
        new = [[r for r in ch if r[0][0] > t] for ch in rows]
    elif name == 'burn':
        m = c.choice('m' + tag, n)
        c.assume(m >= 1)
        s.removeBurn(m)
        left = flat[m:]
        new = [[r for k, r in left if k == q] for q in range(K)]
    elif name == 'burnfrac':
        f = c.real('f' + tag, 0.3, 0.6)
        m = n
        s.removeBurnFraction(f)
        m = n - s.numrows
        c.check(c.and_(c.le(n * f - m, 0.5), c.le(m - n * f, 0.5)), 'fraction removed')
        left = flat[m:]
        new = [[r for k, r in left if k == q] for q in range(K)]
    elif name == 'derived':
        v = c.reals('v' + tag, n)
        s.addDerived(c.array(v), 'd' + tag)
        it = iter(v)
        new = [[(list(r[0]) + [next(it)], r[1], r[2]) for r in ch] for ch in rows]
    elif name == 'zeros':
        s.deleteZeros()
        new = [[r for r in ch if r[1] > 0] for ch in rows]
    elif name == 'reweight':
        d = c.reals('d' + tag, n, -5, 5)
        s.reweightAddingLogLikes(c.array(d))
        wn = list(s.weights)  # their values are C05's subject; no vanishing weights here
        for i in range(n):
            c.assume(c.and_(wn[i] > 1e-5, wn[i] < 1e5))
        it = iter(range(n))
        new = []
        for ch in rows:
            q = []
            for r in ch:
                i = next(it)
                q.append((r[0], wn[i], r[2] + d[i]))
            new.append(q)
    else:
        raise ValueError(name)
    return new


def history(c, U, sizes, ops, zero=False, loglikes=True):
    s, rows = build(c, U, sizes, loglikes=loglikes, zero=zero)
    s.makeSingle()
    for i, o in enumerate(ops):
        rows = op(c, s, rows, o, str(i))
        if not any(rows):
            c.cut('no rows left')
    state(c, s, rows, '+'.join(ops), loglikes, zero)


def thin(c, U, sizes):
    s, rows = build(c, U, sizes, ints=True)
    s.makeSingle()
    f = c.choice('f', 3) + 2
    ix = [int(i) for i in s.thin_indices(f)]
    s.thin(f)
    flat = [(k, r) for k, ch in enumerate(rows) for r in ch]
    new = [[(flat[i][1][0], 1, flat[i][1][2]) for i in ix if flat[i][0] == q] for q in range(len(rows))]
    if not any(new):
        c.cut('no rows left')
    state(c, s, new, 'thin')


def wthin(c, U, sizes, single, f=2):
    s, rows = build(c, U, sizes, ints=True)
    if single:
        s.makeSingle()
    new = []
    for ch in rows:
        t = U.chains.WeightedSamples(samples=c.array([r[0] for r in ch]), weights=c.array([r[1] for r in ch]),
                                     loglikes=c.array([r[2] for r in ch]), min_weight_ratio=-1)
        t.weighted_thin(f)
        new.append([(list(t.samples[i]), t.weights[i], t.loglikes[i]) for i in range(t.numrows)])
    if any(not x for x in new):
        c.cut('a chain is empty')
    s.weighted_thin(f)
    if not single:
        c.check(s.chains is not None and len(s.chains) == len(rows), 'chains stay separate')
        s.makeSingle()
    state(c, s, new, 'weighted_thin')


def refuse(c, U):
    """filtering while chains are separate is refused rather than misapplied"""
    s, rows = build(c, U, (2, 2))
    _, e = c.raises(lambda: s.filter(np.array([True, True])), ValueError)
    c.check(e is not None, 'filter of separate chains refused')
    for a, b in zip(s.getSeparateChains(), rows):
        same(c, a, b, 'unchanged')


def mcs(c, U, sizes, op2):
    """the same through MCSamples (arrays without likelihoods)"""
    rows = []
    for k, n in enumerate(sizes):
        X = c.matrix('x%d' % k, n, 1, -20, 20)
        for i in range(1, n):
            c.assume(X[i][0] - X[i - 1][0] >= 1)
        rows.append([(X[i], w, None) for i, w in enumerate(c.reals('w%d' % k, n, 1, 1.01))])
    s = U.mcsamples.MCSamples(samples=[c.array([r[0] for r in ch]) for ch in rows],
                              weights=[c.array([r[1] for r in ch]) for ch in rows], names=['a'], ignore_rows=0)
    state(c, s, rows, 'MCSamples', False)
    if op2:
        rows = op(c, s, rows, op2, 'm')
        state(c, s, rows, 'MCSamples ' + op2, False)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for sizes in ((2, 3), (1, 2, 2)) + (((4, 3, 4),) if big else ()):
        for how, ll in (('arrays', True), ('arrays', False), ('files', True)):
            out.append(Scenario(combine, dict(sizes=sizes, how=how, loglikes=ll)))
    out.append(Scenario(combine, dict(sizes=(3,), how='arrays', loglikes=True)))
    names = ['mask', 'idx', 'cond', 'burn', 'burnfrac', 'derived', 'reweight']
    for a in names:
        out.append(Scenario(history, dict(sizes=(2, 3), ops=(a,))))
    out.append(Scenario(history, dict(sizes=(2, 2), ops=('mask',), loglikes=False)))
    out.append(Scenario(history, dict(sizes=(2, 2), ops=('zeros',), zero=True)))
    pairs = [('mask', 'mask'), ('burn', 'mask'), ('mask', 'burn'), ('derived', 'mask'), ('cond', 'idx'), ('reweight', 'burn'),
             ('idx', 'derived'), ('mask', 'reweight')]
    if big:
        pairs = [(a, b) for a in names for b in names]
        pairs += [('mask', 'burn', 'idx'), ('derived', 'mask', 'burn'), ('idx', 'cond', 'mask')]
    for p in pairs:
        out.append(Scenario(history, dict(sizes=(2, 2), ops=p), time_s=60 if not big else 300))
    out.append(Scenario(thin, dict(sizes=(2, 2))))
    for single in (True, False):
        out.append(Scenario(wthin, dict(sizes=(2, 2), single=single)))
        out.append(Scenario(wthin, dict(sizes=(2, 1, 2), single=single, f=4)))
        out.append(Scenario(wthin, dict(sizes=(1, 3), single=single, f=3)))
    out.append(Scenario(refuse, dict()))
    for o in (None, 'mask', 'burn'):
        out.append(Scenario(mcs, dict(sizes=(2, 2), op2=o)))
    return out
