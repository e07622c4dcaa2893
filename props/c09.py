"""C09 parameter names always address their own column of the samples."""
import os
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = '2-4 rows, 3 parameters (2 chains of 2-3 rows), all sample values symbolic, every subset of constant columns, ' \
         'histories of up to 2 operations'
OUTSIDE = 'numerically almost-constant columns (within 1e-12 relative)'

NAMES = ['a', 'b', 'q']


def write_names(path, names, derived):
    with open(path, 'w') as f:
        for n, d in zip(names, derived):
            f.write('%s%s  %s_l # comment %s\n' % (n, '*' if d else '', n, n))


def mk(c, U, cls, names, rows, w, L, derived=None, ranges=None, chains=None):
    """sample object with given names; rows: list of dicts name->value"""
    kw = {}
    nm = names
    if derived is not None:
        P = U.paramnames.ParamNames()
        P.names = [U.paramnames.ParamInfo(name=n, label=n + '_l', derived=d) for n, d in zip(names, derived)]
        kw['paramNamesFile'] = P
    else:
        kw['names'] = list(names)
    if cls == 'MCSamples':
        kw['ranges'] = ranges or {}
        kw['ignore_rows'] = 0
        kw['settings'] = {'ignore_rows': 0}
        C = U.mcsamples.MCSamples
    else:
        C = U.chains.Chains
        kw['min_weight_ratio'] = -1
    if chains:
        s = C(**kw)
        off = np.cumsum([0] + list(chains))
        cut = [slice(a, b) for a, b in zip(off[:-1], off[1:])]
        args = ([c.array([[r[n] for n in names] for r in rows[k]]) for k in cut],
                [c.array(w[k]) for k in cut], [c.array(L[k]) for k in cut] if L is not None else None)
        if cls == 'MCSamples':
            s.readChains(*args)
        else:
            s.loadChains('root', args[0], weights=args[1], loglikes=args[2])
        return s
    return C(samples=c.array([[r[n] for n in names] for r in rows]), weights=c.array(w),
             loglikes=c.array(L) if L is not None else None, **kw)


def data(c, n, names, const=(), tag='', loop=None, ordered=True):
    """rows of symbolic values; columns in const do not vary; column `loop` starts and ends at the same value but varies"""
    rows = [dict() for _ in range(n)]
    for nm in names:
        if nm in const:
            v = c.real('%s%s' % (nm, tag), 1, 2)
            for r in rows:
                r[nm] = v
        else:
            xs = c.reals('%s%s_' % (nm, tag), n, 1, 2)
            if nm == loop:
                xs[-1] = xs[0]
                c.assume(c.or_(xs[1] - xs[0] > 0.1, xs[0] - xs[1] > 0.1))
            else:
                c.assume(c.or_(xs[-1] - xs[0] > 0.1, xs[0] - xs[-1] > 0.1))
            for r, x in zip(rows, xs):
                r[nm] = x
    L = c.reals('l' + tag, n, 0, 5)
    if ordered:
        for x, y in zip(L[1:], L):
            c.assume(x > y)
    return rows, c.reals('w' + tag, n, 1, 1.5), L


def addressed(c, U, s, names, rows, w, L, label):
    """every way of addressing a column by name gives that parameter's own values"""
    n = len(rows)
    if s.samples is None:
        c.check(False, label + ': samples missing')
        return
    c.check(s.samples.shape == (n, len(names)), label + ': shape')
    c.check(s.paramNames.list() == list(names), label + ': names')
    if s.samples.shape != (n, len(names)) or s.paramNames.list() != list(names):
        return
    P = s.getParams()
    N = c.sum(w)
    for j, nm in enumerate(names):
        col = [r[nm] for r in rows]
        c.check_all_eq(list(s.samples[:, j]), col, label + ': column order')
        c.check_all_eq(list(s[nm]), col, label + ': s[name]')
        o = P
        for part in nm.split('.'):
            o = getattr(o, part, None)
        if isinstance(o, U.chains.ParSamples):
            o = getattr(o, 'value', None)
        c.check(o is not None, label + ': getParams attribute exists')
        if o is not None:
            c.check_all_eq(list(o), col, label + ': getParams')
        c.check_eq(s.mean(nm) * N, c.sum([a * b for a, b in zip(w, col)]), label + ': mean(name)')
        c.check_eq(s.mean(s.paramNames.names[j]) * N, c.sum([a * b for a, b in zip(w, col)]), label + ': mean(ParamInfo)')
        num, par = s._parAndNumber(nm)
        c.check(num == j and par is s.paramNames.names[j], label + ': number of name')
    c.check_all_eq(list(s['weight']), list(w), label + ': weights by name')
    if L is not None:
        c.check_all_eq(list(s['loglike']), list(L), label + ': loglikes by name')


def sample_dict(c, s, names, derived, rows, w, L, fixed, label):
    for ix in range(len(rows)):
        for wd in (True, False):
            d = s.getParamSampleDict(ix, want_derived=wd)
            want = ['weight', 'loglike'] + [n for n, x in zip(names, derived) if wd or not x] + list(fixed)
            c.check(sorted(d) == sorted(want), label + ': keys of sample dictionary')
            if sorted(d) != sorted(want):
                continue
            c.check_eq(d['weight'], w[ix], label + ': weight')
            c.check_eq(d['loglike'], L[ix], label + ': loglike')
            for n in want[2:]:
                c.check_eq(d[n], fixed[n] if n in fixed else rows[ix][n], label + ': sample value')


def basic(c, U, cls, names, derived, n, chains=None, order=None):
    rows, w, L = data(c, n, names)
    s = mk(c, U, cls, names, rows, w, L, derived, chains=chains)
    if chains and cls != 'MCSamples':
        s.makeSingle()
    addressed(c, U, s, names, rows, w, L, 'loaded')
    sample_dict(c, s, names, derived or [False] * len(names), rows, w, L, {}, 'loaded')
    c.observe('m', s.getMeans())


def filenames(c, U, n):
    """names read from a .paramnames file next to the chain files"""
    derived = [False, True, False]
    root = os.path.join(c.scratch, 'ch')
    write_names(root + '.paramnames', NAMES, derived)
    rows, w, L = data(c, n, NAMES)
    with_range = c.choice('rng', 2)
    if with_range:
        with open(root + '.ranges', 'w') as f:
            f.write('a  0.5 N\nfx 3.25 3.25\n')
    c.table(root + '_1.txt', [[w[i], L[i]] + [rows[i][nm] for nm in NAMES] for i in range(n)])
    s = U.mcsamples.MCSamples(root=root, settings={'ignore_rows': 0})
    s.readChains([root + '_1.txt'])
    addressed(c, U, s, NAMES, rows, w, L, 'from files')
    sample_dict(c, s, NAMES, derived, rows, w, L, {'fx': 3.25} if with_range else {}, 'from files')
    c.check(s.paramNames.labels() == [x + '_l' for x in NAMES], 'labels stay with their names')
    c.check([p.isDerived for p in s.paramNames.names] == derived, 'derived flags stay with their names')
    c.check(s.ranges.getLower('a') == (0.5 if with_range else None), 'range stays with its name')


def fixed(c, U, cls, n, combined, chains, const, loop=None):
    const = [nm for nm, k in zip(NAMES, const) if k]
    derived = [False, False, True]
    rows, w, L = data(c, n, NAMES, const, loop=loop)
    s = mk(c, U, cls, NAMES, rows, w, L, derived, chains=chains, ranges={'b': (None, 2.5)} if cls == 'MCSamples' else None)
    if cls != 'MCSamples':
        if combined and chains:
            s.makeSingle()
        s.deleteFixedParams()
    if chains and not combined:
        off = 0
        for k, m in zip(s.chains, chains):
            live = [nm for nm in NAMES if nm not in const]
            c.check(k.samples.shape == (m, len(live)), 'fixed, separate chain shape')
            if k.samples.shape == (m, len(live)):
                c.check_all_eq([list(r) for r in k.samples], [[rows[off + i][nm] for nm in live] for i in range(m)],
                               'fixed, separate chain rows')
            off += m
        s.makeSingle()
    live = [nm for nm in NAMES if nm not in const]
    addressed(c, U, s, live, rows, w, L, 'fixed removed')
    fx = {}
    if cls == 'MCSamples':
        fx = {nm: rows[0][nm] for nm in const}
        fv = s.ranges.fixedValueDict()
        c.check(sorted(fv) == sorted(fx), 'fixed parameters are recorded')
        for k in fv:
            if k in fx:
                c.check_eq(fv[k], fx[k], 'value of a fixed parameter is recorded')
        if 'b' not in const:
            c.check_eq(s.ranges.getUpper('b'), 2.5, 'other ranges unchanged')
            c.check(s.ranges.getLower('b') is None, 'other ranges unchanged')
    sample_dict(c, s, live, [d for nm, d in zip(NAMES, derived) if nm in live], rows, w, L, fx, 'fixed removed')


def small(c, U, cls, unit, off):
    """whether a parameter varies does not depend on its units or on an offset"""
    x = [c.real('x%d' % i, 1, 2) for i in range(3)]
    c.assume(c.or_(c.le(x[0] + 0.0625, x[1]), c.le(x[1] + 0.0625, x[0])))
    rows = [dict(a=[1., 2.5, 4.][i], b=off + x[i] * unit, q=0.) for i in range(3)]
    w, L = [1., 2., 1.], [1., 2., 3.]
    s = mk(c, U, cls, NAMES, rows, w, L, [False] * 3, ranges={} if cls == 'MCSamples' else None)
    if cls != 'MCSamples':
        s.deleteFixedParams()
    c.check(s.paramNames.list() == ['a', 'b'], 'constant parameters are the only ones removed')
    if s.paramNames.list() == ['a', 'b']:
        c.check_all_eq([list(r) for r in s.samples], [[r['a'], r['b']] for r in rows], 'values')


def derived(c, U, cls, n, const, chains=None):
    names = ['a', 'b']
    rows, w, L = data(c, n, names, ['b'] if const else [])
    s = mk(c, U, cls, names, rows, w, L, [False, False], ranges={'a': (0.5, None)}, chains=chains)
    if chains and cls != 'MCSamples':
        s.makeSingle()
    if const:
        s.deleteFixedParams()
        names = ['a']
    P = s.getParams()
    y = P.a * 2 + 1
    kw = {}
    if cls == 'MCSamples':
        kw = dict(range=(0, None))
    par = s.addDerived(y, 'd', label='\\delta', **kw)
    c.check(par.name == 'd' and par.label == '\\delta' and par.isDerived, 'information of the derived parameter')
    for r in rows:
        r['d'] = r['a'] * 2 + 1
    names = names + ['d']
    fx = {'b': rows[0]['b']} if const and cls == 'MCSamples' else {}
    addressed(c, U, s, names, rows, w, L, 'derived')
    sample_dict(c, s, names, [x == 'd' for x in names], rows, w, L, fx, 'derived')
    if cls == 'MCSamples':
        c.check_eq(s.ranges.getLower('d'), 0, 'range of the derived parameter')
        c.check(s.ranges.getUpper('d') is None, 'range of the derived parameter')
    z = c.reals('z', n)
    kw = dict(range=(5, 6)) if cls == 'MCSamples' else {}
    for nm in (['a', 'd']):
        _, e = c.raises(lambda: s.addDerived(c.array(z), nm, **kw))
        c.check(e is not None, 'a duplicate name is refused')
        addressed(c, U, s, names, rows, w, L, 'after refusal')
        if cls == 'MCSamples':
            c.check_eq(s.ranges.getLower(nm), 0.5 if nm == 'a' else 0, 'a refused parameter leaves the ranges alone')
            c.check(s.ranges.getUpper(nm) is None, 'a refused parameter leaves the ranges alone')
    s.addDerived(c.array(z), 'e')
    for r, v in zip(rows, z):
        r['e'] = v
    addressed(c, U, s, names + ['e'], rows, w, L, 'second derived')


def best(c, U, n):
    derived = [False, True, False]
    rows, w, L = data(c, n, NAMES, ordered=False)
    s = mk(c, U, 'MCSamples', NAMES, rows, w, L, derived, ranges={'fx': (2, 2)})
    for i in range(n):
        for j in range(i):
            c.assume(c.or_(L[i] - L[j] > 0.01, L[j] - L[i] > 0.01))
    for wd in (True, False):
        for wf in (True, False):
            d = s.getParamBestFitDict(best_sample=True, want_derived=wd, want_fixed=wf)
            want = ['weight', 'loglike'] + [m for m, x in zip(NAMES, derived) if wd or not x] + (['fx'] if wf else [])
            c.check(sorted(d) == sorted(want), 'best sample: keys')
            if sorted(d) == sorted(want):
                mn = c.min(L)
                c.check_eq(d['loglike'], mn, 'best sample: has the smallest -log(posterior)')
                for m in want[2:]:
                    for i in range(n):
                        c.check(c.implies(c.eq(L[i], mn), c.eq(d[m], 2 if m == 'fx' else rows[i][m])), 'best sample: value')


def merged(c, U, n1, n2, names1, names2, sw, conc):
    r1, w1, L1 = data(c, n1, names1, tag='1')
    r2, w2, L2 = data(c, n2, names2, tag='2')
    for x, y in zip([L2[0]], L1[-1:]):
        c.assume(x > y)
    if conc:  # total weight of one set concrete keeps the relative normalisation linear
        w2 = [1.25, 1.0]
    else:
        w1 = [1.0, 1.5]
    a = mk(c, U, 'MCSamples', names1, r1, w1, L1, [x == 'b' for x in names1], ranges={'a': (0.5, None)})
    b = mk(c, U, 'MCSamples', names2, r2, w2, L2, [x == 'b' for x in names2])
    if sw == 'default':
        m = a.getCombinedSamplesWithSamples(b)
        f = c.sum(w1) / c.sum(w2)
        W = list(w1) + [x * f for x in w2]
    elif sw is None:
        m = a.getCombinedSamplesWithSamples(b, sample_weights=None)
        W = list(w1) + list(w2)
    else:
        m = a.getCombinedSamplesWithSamples(b, sample_weights=sw)
        f = c.sum(w1) / c.sum(w2)
        W = [x * sw[0] for x in w1] + [x * f * sw[1] for x in w2]
    common = [x for x in names2 if x in names1]
    rows = r1 + r2
    L = list(L1) + list(L2)
    c.check(sorted(m.paramNames.list()) == sorted(common), 'merged: common parameters')
    if sorted(m.paramNames.list()) != sorted(common):
        return
    addressed(c, U, m, m.paramNames.list(), rows, W, L, 'merged')
    c.check([p.isDerived for p in m.paramNames.names] == [p.name == 'b' for p in m.paramNames.names], 'merged: derived flags')
    addressed(c, U, a, names1, r1, w1, L1, 'first unchanged')
    addressed(c, U, b, names2, r2, w2, L2, 'second unchanged')


def scenarios(tier):
    th = tier == 'thorough'
    D = [False, True, False]
    for cls in ('Chains', 'MCSamples'):
        yield Scenario(basic, dict(cls=cls, names=NAMES, derived=D, n=4 if th else 3))
        yield Scenario(basic, dict(cls=cls, names=['x', 'x.y', 'x.z.t'], derived=D, n=2))
        yield Scenario(basic, dict(cls=cls, names=['x.z.t', 'x.z', 'x'], derived=D, n=2))
        yield Scenario(basic, dict(cls=cls, names=NAMES, derived=None, n=4, chains=(2, 2)))
        for unit, off in ((2. ** -32, 0.), (2. ** -60, 0.), (2. ** 40, 0.), (2. ** -20, 1.), (2. ** -10, -1024.)):
            yield Scenario(small, dict(cls=cls, unit=unit, off=off))
        yield Scenario(derived, dict(cls=cls, n=2, const=False))
        yield Scenario(derived, dict(cls=cls, n=3 if th else 2, const=True))
        yield Scenario(derived, dict(cls=cls, n=3, const=False, chains=(1, 2) if cls == 'Chains' else (2, 1)))
        for k in range(1, 7) if th else (1, 2, 4, 5):
            const = [bool(k & (1 << i)) for i in range(3)]
            yield Scenario(fixed, dict(cls=cls, n=3, combined=True, chains=None, const=const, loop=NAMES[const.index(False)]))
        for k in range(1, 7) if th else (1, 2):
            const = [bool(k & (1 << i)) for i in range(3)]
            if cls == 'Chains':
                yield Scenario(fixed, dict(cls=cls, n=4, combined=False, chains=(2, 2), const=const))
            yield Scenario(fixed, dict(cls=cls, n=4, combined=True, chains=(2, 2), const=const))
    yield Scenario(filenames, dict(n=3))
    yield Scenario(best, dict(n=3))
    for i, (a, b, sw) in enumerate([(['a', 'b'], ['b', 'a'], 'default'), (['a', 'b', 'q'], ['q', 'a'], None),
                                    (['a', 'b'], ['q', 'b', 'a'], (2, 1)), (['a', 'a.b', 'q'], ['a.b', 'a'], 'default')]):
        yield Scenario(merged, dict(n1=2, n2=2, names1=a, names2=b, sw=sw, conc=i != 2))
