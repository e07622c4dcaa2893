"""C24 runs described by a Cobaya info (dictionary or file) load with their own parameters, priors, labels and burn-in."""
import copy
import os
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = 'up to 3 parameters in every form of specification, any prior limits and fixed values, post-processing that adds or removes ' \
         'parameters, likelihoods and priors, any column order of the chains'
OUTSIDE = 'other prior distributions than norm, uniform, halfnorm; yaml syntax'

FORMS = ['list', 'tuple', 'minmax', 'min', 'max', 'norm', 'unif', 'half', 'derived', 'dermin', 'none', 'flag', 'fixed', 'fixedd', 'lam',
         'lamflag', 'lamoff', 'func', 'funcoff', 'proposal']


def spec(c, form, tag):
    """-> info, kind (sampled, derived, fixed, function), (lower, upper)"""
    lo, hi = c.real('lo' + tag, -5, 5), c.real('hi' + tag, 6, 9)
    if form == 'list':
        return {'prior': [lo, hi], 'latex': 'L' + tag}, 'sampled', (lo, hi)
    if form == 'tuple':
        return {'prior': (lo, hi), 'latex': 'L' + tag, 'ref': 1}, 'sampled', (lo, hi)
    if form == 'minmax':
        return {'prior': {'min': lo, 'max': hi}, 'latex': 'L' + tag, 'renames': ['r' + tag, 's' + tag]}, 'sampled', (lo, hi)
    if form == 'min':
        return {'prior': {'min': lo, 'dist': 'x'}, 'latex': 'L' + tag}, 'sampled', (lo, None)
    if form == 'max':
        return {'prior': {'max': hi}, 'latex': 'L' + tag}, 'sampled', (None, hi)
    if form == 'norm':
        return {'prior': {'dist': 'norm', 'loc': 1., 'scale': 2.}, 'latex': 'L' + tag, 'renames': 'r' + tag}, 'sampled', (None, None)
    if form == 'unif':
        return {'prior': {'loc': 1., 'scale': 2.5}}, 'sampled', (1., 3.5)
    if form == 'half':
        return {'prior': {'dist': 'halfnorm', 'loc': 1.5, 'scale': 2.}}, 'sampled', (1.5, None)
    if form == 'proposal':
        return {'prior': {'min': lo, 'max': hi}, 'proposal': 1., 'ref': {'dist': 'norm', 'loc': 0, 'scale': 1}}, 'sampled', (lo, hi)
    if form == 'derived':
        return {'latex': 'L' + tag}, 'derived', (None, None)
    if form == 'dermin':
        return {'derived': True, 'min': lo, 'latex': 'L' + tag}, 'derived', (lo, None)
    if form == 'none':
        return None, 'derived', (None, None)
    if form == 'flag':
        return {'derived': 'lambda x: x', 'max': hi}, 'derived', (None, hi)
    if form == 'fixed':
        return lo, 'fixed', (lo, lo)
    if form == 'fixedd':
        return {'value': hi, 'latex': 'L' + tag}, 'fixed', (hi, hi)
    if form == 'lam':
        return 'lambda b: 2*b', 'derived', (None, None)
    if form == 'lamflag':
        return {'value': 'lambda b: 2*b', 'derived': True, 'min': lo, 'latex': 'L' + tag}, 'derived', (lo, None)
    if form == 'lamoff':
        return {'value': 'lambda b: 2*b', 'derived': False}, 'function', (None, None)
    if form == 'func':
        return {'value': len, 'max': hi}, 'derived', (None, hi)
    if form == 'funcoff':
        return {'value': len, 'derived': False}, 'function', (None, None)
    raise ValueError(form)


class Data:
    def __init__(self, cols):
        self.columns = cols

    def __iter__(self):
        return iter(self.columns)


class Vals:
    def __init__(self, v):
        self.values = v


class Coll:
    """what is used of a Cobaya collection"""

    def __init__(self, c, cols, rows):
        self.c = c
        self.data = Data(cols)
        self.rows = rows

    def __getitem__(self, k):
        cols = self.data.columns
        if isinstance(k, str):
            return Vals(self.c.array([r[cols.index(k)] for r in self.rows]))
        ix = [cols.index(x) for x in k]
        return Vals(self.c.array([[r[i] for i in ix] for r in self.rows]))


def snap(info):
    """copy that keeps the symbolic numbers"""
    if isinstance(info, dict):
        return {k: snap(v) for k, v in info.items()}
    if isinstance(info, list):
        return [snap(v) for v in info]
    return info


def unchanged(c, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(unchanged(c, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(unchanged(c, x, y) for x, y in zip(a, b))
    return a is b or a == b


def bound(c, have, want, label):
    c.check((have is None) == (want is None), label + ': bounded', (str(have), str(want)))
    if have is not None and want is not None:
        c.check_eq(have, want, label)


def base(c, forms):
    info = {'params': {}, 'likelihood': {'like_one': None, 'two': {'x': 1}}, 'sampler': {'mcmc': None}}
    exp = {}
    for i, f in enumerate(forms):
        nm = 'abc'[i]
        info['params'][nm], kind, lim = spec(c, f, nm)
        d = info['params'][nm] if isinstance(info['params'][nm], dict) else {}
        rn = d.get('renames', [])
        exp[nm] = (kind, lim, d.get('latex', nm), [rn] if isinstance(rn, str) else rn)
    return info, exp


def auto(likes, priors):
    out = {'minuslogprior': '-\\log\\pi'}
    for p in ['0'] + priors:
        out['minuslogprior__' + p] = '-\\log\\pi_\\mathrm{' + p.replace('_', '\\ ') + '}'
    out['chi2'] = '\\chi^2'
    for l in likes:
        out['chi2__' + l] = '\\chi^2_\\mathrm{' + l.replace('_', '\\ ') + '}'
    return out


def rows(cols, n):
    out = []
    for i in range(n):
        r = []
        for j, k in enumerate(cols):
            r.append(1. + i if k == 'weight' else 10. + i * 0.5 if k == 'minuslogpost' else ((i + 1) * (j + 3) % 7) + 0.1 * j + 0.3 * i)
        out.append(r)
    return out


def collections(c, U, forms, perm, nchain=1):
    info, exp = base(c, forms)
    likes = list(info['likelihood'])
    extra = auto(likes, [])
    var = [k for k, v in exp.items() if v[0] in ('sampled', 'derived')]
    cols = var + list(extra)
    cols = ['weight', 'minuslogpost'] + (list(reversed(cols)) if perm else cols)
    info['label'] = 'some label'
    keep = snap(info)
    for call in range(2):
        data = [rows(cols, 3 + k) for k in range(nchain)]
        cc = [Coll(c, cols, d) for d in data]
        m, e = c.raises(lambda: U('getdist.cobaya_interface').MCSamplesFromCobaya(info, cc[0] if nchain == 1 else cc, name_tag='tag'))
        c.check(e is None, 'loads', repr(e))
        if e is not None:
            return
        c.check(unchanged(c, keep, info), 'the info is not changed')
        c.check([p.name for p in m.paramNames.names] == cols[2:], 'columns in their own order', [p.name for p in m.paramNames.names])
        for p in m.paramNames.names:
            kind, lim, lab, rn = exp.get(p.name, ('derived', (None, None), extra.get(p.name), []))
            c.check(bool(p.isDerived) == (kind == 'derived'), 'derived flag of ' + p.name)
            c.check(p.label == lab, 'label of ' + p.name, p.label)
            c.check(sorted(p.renames) == sorted(rn), 'aliases of ' + p.name, p.renames)
        for nm, (kind, lim, lab, rn) in exp.items():
            bound(c, m.ranges.getLower(nm), lim[0], 'lower limit')
            bound(c, m.ranges.getUpper(nm), lim[1], 'upper limit')
        flat = [r for d in data for r in d]
        c.check([[float(x) for x in r] for r in m.samples] == [r[2:] for r in flat], 'samples')
        c.check([float(x) for x in m.weights] == [r[0] for r in flat] and [float(x) for x in m.loglikes] == [r[1] for r in flat],
                'weights and likelihoods')
        c.check(m.label == 'some label' and m.getName() == 'tag' and m.sampler == 'mcmc', 'label and sampler')


def mismatch(c, U):
    """columns that are not those of the info are refused"""
    info, exp = base(c, ['list', 'none'])
    cols = ['weight', 'minuslogpost', 'a', 'b'] + list(auto(list(info['likelihood']), []))
    k = c.choice('k', 3)
    bad = list(cols)
    if k == 0:
        bad.append('other')
    elif k == 1:
        bad.remove('b')
    else:
        bad[2] = 'z'
    _, e = c.raises(lambda: U('getdist.cobaya_interface').MCSamplesFromCobaya(info, Coll(c, bad, rows(bad, 3))))
    c.check(e is not None, 'refused')
    _, e = c.raises(lambda: U('getdist.cobaya_interface').MCSamplesFromCobaya(info, [Coll(c, cols, rows(cols, 3)), Coll(c, list(reversed(cols)), rows(cols, 3))]))
    c.check(e is not None, 'collections with different columns refused')


def post(c, U, what):
    """post-processing adds and removes"""
    info, exp = base(c, ['list', 'none', 'fixed'])
    info['prior'] = {'p_1': 'x', 'p2': 'y'}
    lo = c.real('newlo', -3, 3)
    P = {'skip': 0.3}
    likes, priors = list(info['likelihood']), ['p_1', 'p2']
    lim = dict((k, v[1]) for k, v in exp.items())
    add, rem = {}, {}
    if 'addp' in what:
        add['params'] = {'a': {'prior': {'min': lo}}, 'd': {'latex': 'D', 'min': lo}}
        lim['a'], lim['d'] = (lo, None), (lo, None)
    if 'addl' in what:
        add['likelihood'] = {'new_l': None}
        likes.append('new_l')
    if 'addr' in what:
        add['prior'] = {'q': 'z'}
        priors.append('q')
    if 'remp' in what:
        rem['params'] = ['b']
        del lim['b']
    if 'reml' in what:
        rem['likelihood'] = ['two'] if 'list' in what else 'two'
        likes.remove('two')
    if 'remr' in what:
        rem['prior'] = ['p_1'] if 'list' in what else 'p_1'
        priors.remove('p_1')
    if add:
        P['add'] = add
    if rem:
        P['remove'] = rem
    info['post'] = P
    keep = snap(info)
    I = U('getdist.cobaya_interface')
    for call in range(2):
        r = I.get_info_params(info)
        ex = auto(likes, priors)
        c.check(sorted(r) == sorted(list(lim) + list(ex)), 'parameters', sorted(r))
        c.check([k for k in r if k in ex] == list(ex), 'derived probabilities')
        for k, v in ex.items():
            c.check(k in r and r[k]['latex'] == v and I.is_derived_param(r[k]), 'their labels')
        for k, v in lim.items():
            if k in r:
                g = I.get_range(r[k])
                bound(c, g[0], v[0], 'lower limit')
                bound(c, g[1], v[1], 'upper limit')
        c.check('a' in r and r['a'].get('latex') == 'La', 'other settings of a parameter are kept')
        c.check(unchanged(c, keep, info), 'the info is not changed')


def files(c, U, sep, dirroot=False):
    """names, limits, label, sampler and burn-in from the files of a run"""
    full = bool(c.bool('full'))  # older naming
    skip = [None, 0, 0.3][c.choice('skip', 3)]
    sampler = [None, 'mcmc', 'polychord'][c.choice('sampler', 3)]
    ign = [0, 2][c.choice('ign', 2)]
    d = c.scratch
    root = d + os.sep if dirroot else os.path.join(d, 'run')
    with open(root + (('' if dirroot else '__') + 'full.yaml' if full else ('' if dirroot else '.') + 'updated.yaml'), 'w') as f:
        f.write('label: nice run\nlikelihood:\n  one_l:\nparams:\n  a:\n    prior: {min: -1, max: 1e1}\n    latex: A_a\n    renames: alt\n'
                '  e:\n    prior:\n      dist: norm\n      loc: 0\n      scale: 1\n  d:\n    latex: D\n  fx: 0.5\n'
                '  d2: "lambda a: a"\n  lam:\n    value: "lambda a: a"\n    derived: false\n')
        if sampler:
            f.write('sampler:\n  %s:\n    x: 1\n' % sampler)
        if skip is not None:
            f.write('post:\n  skip: %s\n' % skip)
    cols = ['a', 'e', 'd', 'd2', 'minuslogprior', 'minuslogprior__0', 'chi2', 'chi2__one_l']
    data = [[1. + i, 5. + i] + [((i + 1) * (j + 3) % 7) + 0.5 * j + 0.25 * i for j in range(len(cols))] for i in range(8)]
    for k in range(2):
        with open(root + ('' if dirroot else sep) + '%d.txt' % (k + 1), 'w') as f:
            if sep == '.':
                f.write('# weight minuslogpost ' + ' '.join(cols) + '\n')
            for r in data:
                f.write(' '.join('%.8g' % (x + 0.125 * k * (j > 0)) for j, x in enumerate(r)) + '\n')
    nested = sampler == 'polychord'
    st = dict(ignore_rows=0 if nested else ign)
    m, e = c.raises(lambda: U.mcsamples.loadMCSamples(root, no_cache=True, settings=st))
    c.check(e is None, 'loads', repr(e))
    if e is not None:
        return
    c.check(m.paramNames.list() == cols, 'names', m.paramNames.list())
    c.check([bool(p.isDerived) for p in m.paramNames.names] == [False] * 2 + [True] * 6, 'derived flags')
    c.check(m.paramNames.labels()[:3] == ['A_a', 'e', 'D'] and m.paramNames.names[0].renames == ['alt'], 'labels and aliases')
    R = m.ranges
    c.check((R.getLower('a'), R.getUpper('a')) == (-1, 10) and R.getLower('e') is None and R.getUpper('e') is None
            and R.fixedValue('fx') == 0.5 and R.fixedValue('lam') is None and R.getLower('lam') is None, 'limits')
    c.check(m.sampler == {'polychord': 'nested'}.get(sampler, 'mcmc'), 'sampler', m.sampler)
    c.check(m.label == 'nice run', 'label')
    drop = 0 if skip or nested else ign
    want = [r for k in range(2) for r in [[x + 0.125 * k * (j > 0) for j, x in enumerate(q)] for q in data[drop:]]]
    c.check(m.samples.shape == (len(want), len(cols)), 'number of rows: burn-in removed once', (m.samples.shape, drop))
    if m.samples.shape == (len(want), len(cols)):
        c.check(all(abs(float(x) - y) < 1e-6 for a, b in zip(m.samples, want) for x, y in zip(a, b[2:])), 'samples')
        c.check([float(x) for x in m.weights] == [r[0] for r in want], 'weights')


def scenarios(tier):
    th = tier == 'thorough'
    for f in FORMS:
        yield Scenario(collections, dict(forms=(f, 'list', 'fixed'), perm=True))
    yield Scenario(collections, dict(forms=('minmax', 'derived', 'half'), perm=False, nchain=2))
    yield Scenario(collections, dict(forms=('norm', 'dermin', 'lam'), perm=True, nchain=2))
    yield Scenario(mismatch, {})
    for w in ('addp', 'addl', 'addr', 'remp', 'reml', 'reml,list', 'remr', 'remr,list', 'addp,remp,addl,reml,addr,remr', 'none'):
        yield Scenario(post, dict(what=w))
    for sep in '_.':
        yield Scenario(files, dict(sep=sep))
    if th:
        for f in FORMS:
            for g in FORMS:
                yield Scenario(collections, dict(forms=(f, g), perm=False))
