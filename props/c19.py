"""C19 selecting runs of a grid: exactly the runs meeting every given condition."""
import os
import types as T
from symx.run import Scenario

PRELOAD = ['paramgrid.batchjob_args']
BOUNDS = 'grid of 8 full and 8 importance runs; every option with 1-2 values of 1-2 symbolic characters, options combined in pairs; every presence pattern of chains'
OUTSIDE = 'combining an exact data tag with data/skip_data, or an exact parameter tag with param/skip_param'


def build(c, U):
    B = U.batchjob
    g1 = B.jobGroup('g1', params=[[], ['m']], datasets=[B.dataSet(['a'], []), B.dataSet(['b', 'a'], [])], importanceRuns=[(['z'], []), (['y', 'z'], [])])
    g2 = B.jobGroup('g2', params=[['m', 'r'], ['r']], datasets=[B.dataSet(['c'], []), B.dataSet(['a', 'c'], [])], importanceRuns=[(['y'], [])])
    s = T.SimpleNamespace(groups=[g1, g2], ini_dir='x/')
    b = B.batchJob(os.path.join(c.scratch, 'g') + os.sep, 'x/')
    b.makeItems(s, messages=False)
    return b


# runs of the grid as plain data: name, parameters, data, importance names (or None), group
def runs():
    out = []
    for grp, pars, dats, imps in (('g1', [[], ['m']], [['a'], ['b', 'a']], [['z'], ['y', 'z']]),
                                  ('g2', [['m', 'r'], ['r']], [['c'], ['a', 'c']], [['y']])):
        for d in dats:
            for p in pars:
                nm = '_'.join(['base'] + p + d)
                out.append((nm, p, d, None, grp))
                for i in imps:
                    out.append((nm + '_post_' + '_'.join(i), p, d + i, i, grp))
    return out


def opts(U, batch, vals, **kw):
    U.batchjob.readobject, old = (lambda p=None: batch), U.batchjob.readobject
    try:
        O = U.batchjob_args.batchArgs('x', importance=True, **kw)
        O.parseForBatch(['path'] + vals)
    finally:
        U.batchjob.readobject = old
    return O


OPTS = {
    'data': (lambda r, v: bool(set(v) & set(r[2])), 'abcyzq', 1),
    'skip_data': (lambda r, v: not set(v) & set(r[2]), 'abcyzq', 1),
    'musthave_data': (lambda r, v: set(v) <= set(r[2]), 'abcyzq', 1),
    'param': (lambda r, v: bool(set(v) & set(r[1])), 'mrq', 1),
    'skip_param': (lambda r, v: not set(v) & set(r[1]), 'mrq', 1),
    'group': (lambda r, v: r[4] in v, 'g12', 2),
    'skip_group': (lambda r, v: r[4] not in v, 'g12', 2),
    'importance': (lambda r, v: r[3] is not None and (not v or bool(set(v) & set(r[3]))), 'yzq', 1),
    'importancetag': (lambda r, v: r[3] is None or not v or '_'.join(r[3]) in v, 'yz_', 3),
    'noimportance': (lambda r, v: r[3] is None, '', 0),
    'paramtag': (lambda r, v: '_'.join(['base'] + r[1]) in v, '', 0),
    'datatag': (lambda r, v: r[5] in v, '', 0),
    'name': (lambda r, v: None, '', 0),
}
FIXED = {'paramtag': ['base', 'base_m', 'base_m_r', 'base_r_m', 'm'], 'datatag': ['a', 'b_a', 'a_b', 'a_post_z', 'a_z', 'a_c_post_y', 'c']}


def wild(pat, s):
    """the pattern language of --name: *, ? and letters"""
    if not pat:
        return not s
    if pat[0] == '*':
        return wild(pat[1:], s) or bool(s) and wild(pat, s[1:])
    return bool(s) and pat[0] in ('?', s[0]) and wild(pat[1:], s[1:])


def tagged(r):
    n = len('_'.join(['base'] + r[1])) + 1
    return r + (r[0][n:],)


def select(c, U, options, n=1):
    batch = build(c, U)
    vals, conds = [], []
    for o in options:
        f, alpha, ln = OPTS[o]
        vals.append('--' + o)
        v = []
        if o == 'name':
            for k in range(n):
                v.append('base_' + c.pin(c.str('name%d' % k, 3, 'am_*?')) + ('_a' if k else '*'))
            conds.append((lambda r, v: any(wild(p, r[0]) for p in v), v))
        else:
            if o in FIXED:
                v = [FIXED[o][int(c.int('%s%d' % (o, k), 0, len(FIXED[o]) - 1))] for k in range(n)]
            elif ln:
                m = n
                if o in ('importance', 'importancetag'):
                    m = int(c.int('n_' + o, 0, n))
                v = [c.pin(c.str('%s%d' % (o, k), ln, alpha)) for k in range(m)]
            conds.append((f, v))
        vals += v
    exist = None
    O = opts(U, batch, vals)
    got = [j.name for j in O.filteredBatchItems()]
    exp = [r[0] for r in map(tagged, runs()) if all(f(r, v) for f, v in conds)]
    c.check(sorted(got) == sorted(exp), 'exactly the runs meeting every condition', [sorted(set(got) ^ set(exp)), vals])
    c.check(len(set(got)) == len(got), 'no run twice')


def everything(c, U):
    batch = build(c, U)
    O = opts(U, batch, [])
    got = [j.name for j in O.filteredBatchItems()]
    c.check(sorted(got) == sorted(r[0] for r in runs()), 'without conditions: all runs')


def existing(c, U):
    batch = build(c, U)
    items = list(batch.items())[:3]
    on = [bool(c.bool('e%d' % i)) for i in range(3)]
    for j, o in zip(items, on):
        if o:
            os.makedirs(j.chainPath)
            with open(j.chainName(), 'w') as f:
                f.write('1\n')
    O = opts(U, batch, ['--noimportance'])
    got = [j.name for j in O.filteredBatchItems(chainExist=True)]
    c.check(got == [j.name for j, o in zip(items, on) if o], 'only existing chains')
    d = O.sortedParamtagDict(chainExist=True)
    c.check([k for k, _ in d] == sorted({j.paramtag for j, o in zip(items, on) if o}), 'grouped by parameter tag')
    c.check(sorted(j.name for _, v in d for j in v) == sorted(got) and all(j.paramtag == k for k, v in d for j in v), 'every run in its own group')


def compare(c, U):
    """data tags given in any order"""
    batch = build(c, U)
    O = opts(U, batch, [])
    x = ['a', 'a_b', 'b_a', 'c_a', 'a_c', 'a_z', 'z_a'][int(c.int('tag', 0, 6))]
    items = [j for j in O.filteredBatchItems()]
    res = O.filterForDataCompare(items, [x])
    exp = [r[0] for r in map(tagged, runs()) if sorted(r[2]) == sorted(x.split('_'))]
    c.check(sorted(j.name for j in res) == sorted(exp), 'runs with these data')


def scenarios(tier):
    th = tier == 'thorough'
    yield Scenario(everything, dict())
    yield Scenario(existing, dict())
    yield Scenario(compare, dict())
    names = list(OPTS)
    for o in names:
        yield Scenario(select, dict(options=(o,), n=1))
        if o in ('data', 'skip_data', 'musthave_data', 'param', 'skip_param', 'importance') or o in FIXED:
            yield Scenario(select, dict(options=(o,), n=2))
    if th:
        yield Scenario(select, dict(options=('name',), n=2))
        yield Scenario(select, dict(options=('group',), n=2))
    bad = [{'datatag', 'data'}, {'datatag', 'skip_data'}, {'paramtag', 'param'}, {'paramtag', 'skip_param'}, {'noimportance', 'importance'}]
    for i, a in enumerate(names):
        for b in names[:i]:
            if {a, b} in bad or 'name' in (a, b) and not th:
                continue
            if not th and 'importancetag' in (a, b):
                continue
            yield Scenario(select, dict(options=(b, a), n=1))
