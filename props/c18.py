"""C18 every run of a parameter grid has one identity: names, paths, derived runs, lookup and state on disk."""
import itertools
import os
import types as T
from symx.run import Scenario

PRELOAD = ['paramgrid.gridconfig', 'paramgrid.batchjob_args']
BOUNDS = 'grids of up to 2 groups x 3 data sets x 3 parameter sets, up to 3 importance settings (every presence pattern), names of ' \
         '1-2 symbolic characters, up to 3 chains per run with every presence pattern, all file times and convergence values'
OUTSIDE = 'data set names containing underscores; larger grids'


def mkname(c, tag, alphabet, n=1):
    return c.pin(c.str(tag, n, alphabet))


def naming(c, U, np_, nd, base):
    B = U.batchjob
    params = [mkname(c, 'p%d' % i, 'xmZ') for i in range(np_)]
    data = [mkname(c, 'd%d' % i, 'abC') for i in range(nd)]
    c.assume(len(set(params)) == len(params) and len(set(data)) == len(data))
    ds = B.dataSet(list(data), [d + '.ini' for d in data], dist_settings={'k': 1})
    path = os.path.join(c.scratch, 'g') + os.sep
    j = B.jobItem(path, list(params), ds, base=base)
    pt = '_'.join([base] + params)
    dt = '_'.join(data)
    c.check(j.name == pt + '_' + dt and j.paramtag == pt and j.datatag == dt, 'name is made of the parameter and data tags')
    c.check(j.chainPath == path + pt + os.sep + dt + os.sep, 'directory')
    c.check(j.chainRoot == j.chainPath + j.name, 'chain root')
    c.check(j.distRoot == j.chainPath + 'dist' + os.sep + j.name, 'dist root')
    c.check(j.iniFile() == path + 'iniFiles' + os.sep + j.name + '.ini', 'ini file')
    c.check(j.iniFile('_minimize') == path + 'iniFiles' + os.sep + j.name + '_minimize.ini', 'ini file of a variant')
    c.check(j.normed_name == '_'.join([base] + sorted(params) + sorted(data)), 'normalised name')
    k = c.int('k', 1, 9)
    c.check(j.chainName(int(k)) == j.chainRoot + '_%d.txt' % int(k), 'chain file')
    c.check(j.chainNames(3) == [j.chainRoot + '_%d.txt' % i for i in (1, 2, 3)], 'chain files are numbered from one')
    c.check(all(j.data_set.hasName(d) for d in data) and not j.data_set.hasName('nothere'), 'data names')
    c.check(j.data_set.hasAll(data) and not j.data_set.hasAll(data + ['nothere']), 'all data names')
    c.check(j.data_set.hasName(['nothere', data[0]]) and not j.data_set.hasName(['nothere']), 'any data name')
    c.check(all(j.hasParam(p) for p in params) and not j.hasParam('zz'), 'parameters')
    j.dist_settings['k'] = 2
    c.check(ds.dist_settings == {'k': 1}, 'settings of one run do not leak to others of the same data set')


def inputs_kept(c, U, op):
    B = U.batchjob
    a, b = mkname(c, 'a', 'ab'), mkname(c, 'b', 'cd')
    names, params, sett = [a], [a + '.ini'], {'q': 1}
    ds = B.dataSet(names, params, dist_settings=sett)
    other = B.dataSet(names, params, dist_settings=sett)
    if op == 'add':
        ds.add(b, dist_settings={'q': 2})
        c.check(ds.params == [b + '.ini', a + '.ini'], 'added settings come first')
    elif op == 'addEnd':
        ds.addEnd(b, [b], dist_settings={'q': 2})
        c.check(ds.params == [a + '.ini', b + '.ini'], 'added settings come last')
    elif op == 'copy':
        d2 = ds.copy()
        d2.add(b)
        c.check(ds.names == [a] and ds.tag == a, 'copy is independent')
        ds = d2
    else:
        inis = [b]
        d2 = ds.extendForImportance([b], inis)
        c.check(d2.tag == a + '_post_' + b and d2.names == [a, b] and d2.params == [a + '.ini', b + '.ini'], 'extended data set')
        c.check(inis == [b], 'importance settings not modified')
        d3 = d2.extendForImportance(['z'], ['z'])
        c.check(d3.tag == a + '_post_' + b + '_z' and d3.names == [a, b, 'z'], 'extended twice')
        c.check(d2.names == [a, b], 'parent not modified')
        ds = None
    if ds is not None:
        c.check(ds.names == [a, b] and ds.tag == a + '_' + b, 'names and tag')
    c.check(names == [a] and params == [a + '.ini'] and sett == {'q': 1}, 'the lists it was made from are not modified')
    c.check(other.names == [a] and other.tag == a and other.params == [a + '.ini'] and other.dist_settings == {'q': 1}, 'other data sets are not modified')


def tagrep(c, U):
    B = U.batchjob
    n = [mkname(c, 'n%d' % i, 'ab') for i in range(2)]
    ds = B.dataSet(list(n), [])
    c.check(ds.tagReplacing('a', 'q') == '_'.join('q' if x == 'a' else x for x in n), 'replaced')
    c.check(ds.tagReplacing('a', '') == '_'.join(x for x in n if x != 'a'), 'removed')
    c.check(ds.namesReplacing({'a': 'q', 'b': ''}) == ['q' for x in n if x == 'a'], 'mapped')
    c.check(ds.makeNormedDatatag(None) == '_'.join(sorted(n)), 'sorted')


def settings_of(c, U, present, imps, filters=False):
    B = U.batchjob
    ds = {'a': B.dataSet(['a'], []), 'b': B.dataSet(['b'], []), 'ab': B.dataSet(['a', 'b'], []), 'ba': B.dataSet(['b', 'a'], [])}
    pars = {'0': [], 'm': ['m'], 'mr': ['m', 'r'], 'rm': ['r', 'm']}
    g = B.jobGroup('main', params=[pars[p] for p in present['params']], datasets=[ds[d] for d in present['data']],
                   importanceRuns=[(list(x), []) for x in imps])
    s = T.SimpleNamespace(groups=[g], ini_dir='batch/', importanceRuns=[])
    return s


def grid(c, U, data, params, imps, sub=False, skip=False, glob=False):
    """the grid holds every combination once; importance runs duplicate nothing"""
    B = U.batchjob
    on = [bool(c.bool('d_' + d)) for d in data]
    data = [d for d, o in zip(data, on) if o]
    c.assume(len(data) > 0)
    onp = [bool(c.bool('p_' + p)) for p in params]
    params = [p for p, o in zip(params, onp) if o]
    c.assume(len(params) > 0)
    oni = [bool(c.bool('i_' + '+'.join(i))) for i in imps]
    imps = [i for i, o in zip(imps, oni) if o]
    s = settings_of(c, U, dict(params=params, data=data), [] if glob else imps)
    if glob:
        s.importanceRuns = [(list(x), []) for x in imps]
    batch = B.batchJob(os.path.join(c.scratch, 'g') + os.sep, 'batch/')
    P = {'0': [], 'm': ['m'], 'mr': ['m', 'r'], 'rm': ['r', 'm']}
    full = [('_'.join(['base'] + P[p]) + '_' + '_'.join(list(d)), sorted(P[p]), sorted(d)) for d in data for p in params]
    if skip:
        batch.skip = [full[0][0]]
        full = full[1:]
    batch.makeItems(s, messages=False)
    items = list(batch.items())
    c.check(sorted(i.name for i in items) == sorted(f[0] for f in full), 'one run per combination, except skipped ones')
    fullnorm = {'_'.join(['base'] + f[1] + f[2]) for f in full}
    imp = [i for i in batch.items(wantImportance=True) if i.isImportanceJob]
    want = {}
    for (nm, ps, d) in full:
        for x in imps:
            if set(x) & set(d):
                continue
            norm = '_'.join(['base'] + ps + sorted(d + list(x)))
            if norm in fullnorm:
                continue
            want.setdefault(norm, []).append(nm + '_post_' + '_'.join(x))
    got = {}
    for i in imp:
        got.setdefault(i.normed_name, []).append(i.name)
    c.check(set(got) == set(want), 'importance runs for every wanted combination that is not a full run', [sorted(got), sorted(want)])
    c.check(all(len(v) == 1 for v in got.values()), 'no combination is importance sampled twice', [got])
    c.check(all(v[0] in want.get(k, []) for k, v in got.items()), 'importance run names')
    for i in imp:
        p = i.parent
        tag = i.name[len(p.name):]
        c.check(i.name.startswith(p.name + '_post_') and i.chainPath == p.chainPath and i.chainRoot == p.chainRoot + tag
                and i.distRoot == p.distRoot + tag and i.datatag == p.datatag + tag and i.paramtag == p.paramtag
                and i.group == p.group, 'importance run lives with its parent')
        c.check(i.iniFile() == batch.batchPath + 'postIniFiles' + os.sep + i.name + '.ini', 'importance ini file')
        c.check(i.data_set.names == p.data_set.names + i.importanceTag.split('_'), 'importance data')
    allitems = list(batch.items(wantImportance=True))
    roots = [i.chainRoot for i in allitems]
    c.check(len(set(roots)) == len(roots), 'no two runs share their output files')
    for i in allitems:
        c.check(batch.resolveRoot(i.name) is i, 'found by name')
        if len([x for x in allitems if x.normed_name == i.normed_name]) == 1:
            for dp in itertools.permutations(i.data_set.names):
                for pp in itertools.permutations(i.param_set):
                    r = batch.resolveName('_'.join(pp), '_'.join(dp), returnJobItem=True, raiseError=False)
                    c.check(r is i, 'found by tags in any order')
            c.check(batch.resolveName(list(i.param_set), i.datatag) == i.name, 'found by its data tag')
    c.check(batch.resolveName('nope', 'a', raiseError=False) is None, 'unknown is not found')
    _, e = c.raises(lambda: batch.resolveName('nope', 'a'))
    c.check(e is not None, 'unknown raises')
    c.check(batch.hasName('base_zz') is False, 'unknown name')


def nested_importance(c, U, base):
    """importance runs of importance runs, with any base tag"""
    B = U.batchjob
    x, y = mkname(c, 'x', 'pq'), mkname(c, 'y', 'rs')
    j = B.jobItem(os.path.join(c.scratch, 'g') + os.sep, ['m'], B.dataSet(['a'], []), base=base)
    j.group = 'gg'
    j.makeImportance([([x], [])])
    k = j.importanceJobs()[0]
    k.makeImportance([([y], []), ([x], [])])
    c.check([q.name for q in k.importanceJobs()] == [j.name + '_post_' + x + '_' + y], 'nested name, nothing twice')
    l = k.importanceJobs()[0]
    c.check([q.normed_name for q in (j, k, l)] == ['_'.join([base, 'm'] + sorted(d)) for d in (['a'], ['a', x], ['a', x, y])], 'normalised names')
    c.check([q.name for q in j.importanceJobsRecursive()] == [k.name, l.name], 'listed recursively')
    c.check(l.parent is k and k.parent is j and l.base == base and l.paramtag == j.paramtag, 'parents and base tag')
    j.removeImportance(l)
    c.check(k.importanceJobs() == [] and j.importanceJobs() == [k], 'removed where it is')


def chains_on_disk(c, U):
    B = U.batchjob
    j = B.jobItem(c.scratch + os.sep, [], B.dataSet(['a'], []))
    os.makedirs(j.chainPath)
    st = []
    for i in (1, 2, 3):
        s = int(c.int('s%d' % i, 0, 2))  # missing, empty, data
        st.append(s)
        if s:
            with open(j.chainName(i), 'w') as f:
                f.write('1 2 3\n' if s == 2 else '')
    c.check([j.chainExists(i) for i in (1, 2, 3)] == [s == 2 for s in st], 'a chain exists if it has data')
    n = 0
    while n < 3 and st[n] == 2:
        n += 1
    c.check(j.chainNames() == [j.chainName(i + 1) for i in range(n)], 'existing chains')
    for k in (1, 2, 3):
        c.check(j.allChainExists(k) == all(s == 2 for s in st[:k]), 'all chains')


class Clock:
    """stand-ins for file times and the clock"""

    def __init__(self, times, now=None):
        self.times, self.now = times, now

    def __enter__(self):
        import time
        self.a, self.b = os.path.getmtime, time.time
        os.path.getmtime = lambda f: self.times[f]
        if self.now is not None:
            time.time = lambda: self.now

    def __exit__(self, *a):
        import time
        os.path.getmtime, time.time = self.a, self.b


def touch(f, t='1\n'):
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, 'w') as h:
        h.write(t)


def status(c, U, what):
    B = U.batchjob
    j = B.jobItem(c.scratch + os.sep, [], B.dataSet(['a'], []))
    j.makeImportance([(['b'], [])])
    k = j.importanceJobs()[0]
    os.makedirs(j.chainPath)
    has = [bool(c.bool('h%d' % i)) for i in range(2)]
    t = [c.real('t%d' % i, 0, 5000) for i in range(3)]
    if what == 'dist':
        m = j.distRoot + '.margestats'
        if has[0]:
            touch(j.chainName())
        if has[1]:
            touch(m)
        with Clock({j.chainName(): t[0], m: t[1]}):
            c.check(c.eq(bool(j.getDistNeedsUpdate()), c.and_(has[0], c.or_(not has[1], t[0] > t[1]))), 'analysis needed if missing or older than the chain')
    elif what == 'parent':
        touch(j.chainName())
        if has[0]:
            touch(k.chainName())
        with Clock({j.chainName(): t[0], k.chainName(): t[1]}):
            c.check(c.eq(bool(k.parentChanged()), c.or_(not has[0], t[1] < t[0])), 'importance run is stale if missing or older than its parent')
    elif what == 'running':
        if has[0]:
            touch(j.chainName())
        now = c.real('now', 5000, 9000)
        with Clock({j.chainName(): t[0]}, now):
            c.check(c.eq(bool(j.notRunning()), c.and_(has[0], t[0] < now - 300)), 'stopped if the chain was last written over five minutes ago')
    elif what == 'dodgy':
        iv = c.real('iv', 1, 2000)
        touch(j.chainName(1))
        touch(j.chainName(2))
        if has[0]:
            touch(j.chainName(4))
        with Clock({j.chainName(1): t[0], j.chainName(2): t[1], j.chainName(4): t[2]}):
            c.check(c.eq(bool(j.chainsDodgy(iv)), c.or_(has[0], t[0] - t[1] > iv, t[1] - t[0] > iv)), 'missing chains or different dates')


def converged(c, U, done):
    """convergence read from the file the sampler writes"""
    B = U.batchjob
    j = B.jobItem(c.scratch + os.sep, [], B.dataSet(['a'], []))
    os.makedirs(j.chainPath)
    R = c.real('R', 0, 3)
    mn = c.real('min', 0, 3)
    c.check(j.convergeStat() == (None, None) and not j.chainFinished() and not j.wantCheckpointContinue(), 'no convergence file')
    lines = {'done': ['Done'], 'no': [], 'other': ['NotDone']}[done]
    with open(j.chainRoot + '.converge_stat', 'w') as f:
        f.write('\n'.join([str(R)] + lines) + '\n')
    r, d = j.convergeStat()
    c.check_eq(r, R, 'convergence value')
    c.check(d == (done == 'done'), 'finished flag')
    c.check(bool(j.chainFinished()) == (done == 'done'), 'finished')
    chk = bool(c.bool('chk'))
    if chk:
        touch(j.chainRoot + '_1.chk')
    c.check(c.eq(bool(j.wantCheckpointContinue(mn)), c.and_(chk, done != 'done', R > mn)), 'continued if checkpointed, unfinished and not converged enough')


def better(c, U):
    B = U.batchjob
    j = B.jobItem(c.scratch + os.sep, [], B.dataSet(['a'], []))
    R, lim = c.real('R', 0, 3), c.real('lim', 0, 3)
    ex = bool(c.bool('ex'))
    c.check(j.hasConvergeBetterThan(lim) is False and j.hasConvergeBetterThan(lim, returnNotExist=True) is True, 'no convergence results')
    j.result_converge = T.SimpleNamespace(worstR=lambda: R)
    c.check(c.eq(bool(j.hasConvergeBetterThan(lim, returnNotExist=ex)), R <= lim), 'converged better than a limit')


def subgrids(c, U):
    B = U.batchjob
    mk = lambda n, d: (lambda b: (b.makeItems(settings_of(c, U, dict(params=['0'], data=d), [('c',)]), messages=False), b)[1])(B.batchJob(os.path.join(c.scratch, n) + os.sep, 'x/'))
    b1, b2 = mk('one', ['a']), mk('two', ['b'])
    b1.subBatches.append(b2)
    sub, imp = bool(c.bool('sub')), bool(c.bool('imp'))
    names = [i.name for i in b1.items(wantSubItems=sub, wantImportance=imp)]
    exp = []
    for d, on in (('a', True), ('b', sub)):
        if on:
            exp += ['base_' + d] + (['base_%s_post_c' % d] if imp else [])
    c.check(names == exp, 'items of the grid and its sub-grids')
    c.check(b1.hasName('base_b', wantSubItems=sub) == sub, 'name in a sub-grid')


def scenarios(tier):
    th = tier == 'thorough'
    for np_, nd, base in [(0, 1, 'base'), (1, 2, 'base'), (2, 1, 'other')] + ([(2, 2, 'base'), (3, 1, 'x')] if th else []):
        yield Scenario(naming, dict(np_=np_, nd=nd, base=base))
    for op in ('add', 'addEnd', 'copy', 'importance'):
        yield Scenario(inputs_kept, dict(op=op))
    yield Scenario(tagrep, dict())
    for data, params, imps in [(('a', 'b', 'ab'), ('0', 'm'), (('b',), ('z',))),
                               (('a', 'ba'), ('m', 'mr'), (('b',), ('a',), ('y', 'z'))),
                               (('a', 'b'), ('0', 'rm'), (('b',), ('a',), ('z',)))]:
        for glob in (False, True):
            yield Scenario(grid, dict(data=data, params=params, imps=imps, glob=glob))
    yield Scenario(grid, dict(data=('a', 'b'), params=('0', 'm'), imps=(('z',),), skip=True))
    if th:
        yield Scenario(grid, dict(data=('a', 'b', 'ab'), params=('0', 'm', 'mr'), imps=(('b',), ('a',), ('z',), ('z', 'b')), glob=True))
    for base in ('base', 'alt'):
        yield Scenario(nested_importance, dict(base=base))
    yield Scenario(chains_on_disk, dict())
    for w in ('dist', 'parent', 'running', 'dodgy'):
        yield Scenario(status, dict(what=w))
    for d in ('done', 'no', 'other'):
        yield Scenario(converged, dict(done=d))
    yield Scenario(better, dict())
    yield Scenario(subgrids, dict())
