"""C22 the settings files made for a grid: each run samples exactly its own model, data and options."""
import contextlib
import io
import os
import types as T
from symx.run import Scenario

PRELOAD = ['paramgrid.gridconfig']
BOUNDS = 'grids of up to 4 runs with importance runs; every pattern of presence of one option over all the places it can be set; every ' \
         'subset of varied parameters of 2; every pattern of existing candidate covariance files'
OUTSIDE = 'two option dictionaries of the same data set setting the same key; renaming functions of covariance files; running the sampler'


def make(c, U, settings, **kw):
    root = c.scratch + os.sep
    f = os.path.join(c.scratch, 'mysettings.py')
    if not os.path.exists(f):
        with open(f, 'w') as h:
            h.write('ini_dir="x"\n')
    settings.__file__ = f
    old = U.batchjob.getCodeRootPath
    U.batchjob.getCodeRootPath = lambda: root
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return U.gridconfig.makeGrid(os.path.join(c.scratch, 'grid'), settings=settings, **kw)
    finally:
        U.batchjob.getCodeRootPath = old


def ini_file(c, name, lines):
    d = os.path.join(c.scratch, 'b')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name), 'w') as f:
        f.write(''.join(l + '\n' for l in lines))


def read(U, f):
    return U.inifile.IniFile(f).params


LAYERS = ['data', 'job', 'all', 'jobparam', 'param', 'override', 'datafile', 'datafile2', 'default', 'default2']


def precedence(c, U, only):
    """the option k over all the places it can be set: first of LAYERS wins"""
    B = U.batchjob
    on = {l: bool(c.bool('on_' + l)) if l in only else False for l in LAYERS}
    k = lambda l: {'k': l} if on[l] else {}
    line = lambda l: ['k = ' + l] if on[l] else []
    g = B.jobGroup('g', params=[['m']], datasets=[B.dataSet(['a', 'b'], [k('data'), 'da', 'db.ini'])])
    g2 = B.jobGroup('g2', params=[['q']], datasets=[B.dataSet(['c'], ['dc'])])
    s = T.SimpleNamespace(groups=[g, g2], ini_dir='b/', defaults=['def1.ini', 'def2.ini'], importanceDefaults=['imp.ini'], cov_dir='cov',
                          params={'m': '1 0 2 0.1 0.1', 'q': '3'}, param_extra_opts={'m': dict(k('param'), both=1)}, extra_opts=dict(k('all'), glob=2))
    g.extra_opts = dict(k('job'), mine=3)
    g.param_extra_opts = {'m': k('jobparam')}
    if 'override' in only:
        s.override_defaults = ['over.ini']
        ini_file(c, 'over.ini', line('override'))
    ini_file(c, 'da.ini', line('datafile') + ['A = 1'])
    ini_file(c, 'db.ini', line('datafile2') + ['A = 2', 'B = 2'])
    ini_file(c, 'dc.ini', ['A = 4'])
    ini_file(c, 'def1.ini', line('default') + ['A = 3', 'D = 1'])
    ini_file(c, 'def2.ini', line('default2') + ['A = 5', 'D = 2', 'E = 2'])
    kept = repr((g.extra_opts, g.param_extra_opts, s.param_extra_opts, s.extra_opts, s.params, [d.params for d in g.datasets]))
    b = make(c, U, s)
    c.check(kept == repr((g.extra_opts, g.param_extra_opts, s.param_extra_opts, s.extra_opts, s.params, [d.params for d in g.datasets])), 'the settings are not changed')
    exp = [l for l in LAYERS if on[l]] + [None]
    for v in ('', '_minimize'):
        p = read(U, b.batchPath + 'iniFiles/base_m_a_b%s.ini' % v)
        c.check(p.get('k') == exp[0], 'the value of highest precedence' + v, [p.get('k'), exp[0]])
        c.check(p['file_root'] == b.batchPath + 'base_m/a_b/base_m_a_b', 'own output root')
        c.check(p['A'] == '1' and p['B'] == '2' and p['D'] == '1' and p['E'] == '2' and p['both'] == '1' and p['glob'] == '2' and p['mine'] == '3', 'all files and options are used')
        c.check(p['param[m]'] == '1 0 2 0.1 0.1' and 'param[q]' not in p, 'own parameters')
        c.check(p['action'] == ('2' if v else '0'), 'action')
        p = read(U, b.batchPath + 'iniFiles/base_q_c%s.ini' % v)
        c.check(p['A'] == '4' and 'B' not in p and 'mine' not in p and 'both' not in p and p['glob'] == '2' and 'param[m]' not in p and p['param[q]'] == '3', 'the other run has its own options only')
        c.check(p.get('k') == ([l for l in ('all', 'override', 'default', 'default2') if on[l]] + [None])[0], 'no option of another run')
    c.check(sorted(os.listdir(b.batchPath + 'iniFiles')) == ['base_m_a_b.ini', 'base_m_a_b_minimize.ini', 'base_q_c.ini', 'base_q_c_minimize.ini'], 'one file per run and variant')


def parameters(c, U, bestfit):
    """varied parameters of each run"""
    B = U.batchjob
    sets = [[p for p in ('m', 'q') if bool(c.bool('v%d%s' % (i, p)))] for i in range(2)]
    c.assume(sets[0] != sets[1])
    g = B.jobGroup('g', params=[list(x) for x in sets], datasets=[B.dataSet(['a'], [])])
    s = T.SimpleNamespace(groups=[g], ini_dir='b/', defaults=[], importanceDefaults=[], cov_dir='cov', params={'m': 'M', 'q': 'Q'},
                          param_extra_opts={'m': {'xm': 1}, 'q': {'xq': 2}})
    if bestfit:
        s.start_at_bestfit = True
    b = make(c, U, s)
    for x in sets:
        n = '_'.join(['base'] + x + ['a'])
        p = read(U, b.batchPath + 'iniFiles/' + n + '.ini')
        for q in ('m', 'q'):
            c.check(p.get('param[%s]' % q) == (q.upper() if q in x else None), 'exactly its varied parameters')
            c.check(('x' + q in p) == (q in x), 'with their options')
        c.check(p['start_at_bestfit'] == ('T' if bestfit else 'F'), 'starting point')
        c.check(os.path.exists(b.batchPath + 'iniFiles/' + n + '_minimize.ini') == (not bestfit), 'separate minimization')
        c.check(os.path.isdir(b.batchPath + '_'.join(['base'] + x) + '/a'), 'chain directory exists')


def importance(c, U):
    B = U.batchjob
    on = {l: bool(c.bool('on_' + l)) for l in ('impdict', 'impfile', 'impdefault', 'parent', 'default')}
    k = lambda l: {'k': l} if on[l] else {}
    line = lambda l: ['k = ' + l] if on[l] else []
    want = bool(c.bool('minimize'))
    imp = B.importanceSetting(['z'], [dict(k('impdict'), iz=1), 'z.ini'], minimize=want)
    imp2 = B.importanceSetting(['y'], [{'iy': 1}])
    g = B.jobGroup('g', params=[[], ['m']], datasets=[B.dataSet(['a'], [])], importanceRuns=[imp, imp2])
    s = T.SimpleNamespace(groups=[g], ini_dir='b/', defaults=['def.ini'], importanceDefaults=['imp.ini'], cov_dir='cov', params={'m': 'M'}, param_extra_opts={}, extra_opts=k('parent'))
    ini_file(c, 'z.ini', line('impfile') + ['Z = 1'])
    ini_file(c, 'imp.ini', line('impdefault') + ['Z = 2', 'I = 1'])
    ini_file(c, 'def.ini', line('default') + ['Z = 3', 'I = 2', 'D = 1'])
    b = make(c, U, s)
    files = sorted(os.listdir(b.batchPath + 'postIniFiles'))
    exp = []
    for p_ in ('base', 'base_m'):
        exp += [p_ + '_a_post_z.ini', p_ + '_a_post_y.ini', p_ + '_a_post_y_minimize.ini'] + ([p_ + '_a_post_z_minimize.ini'] if want else [])
    c.check(files == sorted(exp), 'one file per importance run and wanted variant', [files])
    order = ('impdict', 'impfile', 'impdefault', 'parent', 'default')
    for tag in ('base', 'base_m'):
        for v in ('', '_minimize'):
            f = b.batchPath + 'postIniFiles/' + tag + '_a_post_z' + v + '.ini'
            if not os.path.exists(f):
                continue
            p = read(U, f)
            root = b.batchPath + tag + '/a/' + tag + '_a_post_z'
            if not v:
                c.check(p['redo_outroot'] == root and p['action'] == '1' and p['file_root'] == b.batchPath + tag + '/a/' + tag + '_a', 'from its parent to its own root')
            else:
                c.check(p['file_root'] == root and p['action'] == '2', 'own root of the minimization')
            c.check(p.get('k') == ([l for l in order if on[l] and not (v and l == 'impdefault')] + [None])[0], 'importance settings override those of the parent' + v)
            c.check(p['Z'] == '1' and p['D'] == '1' and p['iz'] == '1' and 'iy' not in p and p.get('param[m]') == ('M' if tag == 'base_m' else None), 'with the model of the parent')


def covmats(c, U, sets):
    """the proposal matrix is an existing file, the most specific one"""
    B = U.batchjob
    cov = os.path.join(c.scratch, 'cov')
    os.makedirs(cov)
    g = B.jobGroup('g', params=[['r', 'm']], datasets=[B.dataSet(['b', 'a'], [], covmat='ds.covmat')])
    s = T.SimpleNamespace(groups=[g], ini_dir='b/', defaults=[], importanceDefaults=[], cov_dir='cov', params={'m': 'M', 'r': 'R'}, param_extra_opts={}, covmat='all.covmat')
    cand = ['cov/base_r_m_b_a.covmat', 'cov/base_m_r_a_b.covmat', 'ds.covmat', 'cov/ds.covmat', 'all.covmat', 'cov/all.covmat']
    if sets == 'map':
        s.covNameMappings = {'a': 'x'}
        cand = ['cov/base_r_m_b_a.covmat', 'cov/base_m_r_b_x.covmat', 'cov/base_r_m_b_x.covmat', 'ds.covmat', 'all.covmat']
    elif sets == 'without':
        g.datasets = [B.dataSet(['b', 'a'], [])]
        del s.covmat
        s.covWithoutNameOrder = ['a', 'b']
        cand = ['cov/base_r_m_b_a.covmat', 'cov/base_m_r_a_b.covmat', 'cov/base_m_r_b.covmat', 'cov/base_m_r_a.covmat']
    elif sets == 'rename':
        g.datasets = [B.dataSet(['b', 'a'], [])]
        del s.covmat
        s.covrenames = [['b_a', 'w'], ['_r', '']]
        s.cov_dir_fallback = 'cov2'
        os.makedirs(os.path.join(c.scratch, 'cov2'))
        cand = ['cov/base_r_m_b_a.covmat', 'cov/base_m_r_a_b.covmat', 'cov2/base_r_m_w.covmat', 'cov2/base_m_b_a.covmat']
    on = [bool(c.bool('c%d' % i)) for i in range(len(cand))]
    for f, o in zip(cand, on):
        if o:
            with open(os.path.join(c.scratch, f), 'w') as h:
                h.write('# p\n1\n')
    b = make(c, U, s)
    p = read(U, b.batchPath + 'iniFiles/base_r_m_b_a.ini')
    exp = [os.path.join(c.scratch, f) for f, o in zip(cand, on) if o] + [None]
    got = p.get('propose_matrix')
    c.check((got and os.path.normpath(got)) == exp[0], 'the most specific existing covariance file', [got, exp[0]])
    c.check(p.get('MPI_Max_R_ProposeUpdate') == '20', 'proposal updates')


def readonly(c, U, again):
    """configuring an existing grid keeps exactly the runs with chains"""
    B = U.batchjob
    g = B.jobGroup('g', params=[[], ['m']], datasets=[B.dataSet(['a'], []), B.dataSet(['b'], [])], importanceRuns=[(['z'], [])])
    s = T.SimpleNamespace(groups=[g], ini_dir='b/', defaults=[], importanceDefaults=[], cov_dir='cov', params={'m': 'M'}, param_extra_opts={})
    skip = bool(c.bool('skip'))
    if skip:
        s.skip = ['base_b', 'base_a_post_z']
    names = ['base_a', 'base_m_a', 'base_b', 'base_m_b']
    on = {n: bool(c.bool('on_' + n)) for n in names}
    for n, o in on.items():
        if o:
            d = os.path.join(c.scratch, 'grid', n[:-2], n[-1])
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, n + '_1.txt'), 'w') as f:
                f.write('1 2 3\n')
    b = make(c, U, s, readOnly=True)
    exp = [n for n in names if on[n] and not (skip and n == 'base_b')]
    c.check([j.name for j in b.jobItems] == exp, 'exactly the runs with chains', [[j.name for j in b.jobItems]])
    imp = [n + '_post_z' for n in exp if not (skip and n == 'base_a')]
    c.check([j.name for j in b.items(wantImportance=True) if j.isImportanceJob] == imp, 'and their importance runs')
    c.check(not os.path.exists(os.path.join(c.scratch, 'grid', 'iniFiles')), 'nothing else is written')
    if again:
        b2 = B.readobject(os.path.join(c.scratch, 'grid'))
        c.check([j.name for j in b2.items(wantImportance=True)] == [j.name for j in b.items(wantImportance=True)], 'the saved grid is the same')
        c.check([j.chainRoot for j in b2.items()] == [j.chainRoot for j in b.items()] and b2.batchPath == b.batchPath, 'with the same roots')


def recover(c, U):
    """a grid is found again from its directory, whatever is left of its cache file"""
    import sys
    B = U.batchjob
    d = os.path.join(c.scratch, 'grid')
    os.makedirs(os.path.join(d, 'config'))
    with open(os.path.join(d, 'config', 'gset_c22.py'), 'w') as f:
        f.write("from paramgrid import batchjob\nini_dir = 'b/'\ngroups = [batchjob.jobGroup('g', params=[[], ['m']], datasets=[batchjob.dataSet(['a'], [])])]\n")
    with open(os.path.join(d, 'config', 'config.ini'), 'w') as f:
        f.write('setting_file = gset_c22.py\n')
    on = [bool(c.bool('on%d' % i)) for i in range(2)]
    for n, o in zip(('base', 'base_m'), on):
        if o:
            os.makedirs(os.path.join(d, n, 'a'))
            with open(os.path.join(d, n, 'a', n + '_a_1.txt'), 'w') as f:
                f.write('1 2 3\n')
    exp = [n + '_a' for n, o in zip(('base', 'base_m'), on) if o]
    path = list(sys.path)
    sys.modules.pop('gset_c22', None)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            b = B.readobject(d)
            c.check([j.name for j in b.items()] == exp, 'configured from its settings')
            f = B.grid_cache_file(d)
            size = os.path.getsize(f)
            state = int(c.int('state', 0, 4))
            if state == 0:
                os.remove(f)
            elif state < 4:
                with open(f, 'r+b') as h:
                    h.truncate([0, 0, size // 2, size - 1][state])
            sys.modules.pop('gset_c22', None)
            b2 = B.readobject(d)
        c.check(b2 is not None and [j.name for j in b2.items()] == exp and [j.chainRoot for j in b2.items()] == [j.chainRoot for j in b.items()], 'found again')
        c.check(B.readobject(os.path.join(c.scratch, 'nothing')) is None, 'no grid')
    finally:
        sys.path[:] = path
        sys.modules.pop('gset_c22', None)
        B.resetGrid(d)


def scenarios(tier):
    yield Scenario(recover, dict())
    th = tier == 'thorough'
    yield Scenario(precedence, dict(only=tuple(LAYERS[:5])))
    yield Scenario(precedence, dict(only=tuple(LAYERS[5:])))
    yield Scenario(precedence, dict(only=('all', 'param', 'datafile', 'default')))
    yield Scenario(precedence, dict(only=('data', 'override', 'datafile', 'default2')))
    if th:
        yield Scenario(precedence, dict(only=tuple(LAYERS)))
    for bf in (False, True):
        yield Scenario(parameters, dict(bestfit=bf))
    yield Scenario(importance, dict())
    for s in ('plain', 'map', 'without', 'rename'):
        yield Scenario(covmats, dict(sets=s))
    for again in (False, True):
        yield Scenario(readonly, dict(again=again))
