"""C21 grid commands act on exactly the selected runs, and change nothing without confirmation."""
import contextlib
import fnmatch
import io
import os
import re
import shutil
import subprocess
import zipfile
from symx.run import Scenario
from props import c20

PRELOAD = ['paramgrid.batchjob_args', 'paramgrid.jobqueue']
BOUNDS = 'grid of 2 full and 2 importance runs; free part of a file name up to 3 characters; 3 queued jobs in every state; every single ' \
         'option of each command and the stated combinations; chains of up to 4 rows with any burn-in fraction'
OUTSIDE = 'file names of a run followed by a digit and other text; larger grids; running the analysis or sampler programs themselves'


def build(c, U, sub=''):
    B = U.batchjob
    g = B.jobGroup('g', params=[[], ['m']], datasets=[B.dataSet(['a'], [])], importanceRuns=[(['z'], [])])
    import types
    s = types.SimpleNamespace(groups=[g], ini_dir='x/')
    b = B.batchJob(os.path.join(c.scratch, 'grid' + sub) + os.sep, 'x/', cosmomcPath=c.scratch + os.sep)
    b.makeItems(s, messages=False)
    for j in b.items(wantImportance=True):
        os.makedirs(j.chainPath, exist_ok=True)
        os.makedirs(j.distPath, exist_ok=True)
    os.makedirs(b.batchPath + 'config', exist_ok=True)
    return b


RUNS = ['base_a', 'base_a_post_z', 'base_m_a', 'base_m_a_post_z']


def write(path, text='1\n'):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f)) as h:
                out[os.path.relpath(os.path.join(p, f), d)] = h.read()
    return out


def run(c, U, script, argv, batch=None):
    """the script with its output"""
    old = U.batchjob.readobject
    U.batchjob.readobject = lambda p=None, *a: batch
    out = io.StringIO()
    cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(out):
            m = U.script(script, argv)
    finally:
        U.batchjob.readobject = old
        os.chdir(cwd)
    return m, out.getvalue()


def chosen(sel):
    return {'': RUNS, 'noimp': ['base_a', 'base_m_a'], 'imp': ['base_a_post_z', 'base_m_a_post_z'], 'm': ['base_m_a', 'base_m_a_post_z'], 'one': ['base_a']}[sel]


SEL = {'': [], 'noimp': ['--noimportance'], 'imp': ['--importance'], 'm': ['--param', 'm'], 'one': ['--name', 'base_a']}


def owner(f):
    """the run a file belongs to: its name, then an optional chain number, then an extension"""
    for r in RUNS:
        m = re.fullmatch(re.escape(r) + r'(_(\d+))?(\..*)', f)
        if m:
            return r, m.group(2), m.group(3)
    return None


def cleanup(c, U, sel, opt, n=2):
    b = build(c, U)
    free = c.pin(c.str('free', n, '._1px'))
    c.assume(re.match(r'_\d+([^.\d]|\..*\.)', free + '.txt') is None)
    d = b.batchPath
    files = {}
    zero = bool(c.bool('zero'))
    names = ['base_a' + free + '.txt', 'base_a_post_z' + free + '.txt', 'base_a.txt', 'base_a_1.txt', 'base_a_12.chk', 'base_a_post_z_1.txt', 'base_a_post_z.minimum', 'base_a_b_1.txt',
             'base_a_b.txt', 'xbase_a_1.txt']
    for n in names:
        for sub in ('', 'dist/'):
            write(d + 'base/a/' + sub + n, '' if zero and 'post' not in n else '1\n')
    for n in ('base_m_a_1.txt', 'base_m_a.chk', 'base_m_a_post_z_1.txt'):
        write(d + 'base_m/a/' + n)
    before = tree(d)
    argv = [d] + SEL[sel]
    conf = bool(c.bool('confirm'))
    if conf:
        argv.append('--confirm')
    ext, num, empty, dist = ['*'], None, False, False
    if opt == 'ext':
        ext = ['chk', 'txt', 'tx'][:int(c.int('next', 1, 3))]
        argv += ['--ext'] + ext
    elif opt == 'num':
        num = ['1', '12', '2'][int(c.int('num', 0, 2))]
        argv += ['--chainnum', num]
    elif opt == 'empty':
        empty = True
        argv.append('--empty')
    elif opt == 'dist':
        dist = True
        argv.append('--dist')
    run(c, U, 'cleanup', argv, b)
    after = tree(d)

    def gone(p):
        own = owner(os.path.basename(p))
        if own is None or own[0] not in chosen(sel):
            return False
        if dist and os.sep + 'dist' + os.sep not in p:
            return False
        if not any(own[2] == '.' + e or e == '*' for e in ext):
            return False
        if num is not None and own[1] != num:
            return False
        return not empty or before[p] == ''
    exp = {p: t for p, t in before.items() if not (conf and gone(p))}
    c.check(after == exp, 'removes exactly the matching files of the selected runs, only if confirmed',
            [argv[1:], 'wrongly gone', sorted(set(exp) - set(after)), 'wrongly kept', sorted(set(after) - set(exp))])


def cleanup_converge(c, U):
    import types
    b = build(c, U)
    R = [c.real('R%d' % i, 0, 3) for i in range(2)]
    has = [bool(c.bool('h%d' % i)) for i in range(2)]
    items = list(b.items())
    for j, r, h in zip(items, R, has):
        write(j.chainRoot + '_1.txt')
        if h:
            j.result_converge = types.SimpleNamespace(worstR=lambda r=r: r)
    run(c, U, 'cleanup', [b.batchPath, '--noimportance', '--confirm', '--converge', '0.5'], b)
    for j, r, h in zip(items, R, has):
        c.check(c.eq(not os.path.exists(j.chainRoot + '_1.txt'), c.and_(h, r > 0.5)), 'only runs known to be converged worse than the limit')


def delete(c, U, by, sel=''):
    J = U.jobqueue
    b = build(c, U)
    jobs = [c20.job('11', 'A', ['base_a']), c20.job('12.host', 'B', ['base_m_a_minimize', 'base_a_post_z']), c20.job('13', 'C', ['other'])]
    ix = J.jobIndex()
    for j in jobs:
        ix.addJob(j)
    os.makedirs(b.batchPath, exist_ok=True)
    J.saveJobIndex(ix, b.batchPath)
    st, lines = c20.queue_state(c, jobs[:2])
    st.append(1)
    lines.append('13 0.5 C me qw 01/01')
    conf = bool(c.bool('confirm'))
    num = lambda j: int(j.jobId.split('.')[0])
    argv = [b.batchPath] + SEL[sel]
    if by == 'range':
        lo, hi = int(c.int('lo', 11, 13)), int(c.int('hi', 10, 13))
        argv += ['--delete_id_range', str(lo), str(hi)]
        s = [j for j in jobs if lo <= num(j) <= hi]
    elif by == 'min':
        lo = int(c.int('lo', 10, 14))
        argv += ['--delete_id_min', str(lo)]
        s = [j for j in jobs if num(j) >= lo]
    elif by == 'ids':
        v = [int(c.int('v', 11, 14)), 11]
        argv += ['--delete_ids'] + [str(x) for x in v]
        s = [j for j in jobs if j.jobId in [str(x) for x in v]]
    else:
        ch = set(chosen(sel))
        ch |= {x + '_minimize' for x in ch}
        s = [j for j in jobs if ch & set(j.names)]
    if conf:
        argv.append('--confirm')
    with c20.Queue(lines) as q:
        run(c, U, 'deleteJobs', argv, b)
    ran = sorted(x for x in q.ran if x.startswith('qdel'))
    exp = sorted('qdel ' + j.jobId for j, t in zip(jobs, st) if j in s and t in (1, 2)) if conf else []
    c.check(ran == exp, 'cancels exactly the jobs of the selected runs, only if confirmed', [argv[1:], ran, exp])
    left = [j.jobId for j in jobs if not (conf and j in s)]
    c.check(list(J.loadJobIndex(b.batchPath).jobSequence) == left, 'the other jobs stay in the index')


def copies(c, U, opt, sel=''):
    b = build(c, U)
    d = b.batchPath
    n = int(c.int('rows', 1, 4)) if opt in ('burn', 'zipburn') else 2
    removed = bool(c.bool('removed')) if opt in ('burn', 'zipburn') else False
    write(d + 'config/s.py', 'settings\n')
    rows = ['%d 2 3\n' % i for i in range(n)]
    for r in ('base_a', 'base_a_post_z'):
        write(d + 'base/a/' + r + '_1.txt', ''.join(rows))
        write(d + 'base/a/' + r + '_2.txt', ''.join(rows[1:]) or 'x\n')
    free = c.pin(c.str('free', 2, '._dx')) if opt in ('plain', 'dist') else '.x'
    for sub in ('', 'dist/'):
        for nm in ('base_a' + free, 'base_a.data', 'base_a.paramnames', 'base_a_b.x', 'base_a_post_z.paramnames', 'base_a.py_mcsamples'):
            write(d + 'base/a/' + sub + nm, sub + nm)
    if opt in ('burn', 'zipburn'):
        write(d + 'base/a/base_a.properties.ini', 'burn_removed = %s\nother = 3\n' % ('T' if removed else 'F'))
    src = tree(d)
    target = os.path.join(c.scratch, 'out')
    zp = opt.startswith('zip')
    argv = [d] + SEL[sel] + [target + ('.zip' if zp else '')]
    if SEL[sel] and opt != 'plain':
        argv = [d, target + ('.zip' if zp else '')] + SEL[sel]
    elif SEL[sel]:
        argv = [d, target] + SEL[sel]
    chains, dist, config = False, False, True
    frac = 0
    if opt in ('chains', 'burn', 'zipburn', 'zip', 'dryrun'):
        chains = True
        argv.append('--chains')
    if opt == 'dist':
        dist = True
        argv.append('--dist')
    if opt == 'noconfig':
        config = False
        argv.append('--no_config')
    if opt == 'dryrun':
        argv.append('--dryrun')
    if opt in ('burn', 'zipburn'):
        frac = (0.3, 0.5, 1.0)[int(c.int('frac', 0, 2))]
        argv += ['--remove_burn_fraction', str(frac)]
    run(c, U, 'copyGridFiles', argv, b)
    c.check(tree(d) == src, 'the grid is not changed')
    if zp:
        with zipfile.ZipFile(target + '.zip') as z:
            got = {k: z.read(k).decode() for k in z.namelist()}
    else:
        got = tree(target)
    if opt == 'dryrun':
        c.check(not got, 'nothing is written in a dry run', [sorted(got)])
        return
    exp = {}
    skip = ('.data', '.py_mcsamples')
    for p, t in src.items():
        f = os.path.basename(p)
        own = owner(f)
        if p.startswith('config'):
            if config:
                exp[p] = t
        elif own and own[0] in chosen(sel):
            indist = '/dist/' in p
            if own[1] is not None:
                if chains and not indist:
                    cut = frac and own[0] == 'base_a' and not removed
                    ls = t.splitlines(True)
                    exp[p] = ''.join(ls[int(len(ls) * frac):]) if cut else t
            elif own[2] not in skip and (dist or not indist):
                exp[p] = t
    pr = 'base/a/base_a.properties.ini'
    if frac and 'base_a' in chosen(sel):
        gi = got.get(pr, '')
        c.check(re.search(r'^burn_removed *= *T', gi, re.M) is not None and re.search(r'^other *= *3', gi, re.M) is not None,
                'copied chains without burn-in are marked, other properties kept', [gi])
        exp.pop(pr, None)
        got.pop(pr, None)
    c.check(got == exp, 'copies exactly the selected files of the selected runs', [argv[2:], 'missing', {k: v for k, v in exp.items() if got.get(k) != v}, 'extra', {k: v for k, v in got.items() if k not in exp}])


def extract(c, U, norm, sel=''):
    b = build(c, U)
    d = b.batchPath
    free = c.pin(c.str('free', 2, '._mx'))
    for r in RUNS:
        sub = 'base_m/a/dist/' if '_m_' in r else 'base/a/dist/'
        for e in ('.margestats', '.covmat', '_b.margestats', free + '.margestats'):
            write(d + sub + r + e, r + e)
    out = os.path.join(c.scratch, 'o')
    argv = [d, out, 'margestats'] + (['.covmat'] if bool(c.bool('two')) else []) + (['--normalize_names'] if norm else []) + SEL[sel]
    two = '.covmat' in argv
    run(c, U, 'extractDistFiles', argv, b)
    exp = {}
    for r in chosen(sel):
        for e in ['.margestats'] + (['.covmat'] if two else []):
            nm = r
            if norm:
                nm = {'base_a': 'base_a', 'base_a_post_z': 'base_a_z', 'base_m_a': 'base_m_a', 'base_m_a_post_z': 'base_m_a_z'}[r]
            exp[nm + e] = r + e
    c.check(tree(out) == exp, 'exactly the files of the selected runs', [sorted(set(tree(out)) ^ set(exp))])


def listing(c, U, opt):
    b = build(c, U)
    items = list(b.items(wantImportance=True))
    on = [bool(c.bool('e%d' % i)) for i in range(4)]
    for j, o in zip(items, on):
        if o:
            write(j.chainRoot + '_1.txt')
    ex = dict(zip([j.name for j in items], on))
    argv = [b.batchPath] + {'all': [], 'exists': ['--exists'], 'notexist': ['--notexist'], 'm': ['--param', 'm'], 'normed': ['--normed', '--exists']}[opt]
    _, out = run(c, U, 'listGrid', argv, b)
    got = [l.split()[0] for l in out.splitlines()]
    exp = [n for n in RUNS if {'all': True, 'exists': ex[n], 'notexist': not ex[n], 'm': '_m_' in n, 'normed': ex[n]}[opt]]
    if opt == 'normed':
        exp = [n.replace('_post', '') for n in exp]
    c.check(sorted(got) == sorted(exp), 'lists exactly the selected runs', [got, exp])


MIN = ' -log(Like) =   10.5\n chi-sq    =   21.0\n\n%s\n -log(Like) chi\n  1.0 like: nm\n'


def rename(c, U, what):
    """parameter names and labels of .paramnames and best-fit files"""
    b = build(c, U)
    d = b.batchPath
    new = c.pin(c.str('new', 2, 'xy')) + ('long_enough_for_padding' if bool(c.bool('long')) else '')
    old = ['p', 'q', 'zz'][int(c.int('old', 0, 2))]
    haslab = bool(c.bool('lab'))
    pn = 'p\tP one\nq*\t\\Omega q\n'
    mn = MIN % '\n'.join(['    1  0.2500000E+00   p                     P one', '    2  0.5000000E+00   q' + (' ' * 20 + '\\Omega q' if haslab else '')])
    for r in ('base/a/base_a', 'base_m/a/base_m_a'):
        write(d + r + '.paramnames', pn)
        write(d + r + '.minimum', mn)
    conf = bool(c.bool('confirm'))
    argv = [d, '--name', 'base_a'] + (['--confirm'] if conf else [])
    labels = {}
    if what == 'pair':
        argv += ['--old_new', old, new]
        mp = {old: (new, None)}
    elif what == 'map':
        write(os.path.join(c.scratch, 'map'), '%s %s N lab\n' % (old, new))
        argv += ['--map_file', os.path.join(c.scratch, 'map')]
        mp = {old: (new, 'N lab')}
    else:
        mp = {old: (new, None)} if bool(c.bool('both')) else {}
        write(os.path.join(c.scratch, 'lab.paramnames'), 'q\tQ lab\n%s\tX lab\n' % new)
        labels = {'q': 'Q lab', new: 'X lab'}
        argv += ['--labelNames', os.path.join(c.scratch, 'lab.paramnames')] + (['--old_new', old, new] if mp else [])
    _, e = c.raises(lambda: run(c, U, 'renameParam', argv, b))
    c.check(e is None, 'renaming works', [repr(e)])
    with open(d + 'base_m/a/base_m_a.paramnames') as f:
        t1 = f.read()
    with open(d + 'base_m/a/base_m_a.minimum') as f:
        t2 = f.read()
    c.check(t1 == pn and t2 == mn, 'other runs are not changed')
    with open(d + 'base/a/base_a.paramnames') as f:
        t1 = f.read()
    with open(d + 'base/a/base_a.minimum') as f:
        t2 = f.read()
    if not conf:
        c.check(t1 == pn and t2 == mn, 'nothing is changed without confirmation')
        return
    exp = []
    for nm, lab, der in (('p', 'P one', False), ('q', '\\Omega q', True)):
        n2, l2 = mp.get(nm, (nm, None))
        exp.append((n2, l2 if l2 is not None else labels.get(n2, lab), der))
    P = U.paramnames.ParamNames(d + 'base/a/base_a.paramnames')
    got = [(p.name, p.label, p.isDerived) for p in P.names]
    c.check(got == exp, 'names and labels', [got, exp])
    ls, l0 = t2.split('\n'), mn.split('\n')
    c.check([l for i, l in enumerate(ls) if i not in (3, 4)] == [l for i, l in enumerate(l0) if i not in (3, 4)], 'other lines of the best fit are kept')
    for i, (n2, l2, _) in enumerate(exp):
        it = ls[3 + i].split(None, 3)
        if i == 1 and not haslab and l2 == '\\Omega q':
            l2 = None
        c.check(it[:3] == [str(i + 1), ('0.2500000E+00', '0.5000000E+00')[i], n2] and (it[3:] == ([l2] if l2 else [])), 'best-fit line', [it, n2, l2])


def getdist_ini(c, U, opt):
    """settings files written for the analysis of each run"""
    b = build(c, U)
    b.getdist_options = {'ignore_rows': 0.25, 'marker[nrun]': 0}
    for j in b.items(wantImportance=True):
        j.dist_settings = {'mine': j.name}
    items = {j.name: j for j in b.items(wantImportance=True)}
    rem = bool(c.bool('removed'))
    if rem:
        write(items['base_a'].chainRoot + '.properties.ini', 'burn_removed = T\n')
    ex = [bool(c.bool('e%d' % i)) for i in range(2)]
    for r, e in zip(('base_a', 'base_m_a_post_z'), ex):
        if e:
            write(items[r].chainRoot + '_1.txt')
    write(os.path.join(c.scratch, 'base.ini'), 'z = 1\n')
    argv = [b.batchPath, '--base_ini', os.path.join(c.scratch, 'base.ini')]
    argv += {'plain': [], 'burn': ['--burn_remove', '0.4'], 'burnrem': ['--burn_removed'], 'norun': ['--norun'], 'sel': ['--param', 'm']}[opt]
    calls = []

    class P:
        def __init__(self, a, **k):
            calls.append(list(a))

        def poll(self):
            return 0
    old = subprocess.Popen
    subprocess.Popen = P
    try:
        run(c, U, 'runGridGetdist', argv, b)
    finally:
        subprocess.Popen = old
    want = chosen('m' if opt == 'sel' else '')
    d = b.batchPath + 'getdist' + os.sep
    c.check(sorted(os.listdir(d)) == sorted(n + '.ini' for n in want), 'one settings file per selected run')
    for n in want:
        j = items[n]
        ini = U.inifile.IniFile(d + n + '.ini')
        c.check(ini.params['file_root'] == j.chainRoot and ini.params['out_dir'] == j.distPath and ini.params['mine'] == n and ini.params['z'] == '1', 'its own root, output and settings')
        imp = n.endswith('post_z')
        cut = 0 if imp or opt == 'burnrem' or n == 'base_a' and rem else 0.4 if opt == 'burn' else 0.25
        c.check(ini.float('ignore_rows') == cut, 'burn-in', [n, ini.params['ignore_rows']])
        c.check(ini.params.get('compare1') == (j.parent.chainRoot if imp else None), 'importance runs are compared to their parent')
    exp = [['python', 'python/GetDist.py', d + n + '.ini'] for n, e in zip(('base_a', 'base_m_a_post_z'), ex) if e and n in want and opt != 'norun']
    c.check(calls == exp, 'runs the analysis of exactly the selected runs having chains', [calls])


def submit(c, U, opt):
    """which runs are submitted"""
    import types
    J = U.jobqueue
    b = build(c, U)
    items = list(b.items(wantImportance=True))
    full = [j for j in items if not j.isImportanceJob]
    ex = {j.name: bool(c.bool('e_' + j.name)) for j in items}
    for j in items:
        if ex[j.name]:
            write(j.chainRoot + '_1.txt')
    argv = [b.batchPath]
    per = 1
    name = None
    sub = lambda n: n
    if opt == 'plain':
        exp = [j.name for j in full]
    elif opt == 'notexist':
        argv.append('--notexist')
        exp = [j.name for j in full if not ex[j.name]]
    elif opt == 'exists':
        argv.append('--chain_exists')
        exp = [j.name for j in full if ex[j.name]]
    elif opt == 'importance':
        argv.append('--importance')
        exp = [j.name for j in items if j.isImportanceJob and ex[j.parent.name]]
    elif opt == 'importance_new':
        argv += ['--importance', '--notexist']
        exp = [j.name for j in items if j.isImportanceJob and ex[j.parent.name] and not ex[j.name]]
    elif opt == 'ready':
        for j in full:
            if bool(c.bool('done_' + j.name)):
                write(j.chainRoot + '.converge_stat', '0.01\nDone\n')
        argv.append('--importance_ready')
        exp = [j.name for j in items if j.isImportanceJob and os.path.exists(j.parent.chainRoot + '.converge_stat')]
    elif opt == 'minimize':
        for j in full:
            if bool(c.bool('min_' + j.name)):
                write(j.chainRoot + '.minimum', '1\n')
        argv += ['--minimize', '--notexist']
        exp = [j.name + '_minimize' for j in full if not os.path.exists(j.chainRoot + '.minimum')]
    elif opt == 'converge':
        R = [c.real('R%d' % i, 0, 3) for i in range(2)]
        exp = []
        for j, r in zip(full, R):
            j.result_converge = types.SimpleNamespace(worstR=lambda r=r: r)
            if bool(r > 0.5):
                exp.append(j.name)
        argv += ['--converge', '0.5']
    elif opt == 'runs2':
        per = 2
        argv += ['--runsPerJob', '2']
        exp = [j.name for j in full]
    elif opt == 'combine':
        name = 'all'
        argv += ['--combineOneJobName', 'all']
        exp = [j.name for j in full]
    elif opt == 'queued':
        on = [bool(c.bool('q%d' % i)) for i in range(2)]
        exp = [j.name for j, q in zip(full, on) if not q]
        J_names = J.queue_job_names
        argv.append('--not_queued')
    calls = []
    old = J.submitJob, J.checkArguments, J.queue_job_names
    J.submitJob = lambda jobName, paramFiles, sequential=False, **k: calls.append((jobName, list(paramFiles), sequential))
    J.checkArguments = lambda **k: None
    if opt == 'queued':
        J.queue_job_names = lambda *a, **k: [j.name for j, q in zip(full, on) if q]
    try:
        run(c, U, 'runbatch', argv, b)
    finally:
        J.submitJob, J.checkArguments, J.queue_job_names = old
    got = [f for x in calls for f in x[1]]
    want = [b.batchPath + ('postIniFiles' if '_post_' in n else 'iniFiles') + os.sep + n for n in exp]
    c.check(got == want, 'submits exactly the wanted runs, each once', [opt, got, want])
    c.check(all(len(x[1]) <= per for x in calls) or name, 'runs per job')
    if name:
        c.check([x[0] for x in calls] == ([name] if want else []) and all(x[2] for x in calls), 'one combined job run in sequence')
    else:
        c.check(all(x[0] == '-'.join(os.path.basename(f) for f in x[1]) for x in calls), 'named by its runs')


def jobname(c, U):
    """names of combined jobs are bounded and distinct"""
    J = U.jobqueue
    b = build(c, U)
    old = J.submitJob, J.checkArguments
    J.submitJob = lambda *a, **k: None
    J.checkArguments = lambda **k: None
    try:
        m, _ = run(c, U, 'runbatch', [b.batchPath], b)
    finally:
        J.submitJob, J.checkArguments = old
    n = int(c.int('n', 1, 3))
    ln = (10, 34, 69, 100)[int(c.int('len', 0, 3))]
    fs = ['ini/' + 'abc'[i] * ln for i in range(n)]
    m.iniFiles = fs
    s1 = m.jobName()
    m.iniFiles = fs[:-1] + [fs[-1] + 'x']
    s2 = m.jobName()
    c.check(s1 != s2, 'different runs, different job names')
    c.check(n == 1 or len(s1) <= 88 and '/' not in s1, 'bounded length')


def scenarios(tier):
    th = tier == 'thorough'
    for opt in ('', 'ext', 'num', 'empty', 'dist'):
        for sel in SEL if th else ('', 'noimp') if opt else SEL:
            yield Scenario(cleanup, dict(sel=sel, opt=opt, n=3 if th else 2))
    yield Scenario(cleanup_converge, dict())
    for by in ('range', 'min', 'ids'):
        yield Scenario(delete, dict(by=by))
    for sel in SEL:
        yield Scenario(delete, dict(by='runs', sel=sel))
    for opt in ('plain', 'chains', 'dist', 'noconfig', 'dryrun', 'burn', 'zip', 'zipburn'):
        for sel in ('', 'noimp', 'imp') if th or opt in ('chains', 'plain') else ('',):
            yield Scenario(copies, dict(opt=opt, sel=sel))
    for norm in (False, True):
        for sel in ('', 'm') + (('imp', 'one') if th else ()):
            yield Scenario(extract, dict(norm=norm, sel=sel))
    for opt in ('all', 'exists', 'notexist', 'm', 'normed'):
        yield Scenario(listing, dict(opt=opt))
    for what in ('pair', 'map', 'labels'):
        yield Scenario(rename, dict(what=what))
    for opt in ('plain', 'burn', 'burnrem', 'norun', 'sel'):
        yield Scenario(getdist_ini, dict(opt=opt))
    for opt in ('plain', 'notexist', 'exists', 'importance', 'importance_new', 'ready', 'minimize', 'converge', 'runs2', 'combine', 'queued'):
        yield Scenario(submit, dict(opt=opt))
    yield Scenario(jobname, dict())
