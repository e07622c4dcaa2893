"""C20 the job index and the queue commands agree with what was submitted, through histories, interrupts and deletions."""
import os
import pickle
import shutil
import subprocess
import types as T
from symx.run import Scenario

PRELOAD = ['paramgrid.jobqueue']
BOUNDS = 'histories of up to 4 operations on up to 3 jobs (names and run roots chosen symbolically); a crash before, during or after every ' \
         'file operation of a save; queue listings of 3 jobs in every state; 1-8 cores, 1-4 chains per node, 1-2 nodes, 1-2 runs per job'
OUTSIDE = 'real batch queues (stand-ins record the commands); concurrent writers of one index; power loss reordering of disk writes'

NAMES = ['A', 'B']
ROOTS = ['r', 's']


def job(jid, name, roots):
    return T.SimpleNamespace(jobId=jid, jobName=name, names=list(roots), qdel='qdel')


def agree(c, index, live, seq, byname, byroot, label):
    c.check(sorted(index.jobSettings) == sorted(live), label + ': exactly the live jobs', [sorted(index.jobSettings)])
    c.check(all(index.jobSettings[i].jobName == live[i].jobName for i in index.jobSettings if i in live), label + ': own settings')
    c.check(list(index.jobSequence) == [i for i in seq if i in live], label + ': in order of submission')
    c.check(dict(index.jobNames) == {k: v for k, v in byname.items() if v in live}, label + ': newest job of a name', [dict(index.jobNames)])
    c.check(dict(index.rootNames) == {k: v for k, v in byroot.items() if v in live}, label + ': newest job of a run', [dict(index.rootNames)])


def history(c, U, ops, disk):
    """ops: string of a (add), i (delete by id), n (delete by name)"""
    J = U.jobqueue
    index = J.jobIndex()
    live, seq, byname, byroot = {}, [], {}, {}
    if disk:
        J.saveJobIndex(index, c.scratch)
    nid = 0
    for k, op in enumerate(ops):
        if op == 'a':
            nid += 1
            jid = '%d.host' % nid
            nm = NAMES[int(c.int('name%d' % k, 0, 1))]
            rs = [r for i, r in enumerate(ROOTS) if bool(c.bool('root%d_%d' % (k, i)))]
            j = job(jid, nm, rs)
            live[jid] = j
            seq.append(jid)
            byname[nm] = jid
            for r in rs:
                byroot[r] = jid
            f = lambda: J.addJobIndex(c.scratch, j) if disk else index.addJob(j)
        elif op == 'i':
            jid = '%d.host' % int(c.int('id%d' % k, 1, 3))
            live.pop(jid, None)
            f = lambda: index.delId(jid)
            if disk:
                def f():
                    x = J.loadJobIndex(c.scratch)
                    x.delId(jid)
                    J.saveJobIndex(x, c.scratch)
        else:
            nm = NAMES[int(c.int('del%d' % k, 0, 1))]
            jid = byname.get(nm)
            live.pop(jid, None)
            if disk:
                f = lambda: J.deleteJobNames(c.scratch, nm)
            else:
                f = lambda: index.delId(index.jobNames.get(nm))
        _, e = c.raises(f)
        c.check(e is None, 'operation succeeds', [repr(e)])
        if e is not None:
            return
        if disk:
            index = J.loadJobIndex(c.scratch, must_exist=True)
        agree(c, index, live, seq, byname, byroot, 'after each operation')


class Crash(BaseException):
    pass


class Crasher:
    """stop at the k-th point among file operations (before and after each; half-way through writing data)"""

    def __init__(self, at):
        self.at, self.n = at, 0

    def point(self, act=None):
        self.n += 1
        if bool(self.at == self.n):
            if act:
                act()
            raise Crash()

    def wrap(self, mod, name):
        real = getattr(mod, name)

        def f(*a, **k):
            self.point()
            r = real(*a, **k)
            self.point()
            return r
        self.saved.append((mod, name, real))
        setattr(mod, name, f)

    def __enter__(self):
        self.saved = []
        for n in ('replace', 'rename', 'remove', 'unlink'):
            self.wrap(os, n)
        dump = pickle.dump

        def sdump(obj, out, *a, **k):
            def half():
                b = pickle.dumps(obj)
                out.write(b[:len(b) // 2])
                out.flush()
            self.point(half)
            dump(obj, out, *a, **k)
            self.point()
        self.saved.append((pickle, 'dump', dump))
        pickle.dump = sdump
        return self

    def __exit__(self, *a):
        for m, n, r in self.saved:
            setattr(m, n, r)
        return a[0] is Crash


def crash(c, U, op, first):
    """interrupted while saving: the index is the old or the new one"""
    J = U.jobqueue
    if not first:
        ix = J.jobIndex()
        ix.addJob(job('1.host', 'A', ['r']))
        J.saveJobIndex(ix, c.scratch)
    at = c.int('crash', 0, 9)
    with Crasher(at) as cr:
        if op == 'add':
            J.addJobIndex(c.scratch, job('2.host', 'B', ['s']))
        else:
            J.deleteJobNames(c.scratch, 'A')
    got, e = c.raises(lambda: J.loadJobIndex(c.scratch))
    c.check(e is None, 'the index can be read after an interrupt', [repr(e)])
    if e is not None:
        return
    old = [] if first else ['1.host']
    new = old + ['2.host'] if op == 'add' else []
    c.check(list(got.jobSequence) in (old, new), 'either the old or the new index', [list(got.jobSequence)])
    c.check(sorted(got.jobSettings) == list(got.jobSequence), 'consistent')
    if bool(at == 0):
        c.check(list(got.jobSequence) == new, 'without interrupt the new index')
    # and it can be used again
    J.addJobIndex(c.scratch, job('3.host', 'C', []))
    c.check('3.host' in J.loadJobIndex(c.scratch).jobSettings, 'usable afterwards')


class Queue:
    """stand-in for the queue commands; records what is run"""

    def __init__(self, lines, submit=b''):
        self.lines, self.submit, self.ran = lines, submit, []

    def __enter__(self):
        from distutils import spawn
        self.spawn = spawn
        self.real = subprocess.check_output, spawn.find_executable, os.environ.get('USER')
        subprocess.check_output = self.run
        spawn.find_executable = lambda n, path=None: None
        os.environ['USER'] = 'me'
        return self

    def run(self, cmd, *a, **k):
        self.ran.append(cmd)
        if cmd.startswith('qstat -u'):
            return ('\n'.join(['job-ID prior name user state', '-----'] + self.lines) + '\n').encode()
        if cmd.startswith('qstat'):
            return b'PBS'
        if cmd.startswith('qsub'):
            return self.submit
        return b''

    def __exit__(self, *a):
        subprocess.check_output, self.spawn.find_executable = self.real[:2]
        if self.real[2] is None:
            os.environ.pop('USER', None)
        else:
            os.environ['USER'] = self.real[2]


def make_index(J, scratch):
    ix = J.jobIndex()
    jobs = [job('11', 'A', ['r']), job('12.host', 'B', ['s', 't']), job('13', 'C', ['u'])]
    for j in jobs:
        ix.addJob(j)
    J.saveJobIndex(ix, scratch)
    return jobs


def queue_state(c, jobs):
    """0 absent, 1 queued, 2 running, 3 somebody else's"""
    st = [int(c.int('st%d' % i, 0, 3)) for i in range(len(jobs))]
    lines = []
    for j, s in zip(jobs, st):
        if s:
            lines.append('%s 0.5 %s %s %s 01/01' % (j.jobId, j.jobName, 'you' if s == 3 else 'me', 'r' if s == 2 else 'qw'))
    lines.append('99 0.5 other me qw 01/01')
    return st, lines


def listing(c, U):
    J = U.jobqueue
    jobs = make_index(J, c.scratch)
    st, lines = queue_state(c, jobs)
    run, que = bool(c.bool('running')), bool(c.bool('queued'))
    with Queue(lines):
        ids, names, roots, infos = J.queue_job_details(c.scratch, running=run, queued=que)
        flat = J.queue_job_names(c.scratch, running=run, queued=que)
    exp = [j for j, s in zip(jobs, st) if s == 1 and que or s == 2 and run]
    c.check(ids == [j.jobId for j in exp], 'own jobs in the requested state', [ids])
    c.check(names == [j.jobName for j in exp] and roots == [j.names for j in exp], 'with their names')
    c.check(flat == [n for j in exp for n in j.names], 'run names')


def delete(c, U, by):
    J = U.jobqueue
    jobs = make_index(J, c.scratch)
    st, lines = queue_state(c, jobs)
    conf = bool(c.bool('confirm'))
    kw = {}
    if by == 'root':
        v = ['r', 's', 't', 'u', 'zz'][int(c.int('v', 0, 4))]
        kw['rootNames'] = v
        sel = [j for j in jobs if v in j.names]
    elif by == 'roots':
        v = {n for n in ('r', 't', 'zz') if bool(c.bool('v' + n))}
        kw['rootNames'] = v
        sel = [j for j in jobs if v & set(j.names)]
    elif by == 'name':
        v = ['A', 'B', 'C', 'D'][int(c.int('v', 0, 3))]
        kw['jobNames'] = [v]
        sel = [j for j in jobs if j.jobName == v]
    elif by == 'ids':
        v = [('11', '12.host', '13', '77')[int(c.int('v', 0, 3))]]
        kw['jobIds'] = v
        sel = [j for j in jobs if j.jobId in v]
    elif by == 'intids':
        v = [int(c.int('v', 11, 14))]
        kw['jobIds'] = v
        sel = [j for j in jobs if j.jobId == str(v[0])]
    elif by == 'range':
        a, b = c.int('lo', 10, 14), c.int('hi', 10, 14)
        kw['jobId_minmax'] = (a, b)
        sel = [j for j in jobs if bool(a <= int(j.jobId.split('.')[0])) and bool(int(j.jobId.split('.')[0]) <= b)]
    else:
        a = c.int('lo', 10, 14)
        kw['jobId_min'] = a
        sel = [j for j in jobs if bool(int(j.jobId.split('.')[0]) >= a)]
    given = kw.get('jobIds')
    copy = list(given) if given else None
    with Queue(lines) as q:
        J.deleteJobs(c.scratch, confirm=conf, **kw)
    ran = sorted(x for x in q.ran if x.startswith('qdel'))
    exp = sorted('qdel ' + j.jobId for j, s in zip(jobs, st) if j in sel and s in (1, 2)) if conf else []
    c.check(ran == exp, 'cancels exactly the selected jobs that are in the queue, only if confirmed', [ran, exp])
    ix = J.loadJobIndex(c.scratch)
    left = [j.jobId for j in jobs if not (conf and j in sel)]
    c.check(list(ix.jobSequence) == left and sorted(ix.jobSettings) == sorted(left), 'index keeps exactly the others', [list(ix.jobSequence)])
    c.check(given == copy, "the caller's list is not modified")


TEMPLATE = 'N=##JOBNAME## OMP=##OMP## NODES=##NUMNODES## RUNS=##NUMRUNS## MPI=##NUMMPI## PER=##CHAINSPERNODE## PPN=##PPN## ' \
           'MPN=##MPIPERNODE## TASKS=##NUMTASKS## SLOTS=##NUMSLOTS## WALL=##WALLTIME## MEM=##MEM_MB## Q=##QUEUE## ONE=##ONERUN##\n##COMMAND##\n'


def submit(c, U, runs, seq, no_sub, reply, run=False):
    J = U.jobqueue
    cores, per, nodes = int(c.int('cores', 1, 8)), int(c.int('per', 1, 4)), int(c.int('nodes', 1, 2))
    old = os.getcwd()
    os.chdir(c.scratch)
    try:
        os.makedirs('scripts')
        with open('job_script', 'w') as f:
            f.write(TEMPLATE + ('##RUN: go -n ##NUMMPI## ##INI## ##INIBASE## ##\n' if run else ''))
        ids = list(range(runs))[::-1] if runs > 1 else [0]
        inis = ['ini/p%d.ini' % i for i in ids]
        given = list(inis)
        with Queue([], reply.encode()) as q:
            _, e = c.raises(lambda: J.submitJob('jn', inis, sequential=seq, coresPerNode=cores, chainsPerNode=per, nodes=nodes,
                                                runsPerJob=runs if not seq else 1, walltime='1:0', mem_per_node=7, queue='qq', no_sub=no_sub, batchPath=c.scratch))
        n = 1 if seq else runs
        if cores % (per * n):
            c.check(e is not None and not q.ran[1:], 'refused if cores cannot be shared equally', [repr(e), q.ran])
            return
        c.check(e is None, 'submitted', [repr(e)])
        if e is not None:
            return
        c.check(inis == given, "the caller's list is not modified")
        omp = cores // (per * n)
        with open('scripts/jn_subscript') as f:
            txt = f.read().split('\n')
        exp = dict(N='jn', OMP=omp, NODES=nodes, RUNS=n, MPI=nodes * per, PER=per, PPN=cores, MPN=per * n, TASKS=nodes * per * n,
                   SLOTS=cores * nodes, WALL='1:0', MEM=7, Q='qq', ONE=int(runs == 1 or seq))
        got = dict(x.split('=') for x in txt[0].split())
        c.check(got == {k: str(v) for k, v in exp.items()}, 'the script asks for what the job needs', [got])
        cmds = txt[1:1 + runs]
        for i, l in enumerate(cmds):
            c.check('ini/p%d.ini' % ids[i] in l and str(nodes * per) in l.split() and l.rstrip().endswith('&') == (not seq), 'one command per run', [l])
        sub = [x for x in q.ran if x.startswith('qsub')]
        c.check(sub == ([] if no_sub else ['qsub ./scripts/jn_subscript']), 'submitted once', [sub])
        ix = J.loadJobIndex(c.scratch)
        if no_sub or not reply:
            c.check(not ix.jobSettings, 'nothing recorded if nothing was submitted')
        else:
            jid = reply.split()[2] if reply.startswith('Your') else reply.strip()
            c.check(list(ix.jobSettings) == [jid], 'recorded under the id the queue gave', [list(ix.jobSettings)])
            j = ix.jobSettings.get(jid)
            if j is not None:
                c.check(j.names == ['p%d' % i for i in ids] and j.jobName == 'jn', 'with its runs')
                c.check(dict(ix.rootNames) == {'p%d' % i: jid for i in range(runs)}, 'found by run')
    finally:
        os.chdir(old)


def defaults(c, U):
    """precedence of a job option: argument, template, environment, named environment variable, default"""
    J = U.jobqueue
    has = [bool(c.bool('h%d' % i)) for i in range(4)]
    for k in ('COSMOMC_opt', 'OTHER_opt'):
        os.environ.pop(k, None)
    kw = {'opt': 1} if has[0] else {}
    tem = 'x\n##DEFAULT_opt: 2 ##\n' if has[1] else 'x\n'
    try:
        if has[2]:
            os.environ['COSMOMC_opt'] = '3'
        if has[3]:
            os.environ['OTHER_opt'] = '4'
        v = J.getDefaulted('opt', 5, tp=int, template=tem, ext_env='OTHER_opt', **kw)
    finally:
        for k in ('COSMOMC_opt', 'OTHER_opt'):
            os.environ.pop(k, None)
    exp = [i + 1 for i, h in enumerate(has) if h] + [5]
    c.check(v == exp[0], 'first given value wins', [v, exp])
    c.check(J.getDefaulted('nothing') is None, 'no value')


def scenarios(tier):
    th = tier == 'thorough'
    for ops in ('aa', 'ai', 'aai', 'aan', 'aani', 'ania') + (('aaaii', 'aanai') if th else ()):
        yield Scenario(history, dict(ops=ops, disk=False))
    for ops in ('an', 'aai', 'aan') + (('aani',) if th else ()):
        yield Scenario(history, dict(ops=ops, disk=True))
    for op in ('add', 'delete'):
        for first in (True, False):
            yield Scenario(crash, dict(op=op, first=first))
    yield Scenario(listing, dict())
    for by in ('root', 'roots', 'name', 'ids', 'intids', 'range', 'min'):
        yield Scenario(delete, dict(by=by))
    for runs, seq in ((1, False), (2, False), (2, True)):
        yield Scenario(submit, dict(runs=runs, seq=seq, no_sub=False, reply='12.host\n'))
    yield Scenario(submit, dict(runs=1, seq=False, no_sub=True, reply='12.host'))
    yield Scenario(submit, dict(runs=1, seq=False, no_sub=False, reply='Your job 77 ("x") has been submitted\n'))
    yield Scenario(submit, dict(runs=1, seq=False, no_sub=False, reply=''))
    yield Scenario(submit, dict(runs=2, seq=False, no_sub=False, reply='12', run=True))
    yield Scenario(submit, dict(runs=3, seq=True, no_sub=False, reply='12.host\n'))
    yield Scenario(defaults, dict())
