"""C17 the chain files of a run are exactly its own numbered files, in order."""
import os
import re
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = 'directories of 1-3 files; free part of a file name up to 3 characters over the special ones; chain index limits, ' \
         'selected and excluded indices symbolic integers; directory trees of depth 2 with every placement of the files'
OUTSIDE = 'longer names; other extensions than those used here'

ROOTS = {'plain': 'r', 'dot': 'r.x', 'digit': 'r_1', 'meta': 'a+b'}


def index(name, root, sep, ext):
    """chain number of a file of the run, None if it is not one"""
    if not name.endswith(ext):
        return None
    body = name[:len(name) - len(ext)]
    if root == '':
        return 0 if body == '' else int(body) if body.isdigit() and body.isascii() else None
    if body == root:
        return 0
    if body.startswith(root + sep):
        d = body[len(root + sep):]
        if d and d.isdigit() and d.isascii():
            return int(d)
    return None


class Listing:
    def __init__(self, names):
        self.names = names

    def __enter__(self):
        self.real = os.listdir
        os.listdir = lambda d='.': list(self.names)

    def __exit__(self, *a):
        os.listdir = self.real


def check_files(c, res, exp, label):
    """exp: list of (name, index, wanted condition); the result is exactly the wanted ones by increasing index"""
    got = [os.path.basename(r) for r in res]
    c.check(len(set(got)) == len(got), label + ': no file twice')
    for name, i, cond in exp:
        c.check(cond if name in got else c.not_(cond), label + ': exactly the files of the run in the index range', [name])
    ix = {n: i for n, i, _ in exp}
    seq = [ix.get(g) for g in got]
    c.check(None not in seq, label + ': nothing else')
    c.check(None in seq or seq == sorted(seq), label + ': in order of the chain number')


def names_of(c, U, root, pre, post, alpha, n, sep, filt=False):
    """one free file name next to two files of the run"""
    r = ROOTS[root]
    pre, post = pre.replace('R', r), post.replace('R', r)
    s = c.pin(pre + c.str('s', n, alpha) + post)
    others = [r + sep + '2.txt', r + '.txt', r + sep + '10.txt']
    names = [others[0], s, others[2], others[1]]
    if s in others:
        names.remove(s)
    first, last = 0, -1
    inc = exc = None
    if filt:
        first, last = c.int('first', 0, 12), c.int('last', -1, 12)
        inc = [c.int('i0', 0, 3), c.int('i1', 9, 11)] if filt == 'inc' else None
        exc = [c.int('e0', 0, 3)] if filt == 'exc' else None
    with Listing(names):
        res = U.chains.chainFiles(os.path.join(c.scratch, r), inc, separator=sep, first_chain=first, last_chain=last, chain_exclude=exc)
    exp = []
    for nm in names:
        i = index(nm, r, sep, '.txt')
        cond = i is not None
        if cond and filt:
            cond = c.and_(i >= first, c.or_(last < 0, i <= last))
            if inc is not None:
                cond = c.and_(cond, c.or_([c.eq(i, k) for k in inc]))
            if exc is not None:
                cond = c.and_(cond, c.and_([c.not_(c.eq(i, k)) for k in exc]))
        exp.append((nm, i, cond))
    check_files(c, res, exp, 'files')
    c.check(all(os.path.dirname(x) == c.scratch for x in res), 'full paths')


def directory(c, U):
    """root given as a directory: files named by number only"""
    s = c.pin(c.str('s', 2, '01a_.') + '.txt')
    names = ['2.txt', s, '.txt'] if s != '2.txt' else ['2.txt', '.txt']
    with Listing(names):
        res = U.chains.chainFiles(c.scratch + os.sep)
    check_files(c, res, [(n, index(n, '', '', '.txt'), index(n, '', '', '.txt') is not None) for n in names], 'files')


def here(c, U):
    """root in the current directory"""
    old = os.getcwd()
    os.chdir(c.scratch)
    try:
        k = c.int('k', 1, 4)
        for i in (3, 1):
            with open('zz_%d.txt' % i, 'w') as f:
                f.write('1 1 1\n')
        r, e = c.raises(lambda: U.chains.chainFiles('zz', first_chain=k))
        c.check(e is None, 'root without a directory')
        if e is None:
            check_files(c, r, [('zz_1.txt', 1, k <= 1), ('zz_3.txt', 3, k <= 3)], 'files')
        c.check(U.chains.hasChainFiles('zz'), 'found')
        c.check(not U.chains.hasChainFiles('z'), 'prefix is not the run')
    finally:
        os.chdir(old)


DIRS = ['', 'd0', 'd1', os.path.join('d1', 'sub'), os.path.join('d0', 'deep')]


def find(c, U, root, sub):
    """a run found anywhere under a directory, and only where it exists"""
    where = [c.bool('in%d' % i) for i in range(len(DIRS))]
    top = os.path.join(c.scratch, 'top')
    there = []
    for d, b in zip(DIRS, where):
        os.makedirs(os.path.join(top, d), exist_ok=True)
        if bool(b):
            there.append(d)
            with open(os.path.join(top, d, 'x_1.txt'), 'w') as f:
                f.write('1 1 1\n')
        else:
            with open(os.path.join(top, d, 'xx_1.txt'), 'w') as f:
                f.write('1 1 1\n')
    res, e = c.raises(lambda: U.chains.findChainFileRoot(top, root, search_subdirectories=sub))
    c.check(e is None, 'no error')
    if e is not None:
        return
    lead = os.path.dirname(root)
    direct = [d for d in there if d == lead]
    deep = [d for d in there if d != lead and (not lead or d.endswith(os.sep + lead))]
    ok = direct or (deep if sub else [])
    if ok:
        c.check(res is not None and os.path.normpath(res) in [os.path.normpath(os.path.join(top, d, 'x')) for d in ok], 'found where it is', [res])
        c.check(res is not None and U.chains.hasChainFiles(res), 'has files')
    else:
        c.check(res is None, 'not found', [res])


def load_order(c, U, order):
    """the loaded samples are the files of the run in order of their number"""
    v = [c.real('v%d' % i, 0, 1) for i in range(3)]
    root = os.path.join(c.scratch, 'm')
    for i, k in enumerate((1, 2, 10)):
        c.table(root + '_%d.txt' % k, [[1, 5 + i, v[i] + 2 * i], [1, 6 + i, v[i] + 2 * i + 1]])
    c.table(os.path.join(c.scratch, 'mm_3.txt'), [[1, 1, 99]])
    c.table(os.path.join(c.scratch, 'm_3.txt.bak'), [[1, 1, 99]])
    names = ['m_1.txt', 'm_2.txt', 'm_10.txt', 'mm_3.txt', 'm_3.txt.bak']
    with Listing([names[i] for i in order]):
        fs = U.chains.chainFiles(root)
    s = U.chains.Chains(names=['p'], min_weight_ratio=-1)
    s.loadChains(root, fs)
    s.makeSingle()
    c.check_all_eq(list(s.samples[:, 0]), [v[0], v[0] + 1, v[1] + 2, v[1] + 3, v[2] + 4, v[2] + 5], 'samples in order')


def scenarios(tier):
    th = tier == 'thorough'
    yield Scenario(directory, dict())
    yield Scenario(here, dict())
    for root in ROOTS:
        yield Scenario(names_of, dict(root=root, pre='R', post='.txt', alpha='_.12a', n=2, sep='_'))
        yield Scenario(names_of, dict(root=root, pre='', post='_1.txt', alpha='rx._ab+', n=1, sep='_'))
        yield Scenario(names_of, dict(root=root, pre='R', post='', alpha='_1.tx', n=3, sep='_'))
    yield Scenario(names_of, dict(root='plain', pre='R', post='.txt', alpha='_.12a', n=2, sep='.'))
    yield Scenario(names_of, dict(root='plain', pre='R_', post='txt', alpha='1._', n=2, sep='_'))
    yield Scenario(names_of, dict(root='plain', pre='R_1.txt', post='', alpha='~1.t', n=1, sep='_'))
    yield Scenario(names_of, dict(root='plain', pre='R_', post='.txt', alpha='0139', n=2, sep='_', filt='plain'))
    for f in ('inc', 'exc'):
        yield Scenario(names_of, dict(root='plain', pre='R_', post='.txt', alpha='0139', n=2 if th else 1, sep='_', filt=f))
    for sub in (True, False):
        yield Scenario(find, dict(root='x', sub=sub))
        yield Scenario(find, dict(root='sub/x', sub=sub))
        yield Scenario(find, dict(root='d1/x', sub=sub))
    for order in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 3, 1, 4)):
        yield Scenario(load_order, dict(order=order))
    if th:
        yield Scenario(names_of, dict(root='digit', pre='', post='.txt', alpha='r_1.', n=4, sep='_'))
