"""C14 covariance matrices: entries stay with their parameters through files, merging, rescaling and estimation."""
import itertools
import os
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.covmat', 'getdist.mcsamples']
BOUNDS = '1-3 parameters per matrix (any order, every overlap of two sets), all entries symbolic; estimation from 3 rows of 3 parameters'
OUTSIDE = 'larger matrices; entries beyond the printed precision (8 significant digits)'


def covmat(c, U, names, tag='m', lo=-5, hi=5, diag=(0.5, 9)):
    n = len(names)
    M = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            M[i][j] = M[j][i] = c.real('%s%d%d' % (tag, i, j), *(diag if i == j else (lo, hi)))
    return U.covmat.CovMat(matrix=c.array(M), paramNames=list(names)), M


def close(c, a, b, rel=1e-6):
    d = a - b
    h = abs(b) * rel + 1e-12
    return c.and_(d <= h, -d <= h)


def same(c, C, names, val, label, rel=None):
    c.check(list(C.paramNames) == list(names), label + ': names', [list(C.paramNames), list(names)])
    c.check(tuple(C.matrix.shape) == (len(names),) * 2, label + ': shape')
    c.check(C.size == len(names), label + ': size')
    if tuple(C.matrix.shape) != (len(names),) * 2:
        return
    for i in range(len(names)):
        for j in range(len(names)):
            v = val(i, j)
            if rel is None:
                c.check_eq(C.matrix[i, j], v, label + ': entry')
            else:
                c.check(close(c, C.matrix[i, j], v, rel), label + ': entry')


def files(c, U, names, via):
    C, M = covmat(c, U, names)
    f = os.path.join(c.scratch, 'x.covmat')
    C.saveToFile(f)
    D = U.covmat.CovMat(f)
    same(c, D, names, lambda i, j: M[i][j], 'reloaded', 1e-6)
    same(c, C, names, lambda i, j: M[i][j], 'unchanged by saving')
    D.saveToFile(f)
    E = U.covmat.CovMat()
    E.loadFromFile(f)
    same(c, E, names, lambda i, j: M[i][j], 'reloaded twice', 3e-6)


def no_header(c, U):
    f = os.path.join(c.scratch, 'x.covmat')
    c.table(f, [[c.real('a', 1, 2), 0], [0, 1]])
    _, e = c.raises(lambda: U.covmat.CovMat(f))
    c.check(e is not None, 'a file without parameter names is refused')


def rescale(c, U, names, which):
    C, M = covmat(c, U, names)
    s = c.real('s', -3, 3)
    C.rescaleParameter(which, s)
    fac = [s if n == which else 1 for n in names]
    same(c, C, names, lambda i, j: M[i][j] * fac[i] * fac[j], 'rescaled')


def merge(c, U, a, b):
    A, MA = covmat(c, U, a, 'm')
    B, MB = covmat(c, U, b, 'k')
    C = A.mergeCovmatWhereNew(B)
    names = list(a) + [x for x in b if x not in a]

    def val(i, j):
        x, y = names[i], names[j]
        if x in a and y in a:
            return MA[a.index(x)][a.index(y)]
        if x in b and y in b:
            return MB[b.index(x)][b.index(y)]
        return 0
    same(c, C, names, val, 'merged')
    same(c, A, a, lambda i, j: MA[i][j], 'first input unchanged')
    same(c, B, b, lambda i, j: MB[i][j], 'second input unchanged')
    C.matrix[0, 0] = 1
    C.paramNames[0] = 'other'
    same(c, A, a, lambda i, j: MA[i][j], 'first input independent of the result')
    same(c, B, b, lambda i, j: MB[i][j], 'second input independent of the result')


def fresh(c, U):
    A = U.covmat.CovMat()
    A.paramNames.append('x')
    B = U.covmat.CovMat()
    c.check(B.paramNames == [], 'new matrices are empty')


def correl(c, U, n, merged, diag):
    """diagonal entries are concrete squares, the rest symbolic"""
    names = ['a', 'b', 'c'][:n]
    M = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = M[j][i] = c.real('m%d%d' % (i, j), -3, 3)
        M[i][i] = float(diag[i]) ** 2
    C = U.covmat.CovMat(matrix=c.array(M), paramNames=list(names))
    if merged:
        C = C.mergeCovmatWhereNew(U.covmat.CovMat(matrix=c.array([[4.0]]), paramNames=['z']))
        names = names + ['z']
    R = C.correlation()
    for i in range(n):
        for j in range(n):
            c.check_eq(R[i, j] * (diag[i] * diag[j]), M[i][j], 'correlation')
            c.check_eq(C.matrix[i, j], M[i][j], 'covariance unchanged')
    if merged:
        c.check_all_eq(list(R[n, :]), [0] * n + [1], 'correlation of the added parameter')


def wcov(c, rows, w, x, y):
    N = c.sum(w)
    mx = c.sum([a * r[x] for a, r in zip(w, rows)])
    my = c.sum([a * r[y] for a, r in zip(w, rows)])
    sxy = c.sum([a * r[x] * r[y] for a, r in zip(w, rows)])
    return sxy / N - mx * my / (N * N)


def estimate(c, U, derived, fix=None, mutate=None):
    names = ['a', 'b', 'q']
    n = 3
    rows = [dict() for _ in range(n)]
    conc = {'a': [1.0, 2.5, 1.5], 'b': [3.0, 1.0, 2.0], 'q': [0.5, 1.25, 4.0]}
    for nm in names:
        for i in range(n):
            rows[i][nm] = conc[nm][i]
    free = [nm for nm, d in zip(names, derived) if not d]
    for nm in free[:2]:
        v = c.real(nm + '1', 5, 6)
        rows[1][nm] = v
    if fix:
        for r in rows:
            r[fix] = 2.0
    w = [1.0, 2.0, 1.0]
    P = U.paramnames.ParamNames()
    P.names = [U.paramnames.ParamInfo(name=x, label=x, derived=d) for x, d in zip(names, derived)]
    s = U.mcsamples.MCSamples(samples=c.array([[r[x] for x in names] for r in rows]), weights=c.array(w),
                              loglikes=c.array([1.0, 2.0, 3.0]), paramNamesFile=P, ignore_rows=0, settings={'ignore_rows': 0})
    if fix:
        s.deleteFixedParams()
        free = [x for x in free if x != fix]
    C = s.getCovMat()
    val = lambda i, j: wcov(c, rows, w, free[i], free[j])
    same(c, C, free, val, 'covariance of the sampled parameters')
    if mutate == 'rescale':
        C.rescaleParameter(free[0], 2)
        C2 = s.getCovMat()
        same(c, C2, free, val, 'estimate is independent of earlier results')
    elif mutate == 'file':
        f = os.path.join(c.scratch, 'y.covmat')
        s.writeCovMatrix(f)
        same(c, U.covmat.CovMat(f), free, val, 'written covariance', 1e-6)


def scenarios(tier):
    th = tier == 'thorough'
    yield Scenario(fresh, dict())
    yield Scenario(no_header, dict())
    for names in (['a'], ['b', 'a'], ['omegabh2', 'theta_1', 'n.s'], ['q#1', 'x*']):
        yield Scenario(files, dict(names=tuple(names), via='save'))
    for names in (['a'], ['b', 'a'], ['a', 'b', 'c']):
        for which in names:
            yield Scenario(rescale, dict(names=tuple(names), which=which))
    yield Scenario(rescale, dict(names=('a', 'b'), which='zz'))
    pool = ['a', 'b', 'c']
    sets = [list(p) for k in (1, 2) for p in itertools.permutations(pool, k)] + [['b', 'a', 'c'], ['c', 'b', 'd']]
    firsts = [['a', 'b'], ['b', 'a'], ['a'], ['c', 'a', 'b']]
    if th:
        sets += [list(p) for p in itertools.permutations(['a', 'b', 'd', 'e'], 3)]
        firsts += [['a', 'c'], ['b', 'c', 'd'], ['e']]
    for a in firsts:
        for b in sets:
            yield Scenario(merge, dict(a=tuple(a), b=tuple(b)))
    for m in (False, True):
        yield Scenario(correl, dict(n=2, merged=m, diag=(2, 3)))
        yield Scenario(correl, dict(n=3, merged=m, diag=(0.5, 4, 1)))
    for d in itertools.product((False, True), repeat=3):
        if not all(d):
            yield Scenario(estimate, dict(derived=d))
    yield Scenario(estimate, dict(derived=(False, True, False), mutate='rescale'))
    yield Scenario(estimate, dict(derived=(False, False, False), mutate='rescale'))
    yield Scenario(estimate, dict(derived=(False, True, False), mutate='file'))
    yield Scenario(estimate, dict(derived=(False, False, False), fix='a', mutate='file'))
    yield Scenario(estimate, dict(derived=(True, False, False), fix='b'))
