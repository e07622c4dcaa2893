"""C15 densities on a grid: normalisation, interpolation, contour levels and equal-density limits."""
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.densities']
BOUNDS = '1D grids of 4-6 points, 2D grids up to 3x4, 3D grids 2x2x2 / 2x3x2, all density values, grid origin/spacing and fractions symbolic'
OUTSIDE = 'larger grids; limits on a refined (splined) grid (refinement factor 1 here); limits with every density value and the fraction symbolic at once; positions between grid points'


def dens1(c, U, n, lo=0, view=None, step=None):
    P = c.reals('p', n, lo, 10)
    D = U.densities.Density1D(np.array([1.0 + 0.5 * i for i in range(n)]), c.array(P), view_ranges=view)
    return D, P


def pos(c, P):
    c.assume(c.sum(P) > 0.01)


def trap(c, P):
    return c.sum(P[1:-1]) + (P[0] + P[-1]) / 2


def normal1(c, U, n, by, in_place):
    D, P = dens1(c, U, n)
    c.assume(trap(c, P) > 0.01)
    orig = D.P
    c.check_eq(D.norm_integral(), trap(c, P) * 0.5, 'integral is the trapezoid sum')
    D.Prob(1.0)
    r = D.normalize(by, in_place)
    c.check(r is D, 'returns itself')
    N = trap(c, P) * 0.5 if by == 'integral' else c.max(P)
    for i in range(n):
        c.check_eq(D.P[i] * N, P[i], 'shape kept')
    if by == 'integral':
        c.check_eq(D.norm_integral(), 1, 'integral is one')
    else:
        c.check_eq(c.max(list(D.P)), 1, 'maximum is one')
    if not in_place:
        c.check_all_eq(list(orig), P, 'the input array is untouched')
    else:
        c.check(D.P is orig, 'in place')
    for i in range(n):
        c.check_eq(D.Prob(1.0 + 0.5 * i)[0], D.P[i], 'interpolation goes through the normalised grid points')
    c.check_all_eq(list(D([1.0, 1.5])), [D.P[0], D.P[1]], 'call interpolates')
    c.check_eq(D.Prob(0.5)[0], 0, 'zero outside the grid')


def setp(c, U, n):
    D, P = dens1(c, U, n)
    D.Prob(1.0)
    Q = c.reals('q', n, 0, 10)
    D.setP(c.array(Q))
    c.check_eq(D.Prob(1.5)[0], Q[1], 'new values are used')
    _, e = c.raises(lambda: D.setP(c.array(Q[:-1])))
    c.check(e is not None, 'a wrong size is refused')
    c.check_all_eq(list(D.P), Q, 'a refused array changes nothing')
    c.check(D.bounds() == (1.0, 1.0 + 0.5 * (n - 1)), 'bounds')
    E = U.densities.Density1D(D.x, None, view_ranges=(0, 3))
    c.check_all_eq(list(E.P), [0] * n, 'empty density')
    c.check(E.bounds() == (0, 3), 'view range')


def normal2(c, U, nx, ny, by, in_place):
    P = c.matrix('p', ny, nx, 0, 10)
    w = [[(0.5 if i in (0, ny - 1) else 1) * (0.5 if j in (0, nx - 1) else 1) for j in range(nx)] for i in range(ny)]
    I = c.sum([w[i][j] * P[i][j] for i in range(ny) for j in range(nx)])
    c.assume(I > 0.01)
    D = U.densities.Density2D(np.array([1.0 + 0.5 * i for i in range(nx)]), np.array([2.0 * i for i in range(ny)]), c.array(P))
    orig = D.P
    c.check_eq(D.norm_integral(), I * 0.5 * 2, 'integral is the trapezoid sum')
    D.normalize(by, in_place)
    N = I if by == 'integral' else c.max([x for r in P for x in r])
    for i in range(ny):
        for j in range(nx):
            c.check_eq(D.P[i, j] * N, P[i][j], 'shape kept')
    if by == 'integral':
        c.check_eq(D.norm_integral(), 1, 'integral is one')
    if not in_place:
        c.check_all_eq([list(r) for r in orig], P, 'the input array is untouched')
    c.check(D.bounds() == [(1.0, 1.0 + 0.5 * (nx - 1)), (0.0, 2.0 * (ny - 1))], 'bounds in order x, y')


def interp2(c, U):
    nx, ny = 4, 5
    P = c.matrix('p', ny, nx, 0, 10)
    D = U.densities.Density2D(np.array([1.0 + 0.5 * i for i in range(nx)]), np.array([2.0 * i for i in range(ny)]), c.array(P))
    v, e = c.raises(lambda: D.Prob(1.5, 4.0))
    c.check(e is None and v is not None, 'density value')
    if v is not None:
        c.check_eq(v, P[2][1], 'interpolation goes through the grid (x, y order)')
    g = D.Prob(np.array([1.0, 2.5]), np.array([0.0, 8.0]), grid=True)
    c.check_all_eq([list(r) for r in g], [[P[0][0], P[4][0]], [P[0][3], P[4][3]]], 'grid of values')
    s = D(np.array([1.0, 2.5]), np.array([2.0, 6.0]), grid=False)
    c.check_all_eq(list(s), [P[1][0], P[3][3]], 'pairs of values')


def normalN(c, U, shape):
    """shape in axis order of P (reversed xs)"""
    xs = [np.array([0.5 * (k + 1) * i for i in range(n)]) for k, n in enumerate(shape[::-1])]
    P = c.reals('p', int(np.prod(shape)), 0, 10)
    I = 0
    cell = float(np.prod([0.5 * (k + 1) for k in range(len(shape))]))
    for f, ind in enumerate(np.ndindex(*shape)):
        w = 1.0
        for i, n in zip(ind, shape):
            w *= 0.5 if i in (0, n - 1) else 1
        I = I + w * P[f]
    c.assume(I > 0.01)
    D = U.densities.DensityND(xs, c.array(P).reshape(shape))
    c.check_eq(D.norm_integral(), I * cell, 'integral is the trapezoid sum')
    D.normalize('integral')
    c.check_eq(D.norm_integral(), 1, 'integral is one')


def weights_for(shape, half):
    ws = []
    for ind in np.ndindex(*shape):
        w = 1.0
        if half:
            for i, n in zip(ind, shape):
                w *= 0.5 if i in (0, n - 1) else 1
                if n == 1:
                    w *= 0.5
        ws.append(w)
    return ws


def contours(c, U, shape, half, missing, nc=1, conc=None):
    """the region above a contour level holds the requested mass, up to one bin"""
    n = int(np.prod(shape))
    P = c.reals('p', n, 0, 10)
    if conc:
        P = [float(x) if x is not None else P[i] for i, x in enumerate(conc)]
    ws = weights_for(shape, half)
    m = [w * p for w, p in zip(ws, P)]
    N = c.sum(m)
    c.assume(N > 0.01)
    for i in range(n):
        for j in range(i):
            if not (conc and conc[i] is not None and conc[j] is not None):
                c.assume(c.or_(P[i] - P[j] > 0.001, P[j] - P[i] > 0.001))
    f = [c.real('f%d' % k, 0.05, 0.95) for k in range(nc)]
    if nc > 1:
        c.assume(f[0] < f[1])
    miss = c.real('miss', 0, 0.02) if missing else 0
    A = c.array(P).reshape(shape)
    r, e = c.raises(lambda: U.densities.getContourLevels(A, f, missing_norm=miss, half_edge=half))
    t = [(1 - x) * N - miss for x in f]
    if e is not None:
        mn = c.min(P)
        least = c.sum([c.ite(c.eq(p, mn), a, 0) for p, a in zip(P, m)])
        c.check(c.or_([x <= least for x in t]), 'refused only if the contour leaves the grid')
        return
    for k in range(nc):
        L = r[k]
        below = c.sum([c.ite(p < L - 1e-9, a, 0) for p, a in zip(P, m)])
        upto = c.sum([c.ite(p <= L + 1e-9, a, 0) for p, a in zip(P, m)])
        c.check(c.le(below, t[k]), 'no more than the requested mass is left outside')
        nxt = c.max([c.ite(c.and_(p > L + 1e-9, c.and_([c.or_(q <= L + 1e-9, q >= p) for q in P])), a, 0) for p, a in zip(P, m)])
        c.check(c.le(t[k], upto + nxt), 'the mass outside is the requested one up to one bin')
        c.check(c.le(L, c.max(P)), 'level within the density range')
    if nc > 1:
        c.check(c.le(r[1], r[0]), 'larger fractions have lower levels')
    c.check_all_eq(list(A.reshape(-1)), P, 'density untouched')


def method(c, U):
    """the methods of the density use half-weighted edges"""
    P = [1.0, 3.0, c.real('a', 4, 9), 2.0]
    f = c.real('f', 0.2, 0.6)
    D = U.densities.Density1D(np.arange(4) * 1.0, c.array(P))
    a = D.getContourLevels([f])
    b = U.densities.getContourLevels(c.array(P), [f], half_edge=True)
    c.check_all_eq(list(a), list(b), 'same levels')


def limits(c, U, P, f, form='array'):
    """equal-density limits of a single-peaked density on the grid itself; None entries are symbolic"""
    n, np_ = len(P), len(f)
    conc = P
    peak = max([i for i in range(n) if P[i] is not None], key=lambda i: P[i])
    P = [c.real('p%d' % i, 0.01, P[peak]) if v is None else float(v) for i, v in enumerate(P)]
    for i in range(n - 1):
        if conc[i] is None or conc[i + 1] is None:
            c.assume(P[i] + 0.001 < P[i + 1] if i < peak else P[i] > P[i + 1] + 0.001)
    x = np.array([1.0 + 0.5 * i for i in range(n)])
    D = U.densities.Density1D(x, c.array(P))
    fc = f
    f = [c.real('f%d' % k, 0.1, 0.95) if v is None else v for k, v in enumerate(f)]
    if np_ > 1 and None in fc:
        c.assume(f[0] < f[1])
    if form == 'scalar':
        res = [D.getLimits(f[0], accuracy_factor=1)]
    elif form == 'list':
        res = D.getLimits(list(f), accuracy_factor=1)
    else:
        g = D.initLimitGrids(1)
        res = D.getLimits(c.array(f), g)
    c.check(len(res) == np_, 'one result per fraction')
    N = c.sum(P) - (P[0] + P[-1]) / 2
    if len(res) != np_:
        return
    if any(len(r) != 4 for r in res):
        c.check(False, 'result is (min, max, bottom, top)')
        return
    for (mn, mx, bot, top), fr in zip(res, f):
        c.check(c.and_(c.le(1.0, mn), c.le(mx, x[-1])), 'limits inside the grid')
        c.check(c.le(mn, mx), 'limits ordered')
        bot, top = bool(bot), bool(top)
        if bot:
            c.check_eq(mn, 1.0, 'no lower limit: end of the grid')
        if top:
            c.check_eq(mx, x[-1], 'no upper limit: end of the grid')
        lev = []
        for q, at_end in ((mn, bot), (mx, top)):
            if not at_end:
                v = 0
                for i in range(n - 1):
                    v = c.ite(c.and_(q >= x[i], q <= x[i + 1]), P[i] + (P[i + 1] - P[i]) * (q - x[i]) / 0.5, v)
                lev.append(v)
        if len(lev) == 2:
            c.check(c.and_(c.le(lev[0], lev[1] + 1e-6), c.le(lev[1], lev[0] + 1e-6)), 'equal density at both limits')
        if lev:
            c.check(c.and_(c.implies(bot, c.le(lev[0], P[0] + 1e-6)), c.implies(top, c.le(lev[0], P[-1] + 1e-6))), 'a side without limit is above the level')
        t = (1 - fr) * N
        out = c.sum([c.ite(c.or_(x[i] < mn - 1e-9, x[i] > mx + 1e-9), P[i], 0) for i in range(n)])
        c.check(c.le(out, t + 1e-6), 'no more than the requested mass is left outside')
        big = c.max(P)
        c.check(c.le(t, out + 2 * big), 'the mass outside is the requested one up to two points')
    if np_ > 1:
        c.check(c.and_(c.le(res[1][0], res[0][0]), c.le(res[0][1], res[1][1])), 'larger fractions contain smaller ones')


def scenarios(tier):
    th = tier == 'thorough'
    for by in ('integral', 'max'):
        for ip in (False, True):
            yield Scenario(normal1, dict(n=4, by=by, in_place=ip))
            yield Scenario(normal2, dict(nx=3, ny=2, by=by, in_place=ip))
    yield Scenario(normal2, dict(nx=3, ny=4 if th else 3, by='integral', in_place=False))
    yield Scenario(setp, dict(n=4))
    yield Scenario(interp2, dict())
    for sh in [(2, 2), (3, 2), (2, 2, 2), (2, 3, 2)]:
        yield Scenario(normalN, dict(shape=sh))
    for half in (True, False):
        yield Scenario(contours, dict(shape=(4,), half=half, missing=half))
        yield Scenario(contours, dict(shape=(3,), half=half, missing=False, nc=2))
    yield Scenario(contours, dict(shape=(2, 2), half=True, missing=True))
    yield Scenario(contours, dict(shape=(3, 3), half=True, missing=False, conc=(None, 2, 1, 3, 9, None, 0.5, 4, 1.5) if th else (6, 2, 1, 3, 9, None, 0.5, 4, 1.5)))
    yield Scenario(method, dict())
    for P in [(1, 4, 3, 2), (4, 3, 2, 1), (1, 2, 4, 8), (1, 4, 9, 6, 2), (1, 4, 2, 0.25)]:
        yield Scenario(limits, dict(P=P, f=(None,)))
    for P, f in [((None, 5, 3, 1), 0.68), ((1, 5, None, 2), 0.5), ((1, 3, 7, None), 0.9), ((None, 3, 7, 1), 0.25)]:
        yield Scenario(limits, dict(P=P, f=(f,)))
    yield Scenario(limits, dict(P=(1, 4, 9, 6, 2), f=(None, None)))
    yield Scenario(limits, dict(P=(1, 4, 9, 6, 2), f=(None,), form='scalar'))
    yield Scenario(limits, dict(P=(1, 4, 9, 6, 2), f=(0.68, None), form='list'))
    if th:
        yield Scenario(contours, dict(shape=(5,), half=True, missing=True))
        yield Scenario(contours, dict(shape=(2, 3), half=True, missing=False))
        yield Scenario(limits, dict(P=(1, 4, 7, 9, 6, 2), f=(None, None)))
        yield Scenario(limits, dict(P=(0.5, 1, 4, 7, 9, 6, 2, 1), f=(None,)))
        yield Scenario(limits, dict(P=(None, 5, None, 1), f=(0.68,)))
        yield Scenario(limits, dict(P=(1, None, 6, None, 2), f=(0.5,)))
