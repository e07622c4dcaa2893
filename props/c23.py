"""C23 1D and 2D marginalised densities are the documented kernel estimate of the weighted samples."""
import math
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = '3-5 samples, any values of 1-4 of them inside hard prior limits, grids of 13-40 bins, fixed smoothing scales, boundary ' \
         'correction of order 0-2, multiplicative bias correction of order 0-2, 1D and 2D'
OUTSIDE = 'automatic bandwidth choice and its statistical accuracy; limits on one side only; correlated 2D kernels; larger grids'

LO = 0.0  # grid spacings are powers of two: no rounding at bin edges


def inside(c, name, lo, hi):
    x = c.real(name, lo + 1e-3, hi - 1e-3)
    [bool(t) for t in (x <= lo, x >= lo, x <= hi, x >= hi)]  # decided once: extrema of the samples stay plain numbers
    return x


def mk(c, U, X, w, L, names, settings, ranges):
    s = dict(ignore_rows=0)
    s.update(settings)
    return U.mcsamples.MCSamples(samples=c.array(X), weights=np.array(w, dtype=float), loglikes=np.array(L, dtype=float), names=names,
                                 settings=s, ranges=ranges)


def bin_of(x, lo, hi, n):
    """index of the nearest grid point (end bins are half as wide)"""
    fw = (hi - lo) / (n - 1)
    i = 0
    while i < n - 1 and bool(x >= lo + fw * (i + 0.5)):
        i += 1
    return i


def kernel(h, winw):
    k = [math.exp(-(j / h) ** 2 / 2) for j in range(-winw, winw + 1)]
    t = sum(k)
    return [x / t for x in k]


def smooth(b, k, power=0):
    """sum over the window, weighted with the offset (from the sample to the grid point) to a power"""
    n, w = len(b), len(k) // 2
    out = []
    for i in range(n):
        t = 0.
        for d in range(-w, w + 1):
            if 0 <= i - d < n:
                t += b[i - d] * k[d + w] * d ** power
        out.append(t)
    return out


def estimate1(b, h, winw, order, mult):
    n = len(b)
    k = kernel(h, winw)
    m = [0.5] + [1.] * (n - 2) + [0.5]
    f = smooth(b, k)
    a = [smooth(m, k, p) for p in range(5)]
    P = list(f)
    fx, fxx = smooth(b, k, 1), smooth(b, k, 2)
    for i in range(n):
        if a[0][i] * f[i] == 0 or order < 0:
            continue
        a0, a1, a2, a3, a4 = [t[i] for t in a]
        nm = f[i] / a0
        if order == 0:
            P[i] = nm
            continue
        if order == 1:
            cr = (f[i] * a2 - fx[i] * a1) / (a0 * a2 - a1 * a1)
        else:
            # quadratic local fit: solve the normal equations for the value at the point
            M = np.array([[a0, a1, a2], [a1, a2, a3], [a2, a3, a4]])
            cr = np.linalg.solve(M, np.array([f[i], fx[i], fxx[i]]))[0]
        P[i] = nm * math.exp(min(cr / nm, 4) - 1)
    for _ in range(mult):
        t = smooth([x / (p if p != 0 else 1) for x, p in zip(b, P)], k)
        nrm = smooth(m, k)
        P = [p * x / y for p, x, y in zip(P, t, nrm)]
    t = max(P)
    return [p / t for p in P]


def near(c, a, b, label, tol=1e-6):
    bad = [(i, float(x), float(y)) for i, (x, y) in enumerate(zip(a, b)) if abs(float(x) - float(y)) > tol]
    c.check(not bad and len(a) == len(b), label, bad[:3])


def one(c, U, n, scale, order, mult, free=1, nb=None, likes=False):
    """density of a parameter between hard limits"""
    nb = nb or n
    HI = (n - 1) / 8
    X = [[LO, 4.], [HI, 5.], [0.25 * HI, 1.], [0.6 * HI, 2.]]
    w = [2., 2.5, 1., 3.]
    for i in range(free):
        X[2 + i][0] = inside(c, 'x%d' % i, LO, HI)
    xs = [r[0] for r in X]
    L = [4., 5., 1., 2.]
    m = mk(c, U, X, w, L, ['a', 'b'], dict(fine_bins=n, num_bins=nb, smooth_scale_1D=scale, boundary_correction_order=order, mult_bias_correction_order=mult, shade_likes_is_mean_loglikes=False), {'a': (LO, HI)})
    d = m.get1DDensityGridData('a', meanlikes=likes)
    near(c, d.x, [LO + (HI - LO) * i / (n - 1) for i in range(n)], 'grid from limit to limit')
    c.check([float(t) for t in d.view_ranges] == [LO, HI], 'range')
    b, bl = [0.] * n, [0.] * n
    mean = sum(a * t for a, t in zip(w, L)) / sum(w)
    for x, wt, l in zip(xs, w, L):
        i = bin_of(x, LO, HI, n)
        b[i] += wt
        bl[i] += wt * math.exp(mean - l)
    h = min(max(1., scale * (n - 1) / (nb - 1)), n // 2)
    winw = min(int(round(2.5 * h)), n // 2 - 2)
    P = estimate1(b, h, winw, order, mult)
    near(c, d.P, P, 'kernel estimate')
    c.check(max(float(t) for t in d.P) == 1, 'peak at one')
    if likes:
        k = kernel(h, winw)
        raw = smooth(b, k)
        q = smooth([x / p if p > 0 else x for x, p in zip(bl, P)], k)
        q = [x * p / r if p > 0 else x for x, p, r in zip(q, P, raw)]
        near(c, d.likes, [x / max(q) for x in q], 'mean likelihoods', 1e-5)
    e = m.get1DDensity('a')
    c.check(e is m.get1DDensity('a') and np.allclose(np.array(e.P, dtype=float), np.array(d.P, dtype=float)), 'same density again')


def free1(c, U, n):
    """no limits: the grid covers all samples, the total is conserved"""
    X = [[c.real('x0', 0.6, 1.4), 1.], [0., 2.], [2., 4.], [1., 3.]]
    m = mk(c, U, X, [1., 1., 1., 1.], [1., 2., 4., 5.], ['a', 'b'], dict(fine_bins=n, num_bins=n), {})
    par = m._initParamRanges(0)
    ix, fw, lo, hi = m._binSamples(m.samples[:, 0], par, n)
    c.check(c.and_(lo < par.param_min, hi > par.param_max), 'the grid covers all samples')
    c.check(c.and_(par.range_min >= lo, par.range_max <= hi), 'and the range')
    c.check(c.eq(fw * (n - 1), hi - lo), 'bin width')
    for i, r in zip(ix, X):
        t = (r[0] - lo) - fw * int(i)
        c.check(c.and_(t <= fw / 2, t >= -fw / 2), 'each sample is in its nearest bin')


def estimate2(H, rx, ry, order, mult):
    """H[y][x]"""
    ny, nx = len(H), len(H[0])
    w = int(round(2.5 * max(rx, ry)))
    K = {(dy, dx): math.exp(-(dy / ry) ** 2 / 2 - (dx / rx) ** 2 / 2) for dy in range(-w, w + 1) for dx in range(-w, w + 1)}
    t = sum(K.values())
    K = {k: v / t for k, v in K.items()}
    K = {(dy, dx): v for (dy, dx), v in K.items()}

    def sm(A, py=0, px=0):
        out = [[0.] * nx for _ in range(ny)]
        for y in range(ny):
            for x in range(nx):
                v = A[y][x]
                if v == 0:
                    continue
                for (dy, dx), k in K.items():
                    if 0 <= y + dy < ny and 0 <= x + dx < nx:
                        out[y + dy][x + dx] += v * k * dy ** py * dx ** px
        return out

    M = [[(0.5 if y in (0, ny - 1) else 1.) * (0.5 if x in (0, nx - 1) else 1.) for x in range(nx)] for y in range(ny)]
    f = sm(H)
    P = [list(r) for r in f]
    top = max(map(max, f))
    a = {(p, q): sm(M, p, q) for p in range(3) for q in range(3) if p + q < 3}
    fy, fx = sm(H, 1, 0), sm(H, 0, 1)
    for y in range(ny):
        for x in range(nx):
            a00 = a[0, 0][y][x]
            if order < 0 or a00 * f[y][x] <= top * 1e-8:
                continue
            nm = f[y][x] / a00
            if order == 0:
                P[y][x] = nm
                continue
            g = lambda p, q: a[p, q][y][x]
            A = np.array([[g(0, 0), g(1, 0), g(0, 1)], [g(1, 0), g(2, 0), g(1, 1)], [g(0, 1), g(1, 1), g(0, 2)]])
            cr = np.linalg.solve(A, np.array([f[y][x], fy[y][x], fx[y][x]]))[0]
            P[y][x] = nm * math.exp(min(cr / nm, 4) - 1)
    for _ in range(mult):
        top = max(map(max, P))
        t = sm([[h / p if p > top * 1e-8 else h for h, p in zip(hr, pr)] for hr, pr in zip(H, P)])
        nrm = sm(M)
        P = [[p * q / z for p, q, z in zip(*r)] for r in zip(P, t, nrm)]
    top = max(map(max, P))
    return [[p / top for p in r] for r in P]


def two(c, U, n, scale, order, mult, free='xy', nb=None):
    """uncorrelated parameters between hard limits"""
    nb = nb or n
    HI, HY = (n - 1) / 8, (n - 1) / 4
    x1 = inside(c, 'x1', LO, HI) if 'x' in free else 0.3
    y1 = inside(c, 'y1', 0., HY) if 'y' in free else 0.6
    X = [[LO, 0.], [LO, HY], [HI, 0.], [HI, HY], [x1, y1]]
    w = [5., 5., 5., 5., 1.]  # correlation below 0.1
    m = mk(c, U, X, w, [1., 2., 3., 4., 5.], ['a', 'b'], dict(fine_bins=16, num_bins=16, smooth_scale_1D=1, fine_bins_2D=n, num_bins_2D=nb, smooth_scale_2D=scale,
                                                           boundary_correction_order=order, mult_bias_correction_order=mult), {'a': (LO, HI), 'b': (0., HY)})
    d = m.get2DDensity('a', 'b')
    near(c, d.x, [LO + (HI - LO) * i / (n - 1) for i in range(n)], 'x grid')
    near(c, d.y, [HY * i / (n - 1) for i in range(n)], 'y grid')
    H = [[0.] * n for _ in range(n)]
    for (x, y), wt in zip(X, w):
        H[bin_of(y, 0., HY, n)][bin_of(x, LO, HI, n)] += wt
    r = scale * n / nb
    P = estimate2(H, r, r, order, mult)
    near(c, [v for row in d.P for v in row], [v for row in P for v in row], 'kernel estimate')
    e = m.get2DDensity('b', 'a')
    near(c, [v for row in np.array(e.P, dtype=float).T for v in row], [v for row in d.P for v in row], 'swapping the parameters transposes the density')


def scenarios(tier):
    th = tier == 'thorough'
    for order in (-1, 0, 1, 2):
        for mult in (0, 1):
            yield Scenario(one, dict(n=21, scale=1.0, order=order, mult=mult))
    yield Scenario(one, dict(n=13, scale=2.0, order=1, mult=1))
    yield Scenario(one, dict(n=16, scale=1.0, order=1, mult=1, nb=8))
    yield Scenario(one, dict(n=16, scale=1.0, order=0, mult=0, nb=8, free=2))
    yield Scenario(one, dict(n=21, scale=1.0, order=1, mult=2, likes=True))
    yield Scenario(one, dict(n=14, scale=1.0, order=0, mult=0, likes=True))
    yield Scenario(free1, dict(n=8))
    for order in (-1, 0, 1):
        for mult in (0, 1):
            yield Scenario(two, dict(n=9, scale=1.0, order=order, mult=mult, free='xy' if order == 1 and mult else 'x' if order else 'y'))
    yield Scenario(two, dict(n=12, scale=1.0, order=1, mult=1, nb=8, free='xy'))
    if th:
        for order in (0, 1, 2):
            for mult in (0, 1, 2):
                yield Scenario(one, dict(n=16, scale=1.0, order=order, mult=mult, free=2))
                yield Scenario(one, dict(n=40, scale=1.0, order=order, mult=mult, nb=20, likes=True))
        for order in (0, 1):
            yield Scenario(two, dict(n=9, scale=1.0, order=order, mult=1, free='xy'))
