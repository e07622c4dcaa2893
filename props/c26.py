"""C26 the quoted marginalised limits of each parameter are the documented one- or two-tail limits of its own samples."""
import math
import numpy as np
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = '4-6 samples, 1-2 parameters; every density height at the ends, level of the density limits, threshold and prior range (density ' \
         'represented by a stand-in with arbitrary values), every value of 1-2 samples, 1-3 contours, and real densities of one free sample'
OUTSIDE = 'more samples; densities themselves (C23, C15); quantiles of large samples (C02)'


class Dens:
    """density with arbitrary values at its ends, limits of any position, and an arbitrary linear shape"""

    def __init__(self, P, lims, a, b):
        self.P, self.lims, self.a, self.b = P, lims, a, b
        self.asked = []

    def initLimitGrids(self, *a, **k):
        return self

    def getLimits(self, p, interpGrid=None, accuracy_factor=None):
        if np.ndim(p) == 0:
            self.asked.append(float(p))
            return self.lims[round(float(p), 6)]
        return [self.getLimits(x) for x in p]

    def Prob(self, x, derivative=0):
        return self.a + self.b * x

    __call__ = Prob


def quantile(vals, w, frac):
    """smallest value with at least a fraction of the weight at or below it (concrete values and weights)"""
    order = sorted(range(len(vals)), key=lambda i: vals[i])
    t = 0.
    N = sum(w)
    for i in order:
        t += w[i]
        if t >= N * frac:
            return vals[i]
    return vals[order[-1]]


VALS = [0., 1., 2., 3., 5., 8., 9., 10.]
W = [1., 2., 1., 3., 2., 1., 2., 1.]


def rule(c, U, nc, bot, top, force, flags, override, other):
    names = ['a'] + (['b'] if other else [])
    X = [[v] + ([20. - v] if other else []) for v in VALS]
    conts = [0.5, 0.8, 0.95][:nc]
    st = {'contours': ' '.join(map(str, conts)), 'ignore_rows': 0, 'credible_interval_threshold': 0.05, 'force_twotail': force}
    if nc >= 2 and not override:
        st['max_frac_twotail2'] = 0.25
    lo, hi = -c.real('lo', 0, 1), c.real('hi', 10, 11)
    bool(lo < 0), bool(hi > 10)
    s = U.mcsamples.MCSamples(samples=np.array(X), weights=np.array(W), names=names, settings=st,
                              ranges={'a': (lo if bot else None, hi if top else None)})
    thr = c.real('threshold', 0, 1)
    s.credible_interval_threshold = thr
    D = {}
    for nm in names:
        lims = {}
        for k, ct in enumerate(conts):
            f = flags if (k == 0 and nm == 'a') else (c.choice('f%s%d' % (nm, k), 4) if nm == 'a' and k == 1 else 0)
            lims[round(ct, 6)] = (c.real('ml%s%d' % (nm, k)), c.real('mu%s%d' % (nm, k)), bool(f & 1), bool(f & 2))
        D[nm] = Dens([c.real('p0' + nm, 0, 1), 1., c.real('p1' + nm, 0, 1)], lims, c.real('da' + nm), c.real('db' + nm))

    def grid(j, *a, **kw):
        nm = j if isinstance(j, str) else s.paramNames.list()[j]
        par = s.paramNames.parWithName(nm)
        s._initParamRanges(s.index[nm])
        s.density1D[nm] = D[nm]
        return D[nm]

    s.get1DDensityGridData = grid
    if override:
        fr = [c.real('frac%d' % k, 0, 1) for k in range(nc)]
        s.max_frac_twotail = fr
    else:
        from scipy.stats import norm
        fr = [math.exp(-norm.ppf((1 - ct) / 2) ** 2 / 2) for ct in conts]
        if nc >= 2:
            fr[1] = 0.25
    m = s.getMargeStats()
    c.check(m.list() == names and [float(x) for x in m.limits] == conts, 'parameters and contours')
    for j, nm in enumerate(names):
        par = m.parWithName(nm)
        x = [r[j] for r in X]
        d = D[nm]
        mean = sum(a * b for a, b in zip(x, W)) / sum(W)
        c.check(abs(par.mean - mean) < 1e-9, 'mean', (par.mean, mean))
        sd = math.sqrt(sum(b * (a - mean) ** 2 for a, b in zip(x, W)) / sum(W))
        c.check(abs(par.err - sd) < 1e-9, 'standard deviation', (par.err, sd))
        c.check(len(par.limits) == nc, 'one limit for each contour')
        rmin, rmax = par.range_min, par.range_max
        if nm == 'a' and bot:
            c.check_eq(rmin, lo, 'range starts at the prior')
        if nm == 'a' and top:
            c.check_eq(rmax, hi, 'range ends at the prior')
        for k, ct in enumerate(conts):
            lim = par.limits[k]
            label = '%s, contour %d: ' % (nm, k)
            q = (1 - ct)
            none = nm == 'a' and bot and top and not force
            none = c.and_(none, d.P[0] > fr[k], d.P[-1] > fr[k])
            if bool(none):
                c.check(lim.limitTag() == 'none', label + 'no limit')
                c.check_eq(lim.lower, rmin, label + 'full range')
                c.check_eq(lim.upper, rmax, label + 'full range')
                continue
            ml, mu, fb, ft = d.lims[round(ct, 6)]
            tag = {(True, True): 'none', (True, False): '>', (False, True): '<', (False, False): 'two'}[fb, ft]
            c.check(lim.limitTag() == tag, label + 'kind of limit', (lim.limitTag(), tag))
            if fb and ft:
                want = (rmin, rmax)
            elif fb:
                want = (rmin, quantile(x, W, 1 - q))
            elif ft:
                want = (quantile(x, W, q), rmax)
            else:
                a, b = quantile(x, W, q / 2), quantile(x, W, 1 - q / 2)
                diff = d.b * (b - a)
                same = c.and_(diff < thr, -diff < thr)
                want = (c.ite(same, a, ml), c.ite(same, b, mu))
            c.check_eq(lim.lower, want[0], label + 'lower limit')
            c.check_eq(lim.upper, want[1], label + 'upper limit')


def sym(c, U, kind, free):
    """equal-tail and one-tail limits of samples with arbitrary values"""
    n = 5
    w = [1., 2., 1., 2., 1.]
    x = [0., 10., 4., 6., 5.]
    for i in range(free):
        v = c.real('x%d' % i, 1, 9)
        [bool(v < t) for t in (0, 10)]
        x[2 + i] = v
    s = U.mcsamples.MCSamples(samples=c.array([[v] for v in x]), weights=np.array(w), names=['a'], ranges={'a': (0, 10)},
                              settings={'contours': '0.4 0.7', 'ignore_rows': 0})
    fb, ft = kind & 1, kind & 2
    d = Dens([0., 1., 0.], {k: (0., 10., bool(fb), bool(ft)) for k in (0.4, 0.7)}, 0., 0.)

    def grid(j, *a, **kw):
        s._initParamRanges(0)
        s.density1D['a'] = d
        return d

    s.get1DDensityGridData = grid
    m = s.getMargeStats()
    N = sum(w)
    for k, ct in enumerate((0.4, 0.7)):
        lim = m.names[0].limits[k]
        tail = (1 - ct) / (1 if kind else 2)
        for v, use, lower in ((lim.lower, not fb, True), (lim.upper, not ft, False)):
            if not use:
                c.check_eq(v, 0 if lower else 10, 'prior boundary')
                continue
            c.check(c.or_([c.eq(v, t) for t in x]), 'limit is a sample')
            below = c.sum([c.ite(t < v, a, 0) for a, t in zip(w, x)])
            upto = c.sum([c.ite(c.le(t, v), a, 0) for a, t in zip(w, x)])
            f = tail if lower else 1 - tail
            c.check(c.and_(below <= N * f + 1e-9, upto >= N * f - 1e-9), 'weight below the limit', (below, upto, f))
        c.check(c.le(lim.lower, lim.upper), 'ordered')
    c.check_eq(m.names[0].mean, c.sum([a * b for a, b in zip(w, x)]) / N, 'mean')


DATA = {0: ([0., 1., 0.25, 0.5, 0.75, 0.125], [4., 1., 3., 2., 1., 4.]), 1: ([0., 1., 0.5, 0.75, 0.875, 0.25], [1., 3., 2., 3., 4., 1.]),
        2: ([0., 1., 0.5, 0.625, 0.375, 0.75], [0.25, 0.25, 5., 3., 2., 1.]), 3: ([0., 1., 0.5, 0.25, 0.75, 0.9375], [3., 3., 3., 3., 3., 1.])}


def real(c, U, data, force):
    """limits from real densities, for every threshold"""
    x, w = DATA[data]
    st = dict(contours='0.68 0.95', ignore_rows=0, fine_bins=17, num_bins=17, smooth_scale_1D=2., force_twotail=force,
              boundary_correction_order=1, credible_interval_threshold=0.05)
    s = U.mcsamples.MCSamples(samples=np.array([[a] for a in x]), weights=np.array(w), names=['a'], settings=st, ranges={'a': (0, 1)})
    thr = c.real('threshold', 0, 1)
    fr = c.reals('frac', 2, 0, 1)
    s.credible_interval_threshold = thr
    s.max_frac_twotail = fr
    m = s.getMargeStats()
    par = m.names[0]
    d = s.get1DDensity('a')
    for k, ct in enumerate((0.68, 0.95)):
        lim = par.limits[k]
        P0, P1 = float(d.P[0]), float(d.P[-1])
        ml, mu, fb, ft = d.getLimits(ct)
        none = c.and_(par.has_limits_bot and par.has_limits_top and not force, P0 > fr[k], P1 > fr[k])
        q = 1 - ct
        if bool(none):
            want, tag = (par.range_min, par.range_max), 'none'
        else:
            tag = {(True, True): 'none', (True, False): '>', (False, True): '<', (False, False): 'two'}[bool(fb), bool(ft)]
            if fb or ft:
                want = (par.range_min if fb else quantile(x, w, q), par.range_max if ft else quantile(x, w, 1 - q))
            else:
                a, b = quantile(x, w, q / 2), quantile(x, w, 1 - q / 2)
                gap = abs(float(d.Prob(b)) - float(d.Prob(a)))
                c.assume(c.or_(thr > gap + 1e-9, thr < gap - 1e-9))
                want = (a, b) if bool(thr > gap) else (ml, mu)
        c.check(lim.limitTag() == tag, 'kind of limit', (lim.limitTag(), tag))
        c.check(abs(float(lim.lower) - float(want[0])) < 1e-6 and abs(float(lim.upper) - float(want[1])) < 1e-6, 'limits',
                (float(lim.lower), float(lim.upper), [float(t) for t in want]))
        c.check(0 <= float(lim.lower) <= float(lim.upper) <= 1, 'inside the prior')


def scenarios(tier):
    th = tier == 'thorough'
    for bot in (True, False):
        for top in (True, False):
            for flags in range(4):
                yield Scenario(rule, dict(nc=2, bot=bot, top=top, force=False, flags=flags, override=True, other=flags == 1))
    for force in (True, False):
        yield Scenario(rule, dict(nc=2, bot=True, top=True, force=force, flags=0, override=False, other=False))
        yield Scenario(rule, dict(nc=1, bot=True, top=True, force=force, flags=1, override=True, other=False))
        yield Scenario(rule, dict(nc=1, bot=True, top=True, force=force, flags=0, override=False, other=True))
    if th:
        for flags in range(4):
            yield Scenario(rule, dict(nc=3, bot=True, top=True, force=False, flags=flags, override=True, other=True))
    for kind in (0, 1, 2):
        yield Scenario(sym, dict(kind=kind, free=2 if th else 1))
    yield Scenario(sym, dict(kind=0, free=2))
    for data in DATA:
        for force in (False, True):
            yield Scenario(real, dict(data=data, force=force))
