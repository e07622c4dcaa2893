"""C33 supernova likelihoods are those of the measured supernovae, marginalised over the absolute magnitude."""
import os
import numpy as np
from symx.run import Scenario

PRELOAD = ['planck.SN']
BOUNDS = '2-4 supernovae; every magnitude, distance, stretch, colour of the scenario and every alpha and beta within ranges; concrete redshifts, errors and ' \
         'covariance matrices; all column orders, sets of covariance matrices and sequences of two or three evaluations of the scenarios'
OUTSIDE = 'more supernovae; evaluations at alpha, beta closer than one part in 10^5 to the previous ones (which reuse its covariance); files with blank lines'
ASSUMPTIONS = ['the logarithms of distances are any numbers in the order of the distances']

N2 = {'mb': 'mag', 'x1': 'stretch', 'color': 'colour'}


def near(c, a, b, t):
    return c.and_(c.le(a - b, t), c.le(b - a, t))


def mat(n, k):
    return np.array([[(1. + 0.25 * i + 0.125 * k if i == j else 0.125 / (1 + k + i + j)) for j in range(n)] for i in range(n)]) * 0.0625


class Data:
    def __init__(self, c, n, covs, third=None, order=0, free=()):
        self.c, self.n, self.covs, self.third = c, n, covs, third
        v = lambda nm, i, lo, hi, x: c.real('%s%d' % (nm, i), lo, hi) if nm in free and i == 1 else x
        self.col = {
            'zcmb': [0.25, 0.5, 0.125, 1.][:n], 'zhel': [0.3125, 0.4375, 0.125, 0.9375][:n], 'dz': [0.] * n,
            'mb': [v('mb', i, 18, 25, 20. + 1.5 * i) for i in range(n)], 'dmb': [0.125, 0.1875, 0.25, 0.5][:n],
            'x1': [v('x1', i, -2, 2, 0.5 - i) for i in range(n)], 'dx1': [0.25, 0.5, 0.125, 1.][:n],
            'color': [v('color', i, -1, 1, 0.25 * i - 0.125) for i in range(n)], 'dcolor': [0.0625, 0.125, 0.0625, 0.25][:n],
            'cov_m_s': [0.001 * (i + 1) for i in range(n)], 'cov_m_c': [0.002 - 0.001 * i for i in range(n)], 'cov_s_c': [-0.0005 * (i + 1) for i in range(n)]}
        if third:
            self.col['3rdvar'] = third
            self.col['d3rdvar'] = [0.1] * n
        names = list(self.col)
        self.order = names if order == 0 else names[::-1] if order == 1 else names[5:] + names[:5]

    def write(self, d, extra=()):
        c = self.c
        with open(os.path.join(d, 'sn.txt'), 'w') as f:
            f.write('#name ' + ' '.join(self.order) + '\n')
            for i in range(self.n):
                f.write('sn%d ' % i + ' '.join(c.put(self.col[k][i], 12) for k in self.order) + '\n')
        ini = ['name = test', 'data_file = data/sn.txt', 'pecz = 0.001', 'twoscriptmfit = %s' % ('T' if self.third else 'F'), 'scriptmcut = 10.0',
               'absdist_file = F']
        for k, nm in enumerate(('mag', 'stretch', 'colour', 'mag_stretch', 'mag_colour', 'stretch_colour')):
            has = nm in self.covs
            ini.append('has_%s_covmat = %s' % (nm, 'FT'[has]))
            if has:
                ini.append('%s_covmat_file = data/%s.dat' % (nm, nm))
                M = self.cov(nm)
                with open(os.path.join(d, nm + '.dat'), 'w') as f:
                    if k % 2 == 0:
                        f.write('%d\n' % self.n)
                        f.write('\n'.join('%r' % x for x in M.reshape(-1).tolist()) + '\n')
                    else:
                        f.write('\n'.join(' '.join('%r' % x for x in r) for r in M.tolist()) + '\n')
        ini += list(extra)
        p = os.path.join(d, 'sn.dataset')
        with open(p, 'w') as f:
            f.write('\n'.join(ini) + '\n')
        return p

    def cov(self, nm):
        k = ('mag', 'stretch', 'colour', 'mag_stretch', 'mag_colour', 'stretch_colour').index(nm)
        M = mat(self.n, k)
        return M if k < 3 else M * 0.0625

    def pre(self, i):
        z = self.col['zcmb'][i]
        return self.col['dmb'][i] ** 2 + 25. / np.log(10.) ** 2 * 0.001 ** 2 * ((1 + z) / (z * (1 + 0.5 * z))) ** 2

    def ab(self):
        return list(self.covs) != ['mag']

    def full(self, a, b):
        """covariance of the corrected magnitudes"""
        n = self.n
        C = [[0.] * n for _ in range(n)]
        f = {'mag': 1.}
        if self.ab():
            f.update(stretch=a * a, colour=b * b, mag_stretch=2 * a, mag_colour=-2 * b, stretch_colour=-2 * a * b)
        for nm in self.covs:
            M = self.cov(nm)
            for i in range(n):
                for j in range(n):
                    C[i][j] = C[i][j] + f[nm] * float(M[i, j])
        for i in range(n):
            x = self.pre(i)
            if self.ab():
                g = lambda k: self.col[k][i]
                x = x + a * a * g('dx1') ** 2 + b * b * g('dcolor') ** 2 + 2 * a * g('cov_m_s') - 2 * b * g('cov_m_c') - 2 * a * b * g('cov_s_c')
            C[i][i] = C[i][i] + x
        return C

    def mags(self, a, b):
        if not self.ab():
            return self.col['mb']
        return [m + a * s - b * k for m, s, k in zip(self.col['mb'], self.col['x1'], self.col['color'])]

    def lums(self, D):
        c = self.c
        r = []
        for i in range(self.n):
            x = (1 + self.col['zhel'][i]) * (1 + self.col['zcmb'][i]) * D[i]
            r.append(5 * c.log10(x) if hasattr(c, 'log10') else x)
        return r


def inv(c, C):
    n = len(C)
    if all(isinstance(x, float) for r in C for x in r):
        return np.linalg.inv(np.array(C)).tolist()
    assert n == 2
    d = C[0][0] * C[1][1] - C[0][1] * C[1][0]
    return [[C[1][1] / d, -C[0][1] / d], [-C[1][0] / d, C[0][0] / d]]


def quad(c, P, x, y):
    return c.sum([x[i] * P[i][j] * y[j] for i in range(len(x)) for j in range(len(y))])


def marged(c, P, x, A1, A2):
    """quadratic form marginalised over one or two magnitudes"""
    A = quad(c, P, x, x)
    if A2 is None:
        E = quad(c, P, A1, A1)
        B = quad(c, P, x, A1)
        return A - B * B / E, [E]
    B, C, D, E, F = quad(c, P, x, A1), quad(c, P, x, A2), quad(c, P, A1, A2), quad(c, P, A1, A1), quad(c, P, A2, A2)
    det = E * F - D * D
    return A - (B * B * F - 2 * B * C * D + C * C * E) / det, [E, det / E]


def split(D):
    n = D.n
    if not D.third:
        return [1.] * n, None
    lo = [1. if t <= 10 else 0. for t in D.third]
    hi = [1. - x for x in lo]
    if not any(lo) or not any(hi):
        return [1.] * n, None
    return lo, hi


def half_log(c, xs):
    """log of normalisations / 2"""
    t = 0.
    for x in xs:
        t = t + (float(np.log(x / (2 * np.pi))) if isinstance(x, float) else c.log(x / (2 * np.pi)))
    return t


def plain(c, U, n, order, third, free, dist):
    """one covariance matrix: no dependence on stretch and colour"""
    d = c.scratch
    D = Data(c, n, ['mag'], third, order, free)
    L = U.SN.SN_likelihood(D.write(d), silent=True)
    da = [float(2 ** (i + 3)) for i in range(n)]
    lum = [5 * float(np.log10((1 + D.col['zhel'][i]) * (1 + D.col['zcmb'][i]) * da[i])) for i in range(n)]
    got = L.loglike(c.array(da))
    x = [m - l for m, l in zip(D.col['mb'], lum)]
    P = inv(c, D.full(0, 0))
    q, norm = marged(c, P, x, *split(D))
    want = (q + half_log(c, norm)) / 2
    c.check(near(c, got, want, 1e-6), 'likelihood', (got, want))
    c.check(near(c, L.loglike(c.array(da)), want, 1e-6), 'again the same')
    c.check_all_eq(list(L.get_redshifts()), D.col['zcmb'], 'redshifts')
    c.check(list(L.names) == ['sn%d' % i for i in range(n)], 'names')
    # absolute magnitude drops out
    s = c.real('shift', -3, 3)
    lo, hi = split(D)
    M = [m + s * l for m, l in zip([20., 21.5, 23., 24.5], lo)]
    L.mag = c.array([20., 21.5, 23., 24.5][:n])
    want = L.loglike(c.array(da))
    L.mag = c.array(M)
    c.check(near(c, L.loglike(c.array(da)), want, 1e-5), 'no dependence on the absolute magnitude')


def distances(c, U, third):
    """only the ratios of distances matter, through their logarithms"""
    d = c.scratch
    n = 3
    D = Data(c, n, ['mag'], third)
    L = U.SN.SN_likelihood(D.write(d), silent=True)
    e = [c.real('mu%d' % i, -3, 3) for i in range(n)]
    got = []
    # luminosity distances enter as given
    base = [0., 1., 2.]
    for f in (0., c.real('f', -1, 1)):
        got.append(L.alpha_beta_like(c.array([a + b + f for a, b in zip(e, base)])))
    c.check(near(c, got[0], got[1], 1e-5), 'only ratios of distances matter')
    P = inv(c, D.full(0, 0))
    q, norm = marged(c, P, [m - a - b for m, a, b in zip(D.col['mb'], e, base)], *split(D))
    c.check(near(c, got[0], (q + half_log(c, norm)) / 2, 1e-6), 'likelihood')
    c.check(isinstance(c.raises(lambda: L.loglike(c.array([1., 2.])))[1], AssertionError), 'wrong number of distances refused')


def params(c, U, covs, order, free, ab, names):
    """standardised magnitudes"""
    d = c.scratch
    D = Data(c, 2 if ab else 3, covs, None, order, free)
    L = U.SN.SN_likelihood(D.write(d), silent=True, alpha_beta_names=names)
    a = c.real('alpha', 0.0625, 0.25) if 'a' in ab else 0.125
    b = c.real('beta', 2, 4) if 'b' in ab else 3.
    da = [8., 16., 4.][:D.n]
    lum = [5 * float(np.log10((1 + D.col['zhel'][i]) * (1 + D.col['zcmb'][i]) * da[i])) for i in range(D.n)]
    given = {names[0]: a, names[1]: b, 'x': 1.}
    got = L.loglike(c.array(da), given)
    P = inv(c, D.full(a, b))
    x = [m - l for m, l in zip(D.mags(a, b), lum)]
    q, norm = marged(c, P, x, [1.] * D.n, None)
    if ab:
        c.check(near(c, 2 * got - L_norm(c, L), q, 1e-5), 'chi-squared')
        E = norm[0]
        c.check(near(c, c.sum([c.sum(list(r)) for r in L.invcov]), E, 1e-5), 'normalisation')
    else:
        c.check(near(c, got, (q + half_log(c, norm)) / 2, 1e-6), 'likelihood', (got,))
    c.check(sorted(given) == sorted([names[0], names[1], 'x']), 'parameters of the caller unchanged')


def L_norm(c, L):
    return c.log(c.sum([x for r in L.invcov for x in r]) / (2 * np.pi))


def history(c, U, covs, k):
    """every evaluation is that of a fresh likelihood, whatever was evaluated before"""
    d = c.scratch
    D = Data(c, 2, covs, None, 0, ['mb'])
    p = D.write(d)
    pts = [(0.125, 3.), (0.25, 3.), (0.125, 2.), (0.125, 3.), (0.25, 1.5), (0.375, 2.75), (2., 0.1875)]
    mk = lambda: U.SN.SN_likelihood(p, silent=True)
    L = mk()
    lum = c.array([17., 18.])
    for i in k:
        got = L.alpha_beta_like(lum, *pts[i])
        want = mk().alpha_beta_like(lum, *pts[i])
        P = inv(c, D.full(*pts[i]))
        q, norm = marged(c, P, [m - l for m, l in zip(D.mags(*pts[i]), [17., 18.])], [1.] * 2, None)
        c.check(near(c, got, want, 1e-7), 'the same as alone')
        c.check(near(c, got, (q + half_log(c, norm)) / 2, 1e-6), 'likelihood')


def grid(c, U, steps, pre, centre, **names):
    """marginalised over a disc of alpha and beta"""
    d = c.scratch
    D = Data(c, 2, ['mag', 'stretch', 'mag_colour'], None, 0, [])
    p = D.write(d)
    mp = {'marge_steps': steps, 'alpha_centre': centre[0], 'beta_centre': centre[1], 'step_width_alpha': 0.03125, 'step_width_beta': 0.25}
    L = U.SN.SN_likelihood(p, silent=True, marginalize=True, marginalize_params=dict(mp), precompute_covmats=pre, **names)
    pts = [(centre[0] + i * 0.03125, centre[1] + j * 0.25) for i in range(-steps, steps + 1) for j in range(-steps, steps + 1) if i * i + j * j <= steps * steps]
    c.check(sorted(zip([float(x) for x in L.alpha_grid], [float(x) for x in L.beta_grid])) == sorted(pts), 'points of the disc')
    t = c.real('t', 15, 20)
    lum = [17., 18.]
    da = [8., 16.]
    L.mag = c.array([D.col['mb'][0], t])
    D.col['mb'] = [D.col['mb'][0], t]
    lum = [5 * float(np.log10((1 + D.col['zhel'][i]) * (1 + D.col['zcmb'][i]) * da[i])) for i in range(2)]
    got = L.loglike(c.array(da))
    vals = []
    for a, b in pts:
        q, norm = marged(c, inv(c, D.full(a, b)), [m - l for m, l in zip(D.mags(a, b), lum)], [1.] * 2, None)
        vals.append((q + half_log(c, norm)) / 2)
    c.check_all_near(list(L.marge_grid), vals, 'likelihood at each point')
    best = c.min(list(L.marge_grid))
    tot = c.sum([c.exp(-v + best) for v in L.marge_grid])
    c.check(near(c, got, best - c.log(tot * 0.03125 * 0.25), 1e-6), 'integral over the grid')


def scenarios(tier):
    th = tier == 'thorough'
    for order in (0, 1, 2):
        yield Scenario(plain, dict(n=3, order=order, third=None, free=['mb'], dist=0))
        yield Scenario(plain, dict(n=3 + th, order=order, third=[9., 11., 10., 10.5][:3 + th], free=['mb'], dist=0))
    for third in ([11., 12., 13.], [9., 8., 10.]):
        yield Scenario(plain, dict(n=3, order=0, third=third, free=['mb'], dist=0))
    for third in (None, [9., 11., 10.]):
        yield Scenario(distances, dict(third=third))
    every = ['mag', 'stretch', 'colour', 'mag_stretch', 'mag_colour', 'stretch_colour']
    for covs in [every, ['mag', 'stretch'], ['stretch', 'colour'], ['mag_stretch', 'colour'], ['mag', 'stretch_colour'], ['mag', 'mag_colour']]:
        for free in (['mb'], ['x1'], ['color']):
            yield Scenario(params, dict(covs=covs, order=len(covs) % 3, free=free, ab='', names=['alpha', 'beta'] if len(covs) % 2 else ['aJLA', 'bJLA']))
        for ab in 'a', 'b':
            yield Scenario(params, dict(covs=covs, order=0, free=[], ab=ab, names=['beta', 'alpha']))
    for k in ([0, 1, 2], [1, 1, 0], [0, 2, 0], [2, 1, 2], [0, 4, 0], [0, 5, 0], [0, 6]):
        yield Scenario(history, dict(covs=every if k[0] else ['mag', 'colour'], k=k))
    for pre in (True, False):
        yield Scenario(grid, dict(steps=1, pre=pre, centre=(0.125, 3.)))
        if pre and not th:
            yield Scenario(grid, dict(steps=2, pre=pre, centre=(0.125, 3.), alpha_beta_names=None))
        if th:
            yield Scenario(grid, dict(steps=2, pre=pre, centre=(0.25, 2.), alpha_beta_names=None))
