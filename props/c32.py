"""C32 CMB bandpower likelihoods are those of the data set's spectra, windows and covariance."""
import itertools
import os
import numpy as np
from symx.run import Scenario

PRELOAD = ['CMBlikes']
BOUNDS = '1-3 maps of the fields T, E, B, P, 2-3 bins or multipoles out of 3, multipoles 2-6; every theory spectrum value, every measured bandpower, noise and ' \
         'window value of the scenario within ranges, every calibration; concrete covariance matrices with distinct entries; all selections of fields, ' \
         'maps, bins, column orders and name orders of the scenarios'
OUTSIDE = 'Hamimeche-Lewis transformation of correlated maps; foreground models (added in subclasses); plots; theory spectra computed by CAMB'


def tab(c, d, name, rows, header=None):
    c.table(os.path.join(d, name), rows, header=header)


def swap(n, sep):
    if sep:
        a, b = n.split(sep)
        return b + sep + a
    return n[::-1]


def maps_of(n, sep):
    return tuple(n.split(sep)) if sep else (n[0], n[1])


def cov_of(n):
    """a symmetric positive matrix with distinct entries"""
    return [[(4. + i if i == j else 1. / (2 + i + j + abs(i - j))) for j in range(n)] for i in range(n)]


def dataset(c, d, S):
    """writes the data set; S: description.  returns the path"""
    ini = ['like_approx = %s' % S.get('like', 'gaussian'), 'cl_lmin = %d' % S['lmin'], 'cl_lmax = %d' % S['lmax']]
    if S.get('maps'):
        ini += ['map_names = ' + ' '.join(m for m, _ in S['maps']), 'map_fields = ' + ' '.join(f for _, f in S['maps'])]
    for k in ('fields_use', 'maps_use', 'maps_required', 'fields_required'):
        if S.get(k):
            ini.append('%s = %s' % (k, S[k]))
    if S.get('binned', True):
        ini += ['nbins = %d' % S['nbins']]
    else:
        ini += ['binned = F', 'fullsky_exact_fksy = %s' % S['fsky']]
    for k in ('use_min', 'use_max', 'covmat_scale', 'aberration_coeff', 'log_calibration_prior'):
        if k in S:
            ini.append('%s = %s' % (k, S[k]))
    first = 1 if S.get('binned', True) else S['lmin']
    for stem, inhead in (('cl_hat', True), ('cl_noise', False), ('cl_fiducial', False)):
        if stem in S:
            cols, rows = S[stem]
            tab(c, d, stem + '.dat', [[first + i] + r for i, r in enumerate(rows)], ' L ' + ' '.join(cols) if inhead else None)
            ini.append('%s_file = %s.dat' % (stem, stem))
            if not inhead:
                ini.append('%s_order = %s' % (stem, ' '.join(cols)))
    if 'includes' in S:
        ini.append('cl_hat_includes_noise = %s' % S['includes'])
    if 'fid_includes' in S:
        ini.append('cl_fiducial_includes_noise = %s' % S['fid_includes'])
    for stem in ('bin_window', 'linear_correction_bin_window'):
        if stem in S:
            cin, cout, W = S[stem]
            os.mkdir(os.path.join(d, stem))
            for b, w in enumerate(W):
                tab(c, d, '%s/w%d.dat' % (stem, b + 1), w)
            ini += ['%s_files = %s/w%%u.dat' % (stem, stem), '%s_in_order = %s' % (stem, ' '.join(cin))]
            if cout:
                ini.append('%s_out_order = %s' % (stem, ' '.join(cout)))
    if 'lin_fid' in S:
        cols, rows = S['lin_fid']
        tab(c, d, 'fid.dat', [[first + i] + r for i, r in enumerate(rows)], ' L ' + ' '.join(cols))
        ini.append('linear_correction_fiducial_file = fid.dat')
    if 'covmat_cl' in S:
        ini += ['covmat_cl = ' + ' '.join(S['covmat_cl']), 'covmat_fiducial = cov.dat']
        np.savetxt(os.path.join(d, 'cov.dat'), np.array(cov_of(S['nbins'] * len(S['covmat_cl']))))
    if S.get('calib'):
        with open(os.path.join(d, 'cal.paramnames'), 'w') as f:
            f.write('other\tO\ncalPlanck\ty_{cal}\n' if S['calib'] == 'named' else 'calPlanck\ty_{cal}\n')
        if S['calib'] == 'named':
            ini += ['nuisance_params = cal.paramnames', 'calibration_paramname = calPlanck']
        else:
            ini += ['calibration_param = cal.paramnames']
    p = os.path.join(d, 'x.dataset')
    with open(p, 'w') as f:
        f.write('\n'.join(ini) + '\n')
    return p


class Oracle:
    def __init__(self, c, S, theory, cal=None):
        self.c, self.S, self.theory, self.cal = c, S, theory, cal
        self.sep = 'x' if S.get('maps') else ''
        self.field = dict(S['maps']) if S.get('maps') else {f: f for f in 'TEBP'}
        self.names = [m for m, _ in S['maps']] if S.get('maps') else list('TEBP')
        if S.get('maps_use'):
            self.used = [m for m in self.names if m in S['maps_use'].split()]
        else:
            self.used = [m for m in self.names if not S.get('fields_use') or self.field[m] in S['fields_use'].split()]
        self.lo = S.get('use_min', 1 if S.get('binned', True) else S['lmin'])
        self.hi = S.get('use_max', S['nbins'] if S.get('binned', True) else S['lmax'])

    def spec(self, a, b):
        """theory of the spectrum of two maps for each L of the range"""
        f, g = self.field[a], self.field[b]
        t = self.theory.get(f + g, self.theory.get(g + f))
        Ls = range(self.S['lmin'], self.S['lmax'] + 1)
        if t is None:
            return {L: 0. for L in Ls}
        r = {L: t[L] for L in Ls}
        if 'P' not in (f, g):
            ab = self.S.get('aberration_coeff')
            if ab:
                n = {L: r[L] / (L * (L + 1.)) for L in Ls}
                lo, hi = self.S['lmin'], self.S['lmax']
                der = {L: (n[L + 1] - n[L - 1]) / 2 for L in range(lo + 1, hi)}
                der[lo], der[hi] = der[lo + 1], der[hi - 1]
                r = {L: r[L] + ab * der[L] * L * L * (L + 1.) for L in Ls}
            if self.cal is not None:
                r = {L: r[L] / (self.cal * self.cal) for L in Ls}
        return r

    def col(self, stem, name, b):
        if stem not in self.S:
            return 0.
        cols, rows = self.S[stem]
        first = 1 if self.S.get('binned', True) else self.S['lmin']
        for n in (name, swap(name, self.sep)):
            if n in cols:
                return rows[b - first][cols.index(n)]
        return 0.

    def binned(self, stem, name, b):
        cin, cout, W = self.S[stem]
        cout = cout or cin
        t = 0.
        for k, (i, o) in enumerate(zip(cin, cout)):
            if o in (name, swap(name, self.sep)):
                s = self.spec(*maps_of(i, self.sep))
                for row in W[b - 1]:
                    if int(row[0]) in s:
                        t = t + row[1 + k] * s[int(row[0])]
        return t

    def theory_of(self, name, b):
        t = self.binned('bin_window', name, b)
        if 'linear_correction_bin_window' in self.S:
            t = t + self.binned('linear_correction_bin_window', name, b) - self.col('lin_fid', name, b)
        return t

    def kept(self):
        """(bin, position of the spectrum in the covariance, name)"""
        return [(b, k, n) for b in range(self.lo, self.hi + 1) for k, n in enumerate(self.S['covmat_cl'])
                if all(m in self.used for m in maps_of(n, self.sep))]

    def quad(self, X):
        K = self.kept()
        full = np.array(cov_of(self.S['nbins'] * len(self.S['covmat_cl']))) * self.S.get('covmat_scale', 1.)
        ix = [(b - 1) * len(self.S['covmat_cl']) + k for b, k, _ in K]
        inv = np.linalg.inv(full[np.ix_(ix, ix)])
        return self.c.sum([X[i] * X[j] * float(inv[i, j]) for i in range(len(K)) for j in range(len(K))]), len(K)

    def gaussian(self):
        X = []
        for b, k, n in self.kept():
            t, h, nz = self.theory_of(n, b), self.col('cl_hat', n, b), self.col('cl_noise', n, b)
            X.append(t - (h - nz if self.S.get('includes') == 'T' else h))
        return self.quad(X)[0], len(X)


def theory_values(c, spectra, lmax, sym, lo=2):
    """{name: {L: value}}"""
    T = {}
    for k, s in enumerate(spectra):
        T[s] = {L: 3. + 2 * k + ((L * 5 + k * 3) % 7) / 4. for L in range(lo, lmax + 1)}
    for s, L in sym:
        T[s][L] = c.real('D_%s_%d' % (s, L), 0.5, 20)
    return T


def cls_of(c, U, d, T, how, lmax, lo=2):
    names = list(T)
    rows = [[L] + [T[s][L] for s in names] for L in range(lo, lmax + 1)]
    f = os.path.join(d, 'theory.dat')
    if how == 'header':
        c.table(f, rows, header=' L ' + ' '.join(names))
        return U.CMBlikes.ClsArray(f)
    if how == 'cols':
        c.table(f, rows)
        return U.CMBlikes.ClsArray(f, cols='L ' + ' '.join(names))
    # in two files
    h = max(1, len(names) // 2)
    c.table(f, [r[:h + 1] for r in rows], header=' L ' + ' '.join(names[:h]))
    g = os.path.join(d, 'theory2.dat')
    c.table(g, [[r[0]] + r[h + 1:] for r in rows], header=' L ' + ' '.join(names[h:]))
    C = U.CMBlikes.ClsArray(f)
    C.add_from_file(g)
    return C


def windows(nbins, Ls, ncol, sym=None, extra=False):
    W = [[[L] + [((b * 3 + L * 2 + k * 5) % 5) / 4. for k in range(ncol)] for L in Ls] for b in range(nbins)]
    if extra:
        W = [[[max(Ls) + 1] + [0.] * ncol] + w for w in W]
    for (b, i, k), v in (sym or {}).items():
        W[b][i][1 + k] = v
    return W


def gauss(c, U, kind, sym):
    d = c.scratch
    ny = None
    S = {'lmin': 2, 'lmax': 5, 'nbins': 2}
    Tsym, how, params = [], 'header', {}
    spectra, tmax = ['TT', 'EE', 'TE', 'BB', 'PP'], 6
    v = lambda n, x: c.real(n, -5, 5) if n in sym else x
    if kind == 'single':
        S.update(fields_use='T', covmat_cl=['TT'], cl_hat=(['TT'], [[v('h1', 2.)], [v('h2', 3.)]]))
        w = windows(2, range(2, 6), 1, {(1, 2, 0): v('w', 0.7)}, extra=True)
        S['bin_window'] = (['TT'], None, w)
        Tsym = [('TT', 3), ('TT', 5)] if 'D' in sym else []
    elif kind == 'lens':
        S.update(fields_use='P', covmat_cl=['PP'], nbins=3, use_min=2, use_max=3, covmat_scale=0.5,
                 cl_hat=(['L_av', 'PP', 'Ahat'], [[10., 9., 1.], [20., v('h1', 2.), 1.], [30., v('h2', 3.), 1.]]))
        S['bin_window'] = (['PP'], ['PP'], windows(3, range(2, 6), 1, {(1, 1, 0): v('w', 0.7)}))
        S['calib'] = 'file'
        params = {'calPlanck': c.real('cal', 0.9, 1.1)}
        Tsym = [('PP', 3), ('TT', 3)] if 'D' in sym else []
        how = 'cols'
    elif kind == 'lenscorr':
        # corrections depend on spectra that are not used
        S.update(fields_use='P', fields_required='T E P', covmat_cl=['PP'], cl_hat=(['PP'], [[v('h1', 2.)], [v('h2', 3.)]]))
        S['bin_window'] = (['PP'], ['PP'], windows(2, range(2, 6), 1))
        S['linear_correction_bin_window'] = (['TT', 'ET', 'EE', 'PP'], ['PP'] * 4, windows(2, range(2, 6), 4, {(0, 1, 1): v('w', 0.7)}))
        S['lin_fid'] = (['PP'], [[v('f1', 1.)], [2.]])
        Tsym = [('TT', 3), ('TE', 4), ('EE', 2)] if 'D' in sym else []
        how = 'two'
        spectra = ['TT', 'EE', 'TE', 'PP']
    elif kind in ('TE', 'TEnoise', 'TEpart'):
        S.update(fields_use='T E', covmat_cl=['TE', 'BB', 'TT', 'EE'] if kind != 'TEpart' else ['ET', 'TT'],
                 cl_hat=(['EE', 'BB', 'TE', 'TT'], [[1., 9., v('h1', 2.), 4.], [3., 8., 1., v('h2', 3.)]]))
        S['bin_window'] = (['TE', 'TT', 'EE'], ['ET', 'TT', 'EE'], windows(2, range(2, 6), 3, {(0, 1, 0): v('w', 0.7)})) if kind != 'TEpart' else \
            (['TT', 'TE'], None, windows(2, range(2, 6), 2, {(0, 1, 0): v('w', 0.7)}))
        if kind == 'TEnoise':
            S.update(includes='T', cl_noise=(['TT', 'EE'], [[v('n1', 0.5), 0.25], [0.125, v('n2', 0.75)]]))
        Tsym = [('TE', 3), ('TT', 2), ('EE', 5)] if 'D' in sym else []
    elif kind in ('maps', 'mapsuse', 'mapsreq'):
        S.update(maps=[('AT', 'T'), ('AE', 'E'), ('BT', 'T')], covmat_cl=['BTxAT', 'AExAT', 'ATxAT', 'BTxBT'],
                 cl_hat=(['ATxBT', 'ATxAT', 'AExAT', 'BTxBT', 'BTxAE'], [[v('h1', 2.), 1., 3., 4., 5.], [6., 7., v('h2', 3.), 9., 8.]]))
        S['bin_window'] = (['ATxAT', 'BTxAT', 'BTxBT', 'AExAT'], None, windows(2, range(2, 6), 4, {(0, 1, 1): v('w', 0.7)}))
        if kind == 'mapsuse':
            S['maps_use'] = 'BT AT'
        if kind == 'mapsreq':
            S['maps_use'] = 'BT'
            S['maps_required'] = 'AE'
            S['bin_window'] = (['BTxBT', 'AExAE', 'BTxAE'], ['BTxBT'] * 3, windows(2, range(2, 6), 3, {(0, 1, 1): v('w', 0.7)}))
        S['calib'] = 'named'
        params = {'calPlanck': c.real('cal', 0.9, 1.1) if 'cal' in sym else 1.25, 'other': 7.}
        Tsym = [('TT', 3), ('TE', 4), ('EE', 2)] if 'D' in sym else []
    elif kind == 'aberr':
        S.update(fields_use='T E P', aberration_coeff=0.25, covmat_cl=['TT', 'PP', 'TE', 'EE'],
                 cl_hat=(['TT', 'PP', 'TE', 'EE'], [[1., v('h1', 2.), 3., 4.], [3., 8., 1., v('h2', 3.)]]))
        S['bin_window'] = (['TE', 'TT', 'EE', 'PP'], None, windows(2, range(2, 6), 4))
        Tsym = [('TE', 3), ('TT', 2), ('EE', 5), ('PP', 4)] if 'D' in sym else []
    T = theory_values(c, spectra, tmax, Tsym)
    p = dataset(c, d, S)
    C = cls_of(c, U, d, T, how, tmax)
    L = U.CMBlikes.DatasetLikelihood(p)
    O = Oracle(c, S, T, params.get('calPlanck'))
    want, n = O.gaussian()
    before = dict(params)
    got = L.chi_squared(C, params)
    c.check(near(c, got, want, 1e-6), 'chi-squared of %d values' % n, (got, want))
    again, binned = L.chi_squared(C, params, return_binned_theory=True)
    c.check(near(c, again, want, 1e-6), 'the same when computed again', (again, want))
    c.check(list(params) == list(before), 'parameters of the caller unchanged')
    # binned theory of each used pair of maps
    ix = 0
    for i, a in enumerate(O.used):
        for b in O.used[:i + 1]:
            for k, bin in enumerate(range(O.lo, O.hi + 1)):
                c.check(near(c, binned[k, ix], O.theory_of(a + O.sep + b, bin), 1e-6), 'binned theory %s%s' % (a, b))
            ix += 1
    for s in T:
        for key in (s, s[::-1]):
            arr = C.get([list('TEBP').index(x) for x in key])
            c.check_all_near([arr[l] for l in range(2, tmax + 1)], [T[s][l] for l in range(2, tmax + 1)], 'theory spectra')
    # measured values of any column of the file
    cols, rows = S['cl_hat']
    for k, n in enumerate(cols):
        c.check_all_near(list(L.get_full_bandpower_column(n)), [r[k] for r in rows], 'column of the bandpowers')


def near(c, a, b, t):
    return c.and_(c.le(a - b, t), c.le(b - a, t))


def refuse(c, U, kind):
    """wrong data sets are refused"""
    d = c.scratch
    S = {'lmin': 2, 'lmax': 5, 'nbins': 2, 'fields_use': 'T', 'covmat_cl': ['TT'], 'cl_hat': (['TT'], [[c.real('h', 1, 2)], [3.]])}
    S['bin_window'] = (['TT'], None, windows(2, range(2, 6), 1))
    if kind == 'shortdata':
        S['cl_hat'] = (['TT'], [[c.real('h', 1, 2)]] * 1 + [[1.]])
        S['nbins'] = 3
        S['bin_window'] = (['TT'], None, windows(3, range(2, 6), 1))
    if kind == 'orders':
        S['bin_window'] = (['TT'], ['TT', 'TT'], windows(2, range(2, 6), 1))
    if kind == 'badmap':
        S.update(maps=[('A', 'T'), ('B', 'T')], maps_use='A C', covmat_cl=['AxA'], cl_hat=(['AxA'], [[c.real('h', 1, 2)], [3.]]))
        S['bin_window'] = (['AxA'], None, windows(2, range(2, 6), 1))
    if kind == 'nofields':
        S.pop('fields_use')
    p = dataset(c, d, S)
    r, e = c.raises(lambda: U.CMBlikes.DatasetLikelihood(p)) if kind != 'shorttheory' else (None, None)
    if kind == 'shorttheory':
        L = U.CMBlikes.DatasetLikelihood(p)
        C = cls_of(c, U, d, theory_values(c, ['TT'], 4, []), 'header', 4)
        r, e = c.raises(lambda: L.chi_squared(C))
        c.check(e is not None, 'theory that does not reach the largest multipole is refused')
    else:
        c.check(e is not None, 'wrong data set refused: %s' % kind)


def override(c, U, which):
    """settings given by the caller replace those of the data set"""
    d = c.scratch
    S = {'lmin': 2, 'lmax': 5, 'nbins': 3, 'fields_use': 'T', 'covmat_cl': ['TT'], 'cl_hat': (['TT'], [[c.real('h%d' % i, 1, 4)] for i in range(3)])}
    S['bin_window'] = (['TT'], None, windows(3, range(2, 6), 1))
    p = dataset(c, d, S)
    T = theory_values(c, ['TT'], 6, [])
    C = cls_of(c, U, d, T, 'header', 6)
    o = {'min': {'use_min': 2}, 'max': {'use_max': 2}, 'both': {'use_min': 2, 'use_max': 2}, 'none': {}}[which]
    given = {k: str(x) for k, x in o.items()}
    L = U.CMBlikes.DatasetLikelihood(p, given)
    S.update(o)
    c.check(near(c, L.chi_squared(C), Oracle(c, S, T).gaussian()[0], 1e-6), 'bins asked for')
    c.check(given == {k: str(x) for k, x in o.items()}, 'settings of the caller unchanged')
    S.pop('use_min', 0), S.pop('use_max', 0)
    L = U.CMBlikes.DatasetLikelihood(p)
    c.check(near(c, L.chi_squared(C), Oracle(c, S, T).gaussian()[0], 1e-6), 'other data sets keep their own')


def hl_x(c, r):
    c.assume(c.and_(c.le(-20, c.log(r)), c.le(c.log(r), 20)))  # true of every ratio in range
    s = c.sqrt(2 * c.max([0, r - c.log(r) - 1]))
    if r > 1:
        return s
    return -s if r < 1 else 0.


def hl(c, U, nf, inc, free):
    """Hamimeche-Lewis likelihood of one map, or of maps that are uncorrelated in theory and data"""
    c.exact_logs()
    d = c.scratch
    v = lambda n, x: c.real(n, 1, 8) if n in free else x
    names = ['TT', 'BB'][:nf]
    S = {'like': 'HL', 'lmin': 2, 'lmax': 4, 'nbins': 2, 'fields_use': 'T B'[:2 * nf - 1], 'covmat_cl': names,
         'cl_hat': (names, [[v('h0', 3.), 5.][:nf], [4., v('h1', 2.)][:nf]]), 'cl_fiducial': (names, [[2.25, 4.][:nf], [6.25, 1.][:nf]]),
         'cl_noise': (names, [[v('n0', 1.), 1.][:nf], [0.5, v('n1', 2.)][:nf]]), 'includes': 'TF'[inc & 1], 'fid_includes': 'FT'[inc >> 1]}
    S['bin_window'] = (names, None, windows(2, range(2, 5), nf))
    for b in S['bin_window'][2]:
        for r in b:
            r[1:] = [x + 0.25 for x in r[1:]]
    T = theory_values(c, names, 5, [('TT', 3)] if 'D' in free else [])
    if nf == 2:
        # theory with noise has exact roots, so the only rounding is in the last step
        O = Oracle(c, S, T)
        S['cl_noise'] = (names, [[q - O.theory_of(n, b + 1) for n, q in zip(names, r)] for b, r in enumerate(([4., 16.], [16., 4.]))])
    elif not inc >> 1:
        # fiducial matrix with the noise: needs a number
        S['cl_noise'] = (names, [[1.75], [0.]])
    if nf == 2 and inc & 1:
        S['cl_hat'] = (names, [[q - x for q, x in zip(f, n)] for f, n in zip(S['cl_hat'][1], S['cl_noise'][1])])
    if nf == 2 and not inc >> 1:
        S['cl_fiducial'] = (names, [[q - x for q, x in zip(f, n)] for f, n in zip(S['cl_fiducial'][1], S['cl_noise'][1])])
    C = cls_of(c, U, d, T, 'header', 5)
    L = U.CMBlikes.DatasetLikelihood(dataset(c, d, S))
    O = Oracle(c, S, T)
    X = []
    for b, k, n in O.kept():
        N, h, f = O.col('cl_noise', n, b), O.col('cl_hat', n, b), O.col('cl_fiducial', n, b)
        if S['includes'] == 'F':
            h = h + N
        if S['fid_includes'] == 'F':
            f = f + N
        X.append(hl_x(c, h / (O.theory_of(n, b) + N)) * f)
    got = L.chi_squared(C)
    want = O.quad(X)[0]
    c.check(near(c, got, want, 1e-6), 'chi-squared', (got, want))


def exact(c, U, fields, lo, hi, free, at_truth):
    """full-sky likelihood, multipole by multipole"""
    c.exact_logs()
    d = c.scratch
    fs = fields.split()
    names = [a + b for i, a in enumerate(fs) for b in fs[:i + 1]]
    v = lambda n, x, a=2, b=6: c.real(n, a, b) if n in free else x
    T = theory_values(c, names, 5, [(names[0], 3)] if 'D' in free else [])
    for n in names:
        if n[0] != n[1]:
            T[n] = {L: 0.25 * (L - 2) for L in range(2, 6)}
    S = {'like': 'exact', 'lmin': 2, 'lmax': 4, 'binned': False, 'fields_use': fields, 'fsky': 0.5, 'includes': 'F'}
    noise = {f + f: [1. + k, 0.5, 2.] for k, f in enumerate(fs)}
    if 'n' in free:
        noise[names[0]][1] = c.real('n', 0.5, 2)
    S['cl_noise'] = (list(noise), [[noise[n][i] for n in noise] for i in range(3)])
    hat = {n: [T[n][L] if at_truth else T[n][L] + 0.5 * (n[0] == n[1]) for L in (2, 3, 4)] for n in names}
    if 'h' in free:
        hat[names[0]][1] = c.real('h', 2, 9)
    S['cl_hat'] = (names, [[hat[n][i] for n in names] for i in range(3)])
    if lo:
        S.update(use_min=lo, use_max=hi)
    L = U.CMBlikes.DatasetLikelihood(dataset(c, d, S))
    C = cls_of(c, U, d, T, 'header', 5)
    got = L.chi_squared(C)
    if at_truth:
        c.check(near(c, got, 0., 1e-6), 'zero at the theory the data were made from', (got,))
        return
    want = 0.
    for l in range(lo or 2, (hi or 4) + 1):
        N = lambda n: noise[n][l - 2] if n in noise else 0.
        A = {n: T[n][l] + N(n) for n in names}
        B = {n: hat[n][l - 2] + N(n) for n in names}
        if len(fs) == 1:
            r = B[names[0]] / A[names[0]]
            want = want + (2 * l + 1) * 0.5 * (r - 1 - c.log(r))
        else:
            x, y, z = [fs[0] * 2, fs[1] * 2, fs[1] + fs[0]]
            dA, dB = A[x] * A[y] - A[z] * A[z], B[x] * B[y] - B[z] * B[z]
            tr = (A[y] * B[x] + A[x] * B[y] - 2 * A[z] * B[z]) / dA
            want = want + (2 * l + 1) * 0.5 * (tr - 2 - c.log(dB / dA))
    c.check(near(c, got, want, 1e-6), 'chi-squared', (got, want))


def forecast(c, U, fields, lens, noisevar):
    """a simulated data set has the input theory as its perfect fit, and its noise is that of the stated experiment"""
    c.exact_logs()
    d = c.scratch
    T = theory_values(c, ['TT', 'EE', 'TE', 'BB', 'PP'], 6, [(fields.split()[0] * 2, 3)])
    for L in range(2, 7):
        T['TE'][L] = 0.5
    f = os.path.join(d, 'in.dat')
    c.table(f, [[L] + [T[s][L] for s in T] for L in range(2, 7)], header=' L ' + ' '.join(T))
    fn = U('makePerfectForecastDataset').make_forecast_cmb_dataset
    k = dict(input_cl_file=f, output_root='sim', output_dir=os.path.join(d, 'out'), lmin=2, lmax=5, fwhm_arcmin=60., fsky=0.5, fields_use=fields)
    if noisevar:
        N = c.real('N', 0.125, 2)
        P = 3.
        k.update(NoiseVar=N, ENoiseFac=3.)
    else:
        k.update(noise_muK_arcmin_T=6000., noise_muK_arcmin_P=9000.)
        N, P = (6000. * np.pi / 180 / 60) ** 2, 2.25
    if lens:
        k['lens_recon_noise'] = [0., 0.] + [c.real('p%d' % i, 0.5, 2) for i in range(4)]
    fn(**k)
    names = 'L TT EE BB'.split() + (['PP'] if lens else [])
    t = open(os.path.join(d, 'out', 'sim_Noise.dat')).read().split('\n')
    c.check(t[0].lstrip('#').split() == names, 'columns of the noise')
    rows = [r.split() for r in t[1:] if r]
    c.check([int(r[0]) for r in rows] == [2, 3, 4, 5], 'multipoles of the noise')
    beam = (1. * np.pi / 180) ** 2 / (8 * np.log(2.))
    for r in rows:
        L = int(r[0])
        n = L * (L + 1) / (2 * np.pi) * np.exp(L * (L + 1) * beam) * N
        for x, y in zip(r[1:], [n, n * P, n * P] + ([k['lens_recon_noise'][L]] if lens else [])):
            c.check(near(c, c.value(x), y, 1e-4), 'noise spectrum')
    D = U.CMBlikes.DatasetLikelihood(os.path.join(d, 'out', 'sim.dataset'))
    c.check(D.fsky == 0.5 and list(D.used_map_order) == fields.split(), 'fields of the data set')
    if not noisevar or len(fields.split()) == 1:
        c.check(near(c, D.chi_squared(U.CMBlikes.ClsArray(f)), 0., 1e-5), 'perfect fit')


def writecls(c, U, req):
    """foreground spectra written to a file are those of the likelihood's own maps"""
    d = c.scratch
    S = {'lmin': 2, 'lmax': 5, 'nbins': 2, 'maps': [('AT', 'T'), ('AE', 'E'), ('BT', 'T')], 'covmat_cl': ['BTxAT', 'BTxBT'],
         'cl_hat': (['ATxBT', 'BTxBT'], [[2., 1.], [6., 7.]]), 'maps_use': req}
    S['bin_window'] = (['BTxBT'], None, windows(2, range(2, 6), 1))
    L = U.CMBlikes.DatasetLikelihood(dataset(c, d, S))
    A = [c.real('A%d' % i, 1, 50) for i in range(4)]
    use = [m for m, _ in S['maps'] if m in req.split()]
    amp = {}

    def add(cls, params):
        for i in range(len(use)):
            for j in range(i + 1):
                k = (i + 1) * (j + 2) + params['x']
                amp[i, j] = k
                cls[i, j].CL += c.array([k * a for a in A])

    L.add_foregrounds = add
    f = os.path.join(d, 'fg.dat')
    L.write_likelihood_data(f, {'x': 3})
    t = open(f).read().split('\n')
    pairs = [(i, j) for i in range(len(use)) for j in range(i + 1)]
    c.check(t[0].lstrip('#').split() == ['L'] + [use[i] + 'x' + use[j] for i, j in pairs], 'columns', (t[0],))
    rows = [r.split() for r in t[1:] if r]
    c.check([r[0] for r in rows] == ['2', '3', '4', '5'], 'one line for each multipole')
    for r, a in zip(rows, A):
        for x, p in zip(r[1:], pairs):
            c.check(near(c, c.value(x), amp[p] * a, 1e-4), 'spectra')


def scenarios(tier):
    th = tier == 'thorough'
    sets = [['h1', 'h2'], ['D'], ['w']]
    for kind in ('single', 'lens', 'lenscorr', 'TE', 'TEnoise', 'TEpart', 'maps', 'mapsuse', 'mapsreq', 'aberr'):
        for s in sets:
            if kind == 'aberr' and s == ['w']:
                continue
            yield Scenario(gauss, dict(kind=kind, sym=s + (['n1', 'n2'] if kind == 'TEnoise' else [])))
    yield Scenario(gauss, dict(kind='maps', sym=['cal']))
    yield Scenario(gauss, dict(kind='mapsreq', sym=['cal']))
    yield Scenario(gauss, dict(kind='lenscorr', sym=['f1']))
    if th:
        for kind in ('single', 'lens', 'lenscorr', 'TE', 'TEnoise', 'TEpart', 'mapsuse', 'aberr'):
            yield Scenario(gauss, dict(kind=kind, sym=['h1', 'h2', 'D']))
    for k in ('shortdata', 'orders', 'badmap', 'nofields', 'shorttheory'):
        yield Scenario(refuse, dict(kind=k))
    for w in ('none', 'min', 'max', 'both'):
        yield Scenario(override, dict(which=w))
    for inc in range(4):
        for free in [['h0'], ['D']] + ([['h1', 'h0'], ['n0', 'n1']] if th else []):
            yield Scenario(hl, dict(nf=1, inc=inc, free=free))
        yield Scenario(hl, dict(nf=2, inc=inc, free=['h0']))
    for free in (['h'], ['D'], ['n']):
        yield Scenario(exact, dict(fields='T', lo=None, hi=None, free=free, at_truth=False))
        yield Scenario(exact, dict(fields='B', lo=3, hi=4, free=free, at_truth=False))
        if free != ['h']:
            yield Scenario(exact, dict(fields='T E', lo=3, hi=3, free=free, at_truth=False))
    yield Scenario(exact, dict(fields='T', lo=None, hi=None, free=['D', 'n'], at_truth=True))
    yield Scenario(exact, dict(fields='T E', lo=None, hi=None, free=['D', 'n'], at_truth=True))
    for r in ('BT', 'AE BT', 'AT AE BT'):
        yield Scenario(writecls, dict(req=r))
    for fields, lens, nv in [('T', False, True), ('E', True, True), ('P', True, True), ('T E', False, False), ('T E', True, True)] + \
            ([('B', False, True), ('E B', False, False), ('T P', True, False)] if th else []):
        yield Scenario(forecast, dict(fields=fields, lens=lens, noisevar=nv))
