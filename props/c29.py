"""C29 result tables and result files show each parameter's own results in its own place."""
import os
import re
from symx.run import Scenario

PRELOAD = ['getdist.mcsamples']
BOUNDS = '1-5 parameters in 1-4 columns, 1-3 results with any subset of missing parameters, all kinds of limits, 1-2 contours, every mean, error, ' \
         'limit and best-fit value; all options for titles, blocks, lists of parameters, shifts; number formatting by a stand-in that keeps the value (C28)'
OUTSIDE = 'results with different columns in one table; rendering with LaTeX; custom table formatters'

NUM = re.compile(r'<~\d+~>|[-+]?\d+\.\d+(?:E[-+]\d+)?')
KINDS = ('two', '>', '<', 'none', 'chi2')


def formatter(c, U, sci):
    class F(U.types.NumberFormatter):
        """prints every number completely; numbers above 100 with an exponent of 2"""

        def formatNumber(self, value, sig_figs=None, wantSign=False, sci=False):
            s = '{' + c.put(value / 100. if sci and ex else value, 12) + '}'
            return (s, 2 if ex else 0) if sci else s

        def namesigFigs(self, value, limplus, limminus, wantSign=True, sci=False):
            f = 100. if sci and ex else 1.
            r = tuple('{' + c.put(x / f, 12) + '}' for x in (value, limplus, limminus))
            return r + (2 if ex else 0,) if sci else r
    ex = sci
    return F()


def close(c, a, b):
    d = a - b
    t = (abs(b) + 1) * 1e-6
    return c.and_(c.le(d, t), c.le(-d, t))


def close1(c, a, b):
    """printed with one decimal"""
    d = a - b
    return c.and_(c.le(d, 0.0501), c.le(-d, 0.0501))


def params(c, U, tag, kinds, missing=(), ncont=2, best=False, free=None):
    """results of a set of parameters: (object, {name: expected})"""
    m = U.types.MargeStats()
    m.limits = [0.68, 0.95, 0.99][:ncont]
    m.hasBestFit = best
    want = {}
    for i, k in enumerate(kinds):
        if i in missing:
            continue
        name = ('chi2_%d' if k == 'chi2' else 'p%d') % i
        sym = free is None or i == free
        p = U.paramnames.ParamInfo(name=name, label='' if i == 2 else 'l_%d' % i, derived=i % 2 == 1)
        if i == 2:
            p.label = ''
        if sym:
            p.mean = c.real('%sm%d' % (tag, i), -50, 50)
            p.err = c.real('%se%d' % (tag, i), 0.5, 5)
        else:
            p.mean, p.err = 3. * i + len(tag), 1. + i
        p.limits = []
        for j in range(ncont):
            up = c.real('%su%d_%d' % (tag, i, j), 0.25, 8) if sym else 1.5 + j + i
            lo = c.real('%sl%d_%d' % (tag, i, j), 0.25, 8) if sym else 0.5 + j + i
            p.limits.append(U.types.ParamLimit((p.mean - lo, p.mean + up), 'two' if k == 'chi2' else k))
        if best:
            p.best_fit = c.real('%sb%d' % (tag, i), -50, 50) if sym else 2. * i + 0.25
        m.names.append(p)
        want[name] = p
    return m, want


def cell(c, txt, p, kind, limit, ex, ref=None, shift=None):
    """LaTeX of one result"""
    t = txt.strip()
    v = [c.value(x) for x in NUM.findall(t)]
    f = 100. if ex else 1.
    lim = p.limits[limit - 1]
    n = 0
    if kind == 'none':
        c.check(t.strip('$ ') == '---', 'no constraint', t)
        return
    c.check(t.startswith('$') and t.endswith('$'), 'formula', t)
    if kind == 'chi2':
        c.check(close(c, v[0], p.mean), 'mean of a chi-squared')
        if limit == 1:
            c.check('\\pm' in t and close(c, v[1], p.err), 'error of a chi-squared', t)
        else:
            c.check('\\nu' in t and close1(c, v[1], p.err * p.err / 2), 'degrees of freedom', t)
        n = 2
    elif kind == 'two':
        up, lo = lim.upper - p.mean, p.mean - lim.lower
        c.check(close(c, v[0] * f, p.mean), 'mean', (t, p.mean))
        if '\\pm' in t:
            c.check(limit == 1, 'one error for the first limits only')
            c.check(c.and_(up - lo <= 0.1000001 * lo, lo - up <= 0.1000001 * lo), 'one error for symmetric limits only')
            c.check(close(c, v[1] * f, p.err), 'error', t)
            n = 2
        else:
            c.check(c.or_(limit != 1, up - lo >= 0.0999999 * lo, lo - up >= 0.0999999 * lo), 'two errors of asymmetric limits')
            c.check(re.search(r'\^\{[^_]*\}_\{', t) is not None, 'upper and lower error', t)
            c.check(c.and_(close(c, v[1] * f, up), close(c, v[2] * f, -lo)), 'errors reach the limits', t)
            n = 3
        c.check(('10^{2}' in t) == ex, 'exponent', t)
    else:
        c.check(t[1:].strip().startswith('<' if kind == '>' else '>'), 'one-tail limit', t)
        c.check(close(c, v[0] * f, lim.upper if kind == '>' else lim.lower), 'one-tail limit', t)
        c.check(('10^{2}' in t) == ex, 'exponent', t)
        n = 1
    s = v[n:]
    if ref is None or p.name not in ref:
        c.check(len(s) == 0, 'no shift', t)
        return
    r = ref[p.name]
    d = p.mean - r.mean
    q = t[t.rindex('('):]
    if shift is None:
        c.check(len(s) == 1 and '\\sigma' in q and '_' not in q, 'shift', t)
        c.check(close1(c, s[0], d / r.err), 'shift in units of the reference error', t)
        return
    c.check(len(s) == len(shift), 'shifts', t)
    it = iter(s)
    if 's' in shift:
        x = next(it)
        sub = c.sqrt(abs(p.err * p.err - r.err * r.err))
        c.check(close1(c, x, d / c.max([sub, r.err / 20])), 'shift for a subset of the data', t)
        c.check('\\sigma_s' in q, 'subset', t)
    if 'i' in shift:
        x = next(it)
        c.check(close1(c, x, d / c.sqrt(p.err * p.err + r.err * r.err)), 'shift for independent data', t)
        c.check('\\sigma_i' in q, 'independent', t)
    c.check(re.fullmatch(r'\(%s\)\$?' % ', '.join([r'[^,()]*\\sigma_' + x for x in sorted(shift, reverse=True)]), q.strip()) is not None,
            'list of shifts', q)


def rows_of(lines, ncells):
    return [ln for ln in lines if ln.count('&') == ncells - 1 and ln.endswith('\\\\')]


def split(row):
    return [x.strip() for x in row[:-2].split('&')]


def table(c, U, kinds, ncol, limit, missing, best, ex, titles, free, given):
    """missing: for each result the indices of the missing parameters"""
    res = [params(c, U, 'xyz'[r], kinds, miss, best=best, free=free if r == len(missing) - 1 else -1) for r, miss in enumerate(missing)]
    kw = dict(limit=limit, numFormatter=formatter(c, U, ex))
    if titles:
        kw['titles'] = ['T_%d' % i for i in range(len(res))]
    names = [n.name for n in res[0][0].names]
    if given == 'list':
        kw['paramList'] = [x for x in names[::-1] if x != names[0]] if len(names) > 1 else names
        names = [x for x in names if x in kw['paramList']]
    elif given == 'names':
        kw['tableParamNames'] = U.paramnames.ParamNames(names=[names[-1], 'q', names[0]], labels=['x', 'y', 'z'])
        names = kw['tableParamNames'].list()
    one = len(res) == 1 and given is None
    T = U.types.ResultTable(ncol, res[0][0] if one else [r[0] for r in res], **kw)
    kind = {('chi2_%d' if k == 'chi2' else 'p%d') % i: k for i, k in enumerate(kinds)}
    per = 2 if best else 1
    ncells = ncol * (1 + len(res) * per)
    rows = rows_of(T.lines, ncells)
    nrow = -(-len(names) // ncol)
    if titles:
        tl = [ln for ln in T.lines if 'multicolumn' in ln]
        c.check(len(tl) == 1 and tl[0].count('&') == ncol * (1 + len(res)) - 1, 'titles', tl)
        tc = split(tl[0])
        for k in range(ncol):
            for r in range(len(res)):
                t = tc[k * (1 + len(res)) + 1 + r]
                c.check('T{\\textunderscore}%d' % r in t and 'multicolumn{%d}' % per in t, 'title of each result', t)
        rows = [r for r in rows if r is not tl[0]]
    c.check(len(rows) == nrow + 1, 'one line for the header and each row', (len(rows), nrow))
    head = split(rows[0])
    w = 1 + len(res) * per
    for k in range(ncol):
        for r in range(len(res)):
            lab = head[k * w + 1 + r * per: k * w + 1 + (r + 1) * per]
            c.check(lab == (['Best fit'] if best else []) + ['%d\\%% limits' % (68, 95)[limit - 1]], 'column labels', lab)
    info = {p.name: p for p in (kw['tableParamNames'].names if given == 'names' else res[0][0].names)}
    for i in range(nrow * ncol):
        cells = split(rows[1 + i % nrow])[(i // nrow) * w:(i // nrow + 1) * w]
        if i >= len(names):
            c.check(not any(cells), 'empty cells', cells)
            continue
        nm = names[i]
        lb = info[nm].label or nm
        c.check(('$' + lb in cells[0].replace(' ', '')) and ('boldmath' in cells[0]) == (not info[nm].isDerived), 'label of the parameter', (cells[0], lb))
        for r, (m, want) in enumerate(res):
            x = cells[1 + r * per:1 + (r + 1) * per]
            if nm not in want:
                c.check(not any(x), 'empty for a missing parameter', x)
                continue
            if best:
                v = NUM.findall(x[0])
                c.check(len(v) == 1 and ('10^{2}' in x[0]) == ex, 'best fit', x)
                c.check(close(c, c.value(v[0]) * (100. if ex else 1.), want[nm].best_fit), 'best fit', x)
            cell(c, x[-1], want[nm], kind[nm], limit, ex)
    spec = T.lines[0]
    c.check(spec.count(' c') + spec.count(' l') == ncells, 'column specification', spec)
    doc = T.tableTex(document=True, latex_preamble='%PRE')
    body = T.tableTex()
    c.check(doc.count('\n' + body + '\n') == 1 and '%PRE' in doc and doc.rstrip().endswith('\\end{document}'), 'document')
    f = os.path.join(c.scratch, 'x.tex')
    T.write(f)
    with open(f) as h:
        c.check(h.read() == body, 'written table')


def shifts(c, U, kind, limit, shift, have):
    m, want = params(c, U, 'x', [kind], free=0)
    p = m.names[0]
    ref, rw = params(c, U, 'y', [kind, 'two'] if have else ['two'], () if have else (), free=-1)
    if not have:
        ref.names[0].name = 'other'
        rw = {}
    kw = {}
    if shift:
        kw = dict(shiftSigma_subset='s' in shift, shiftSigma_indep='i' in shift)
    f = U.types.NoLineTableFormatter()
    f.numberFormatter = formatter(c, U, False)
    t = m.texValues(f, p.name, limit=limit, refResults=ref, **kw)
    c.check(len(t) == 1, 'one result')
    cell(c, f.texEquation(t[0]) if kind != 'none' else t[0], p, kind, limit, False, rw, shift)
    t2 = U.types.ResultTable(1, m, limit=limit, refResults=ref, numFormatter=formatter(c, U, False), **kw)
    row = split(rows_of(t2.lines, 2)[1])
    cell(c, row[1], p, kind, limit, False, rw, shift)


def blocks(c, U, ends, ncol):
    m, want = params(c, U, 'x', ['two'] * 4, free=0)
    T = U.types.ResultTable(ncol, m, numFormatter=formatter(c, U, False), blockEndParams=['p%d' % e for e in ends])
    i = [k for k, ln in enumerate(T.lines) if ln.endswith('\\\\')][1:]
    per = [len([ln for ln in T.lines[a + 1:b] if 'hline' in ln]) for a, b in zip(i, i[1:])]
    c.check(len(i) == -(-4 // ncol), 'rows')
    c.check(per == [1 if ncol == 1 and k in ends else 0 for k in range(len(per))], 'line below each block', per)


def bestfits(c, U, ncol, n, miss):
    def bf(tag, skip):
        b = U.types.BestFit()
        for i in range(n):
            if i in skip:
                continue
            p = U.paramnames.ParamInfo(name='p%d' % i, label='l_%d' % i, derived=i == 1)
            p.best_fit = c.real('%s%d' % (tag, i), -50, 50)
            b.names.append(p)
        b.logLike = 1.
        return b
    R = [bf('x', ()), bf('y', miss)]
    T = U.types.ResultTable(ncol, R, numFormatter=formatter(c, U, False))
    rows = rows_of(T.lines, 3 * ncol)
    nrow = -(-n // ncol)
    c.check(len(rows) == nrow + 1, 'rows')
    for i in range(n):
        cells = split(rows[1 + i % nrow])[(i // nrow) * 3:(i // nrow + 1) * 3]
        c.check('l_%d' % i in cells[0], 'label')
        for r in range(2):
            p = R[r].parWithName('p%d' % i)
            if p is None:
                c.check(not cells[1 + r], 'missing')
            else:
                c.check(close(c, c.value(NUM.findall(cells[1 + r])[0]), p.best_fit), 'best fit of each parameter')


def addbest(c, U, missing):
    m, want = params(c, U, 'x', ['two', '>', 'two'], free=0)
    b = U.types.BestFit()
    b.logLike = c.real('L', 0, 100)
    for i in (2, 0, 1, 5):
        if i == missing:
            continue
        p = U.paramnames.ParamInfo(name='p%d' % i, derived=i == 2)
        p.best_fit = c.real('b%d' % i, -9, 9)
        b.names.append(p)
    m.addBestFit(b)
    c.check(m.list() == ['p%d' % i for i in range(3) if i != missing], 'parameters with best fit')
    c.check_eq(m.logLike, b.logLike, 'likelihood')
    for p in m.names:
        c.check_eq(p.best_fit, b.parWithName(p.name).best_fit, 'best fit')
        c.check(p.isDerived == (p.name == 'p2'), 'derived')
        c.check_eq(p.mean, want[p.name].mean, 'mean')
    c.check(m.getColumnLabels(1) == ['Best fit', '68\\% limits'], 'columns')


def margefile(c, U, kinds, ncont, neg):
    m, want = params(c, U, 'x', kinds, ncont=ncont)
    f = os.path.join(c.scratch, 'x.margestats')
    m.saveAsText(f)
    r = U.types.MargeStats(f)
    c.check(r.limits == m.limits, 'contours', r.limits)
    c.check(r.list() == m.list(), 'parameters', r.list())
    for p in r.names:
        q = want[p.name]
        c.check(p.isDerived == q.isDerived, 'derived')
        c.check(p.label == q.label, 'label', p.label)
        c.check(close(c, p.mean, q.mean) and close(c, p.err, q.err), 'mean and error')
        c.check(len(p.limits) == ncont, 'limits')
        for a, b in zip(p.limits, q.limits):
            c.check(close(c, a.lower, b.lower) and close(c, a.upper, b.upper), 'limits of the parameter')
            c.check(a.limitTag() == b.limitTag() and a.limitType() == b.limitType(), 'kind of limit')
            c.check((a.twotail, a.onetail_upper, a.onetail_lower) == (b.twotail, b.onetail_upper, b.onetail_lower), 'kind of limit')


def likefile(c, U, inv):
    m = U.types.LikeStats()
    m.logLike_sample, m.meanLogLike, m.logMeanLike = [c.real(x, -99, 99) for x in 'abd']
    m.logMeanInvLike = c.real('e', 1, 99) if inv else None
    for i in range(2):
        p = U.paramnames.ParamInfo(name='p%d' % i, label='l_%d' % i, derived=i == 1)
        p.bestfit_sample = c.real('s%d' % i, -9, 9)
        p.ND_limit_bot = [c.real('bo%d%d' % (i, k), -9, 9) for k in range(2)]
        p.ND_limit_top = [c.real('to%d%d' % (i, k), -9, 9) for k in range(2)]
        m.names.append(p)
    f = os.path.join(c.scratch, 'x.likestats')
    m.saveAsText(f)
    r = U.types.LikeStats(f)
    with open(f) as h:
        t = h.read().split('\n')
    for k in ('logLike_sample', 'meanLogLike', 'logMeanLike', 'logMeanInvLike'):
        a, b = getattr(r, k), getattr(m, k)
        if b is None:
            c.check(a is None, 'absent')
        else:
            c.check(close(c, a, b), k)
    for i in range(2):
        ln = [x for x in t if x.startswith('p%d' % i)]
        c.check(len(ln) == 1 and ('p1*' in ln[0]) == (i == 1) and ln[0].endswith('l_%d' % i), 'line of the parameter', ln)
        p = m.names[i]
        v = [c.value(x) for x in NUM.findall(ln[0])]
        want = [p.bestfit_sample, p.ND_limit_bot[0], p.ND_limit_top[0], p.ND_limit_bot[1], p.ND_limit_top[1]]
        c.check(len(v) == 5 and all(bool(close(c, a, b)) for a, b in zip(v, want)), 'numbers of the parameter', (v, want))


def inline(c, U, which, limit, err, kind):
    """formulas for single parameters of samples"""
    m, want = params(c, U, 'x', [kind, 'two'], free=0)

    class S(U.mcsamples.MCSamples):
        def getMargeStats(self, include_bestfit=False):
            return m
    s = object.__new__(S)
    f0 = U.types.NoLineTableFormatter()
    if err:
        f0.numberFormatter.err_sf = err
    nm = m.names[0].name
    seen = []
    old = U.types.NumberFormatter

    class F(formatter(c, U, False).__class__):
        def namesigFigs(self, *a, **k):
            seen.append(self.err_sf)
            return super().namesigFigs(*a, **k)
    U.types.NumberFormatter = F
    try:
        if which == 'all':
            labels, texs = s.getLatex(limit=limit, err_sig_figs=err)
            c.check(labels == ['l_0', 'l_1'], 'labels')
            t = texs[0]
        elif which == 'list':
            labels, texs = s.getLatex(['zz', nm], limit, err)
            c.check(labels == [None, 'l_0'] and texs[0] is None, 'missing parameter')
            t = texs[1]
        else:
            t = s.getInlineLatex(nm, limit, err) if which == 'inline' else s.getLatex(nm, limit, err)
            one = kind in '<>'
            c.check(t.startswith('l_0 ' if one else 'l_0 = '), 'label', t)
            t = t[4 if one else 6:]
            c.check(c.raises(lambda: s.getInlineLatex('zz', limit)), 'missing parameter is refused')
    finally:
        U.types.NumberFormatter = old
    cell(c, t if kind == 'none' else '$' + t + '$', m.names[0], kind, limit, False)
    c.check(all(x == (err or 2) for x in seen), 'figures of the error', seen)


def scenarios(tier):
    th = tier == 'thorough'
    for kind in KINDS:
        for limit in (1, 2):
            yield Scenario(table, dict(kinds=[kind], ncol=1, limit=limit, missing=[()], best=False, ex=limit == 1, titles=False, free=0, given=None))
            yield Scenario(shifts, dict(kind=kind, limit=limit, shift=None, have=True))
            for which in ('all', 'list', 'inline', 'get') if th or limit == 1 else ('inline',):
                yield Scenario(inline, dict(which=which, limit=limit, err=1 if which == 'list' else None, kind=kind))
    for kind in ('two', '>') + (('<', 'chi2') if th else ()):
        for shift in ('s', 'i', 'si'):
            yield Scenario(shifts, dict(kind=kind, limit=2 if kind == 'two' else 1, shift=shift, have=True))
        yield Scenario(shifts, dict(kind=kind, limit=1, shift=None, have=False))
    for n in (1, 2, 3, 4, 5):
        for ncol in (1, 2, 3) + ((4,) if th else ()):
            kinds = [KINDS[(i + n) % 5] for i in range(n)]
            yield Scenario(table, dict(kinds=kinds, ncol=ncol, limit=1 + n % 2, missing=[()], best=n == 3, ex=False, titles=n % 2 == 0, free=n - 1, given=None))
    for missing in ([(), ()], [(), (1,)], [(0,), (2,)], [(), (0, 1), (2,)], [(1,), ()]):
        for best in (False, True):
            for given in (None, 'list', 'names') if th or not best else (None,):
                kinds = ['two', '>', 'two']
                yield Scenario(table, dict(kinds=kinds, ncol=1 + len(missing) % 2, limit=2, missing=missing, best=best, ex=best, titles=True, free=1, given=given))
    for ends, ncol in [((0, 2), 1), ((1,), 1), ((1, 3), 2), ((), 1)]:
        yield Scenario(blocks, dict(ends=ends, ncol=ncol))
    for ncol, n, miss in [(1, 2, ()), (2, 3, (1,)), (1, 1, (0,))]:
        yield Scenario(bestfits, dict(ncol=ncol, n=n, miss=miss))
    for missing in (None, 0, 2):
        yield Scenario(addbest, dict(missing=missing))
    for ncont in (1, 2, 3):
        yield Scenario(margefile, dict(kinds=['two', '>', '<', 'none', 'two'][:5 if ncont == 2 or th else 3], ncont=ncont, neg=False))
    for inv in (False, True):
        yield Scenario(likefile, dict(inv=inv))
