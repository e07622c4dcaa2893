"""C11 parameter ranges: the limits in force are exactly those last set, in memory, in files and on samples."""
import os
import numpy as np
from symx.run import Scenario
from props.common import include

PRELOAD = ['getdist.mcsamples']
BOUNDS = 'up to 3 parameters, all limit values symbolic, every combination of bounded/unbounded sides, histories of up to 3 settings'
OUTSIDE = 'parameter names with white space; rounding of limits in files beyond the 8 significant digits of the format'

UNB = {'N': 'N', 'None': None, '=': None}


def lim(c, tag, kind, lo=-100, hi=100):
    """(value given, expected value or None)"""
    if kind == 'v':
        x = c.real(tag, lo, hi)
        return x, x
    if kind == 's':
        return '2.5', 2.5
    if kind == 'inf':
        return None, None  # replaced per side
    return UNB[kind], None


def kinds(c, tag):
    return ['v', 'N', 'None', 'inf', 's'][c.choice(tag, 5)]


def pair(c, tag):
    k1, k2 = kinds(c, tag + 'k1'), kinds(c, tag + 'k2')
    a, wa = lim(c, tag + 'a', k1)
    b, wb = lim(c, tag + 'b', k2)
    if k1 == 'inf':
        a = -np.inf
    if k2 == 'inf':
        b = np.inf
    return (a, b), (wa, wb)


def same(c, got, want, label):
    if want is None:
        c.check(got is None, label + ' (unbounded)')
    else:
        c.check(got is not None, label + ' (bounded)')
        if got is not None:
            c.check_eq(got, want, label)


def verify(c, B, names, want, label):
    c.check(list(B.names) == names, label + ': names')
    fx = B.fixedValueDict()
    for n in names + ['nosuch']:
        lo, hi = want.get(n, (None, None))
        same(c, B.getLower(n), lo, label + ': lower')
        same(c, B.getUpper(n), hi, label + ': upper')
        fixed = lo is not None and hi is not None and bool(c.eq(lo, hi))
        same(c, B.fixedValue(n), lo if fixed else None, label + ': fixed value')
        c.check((n in fx) == fixed, label + ': fixed values dictionary')
        if n in fx and fixed:
            c.check_eq(fx[n], lo, label + ': fixed values dictionary')


def settings(c, U, hist):
    """sequence of setRange/setFixed calls"""
    B = U.parampriors.ParamBounds()
    names, want = [], {}
    for i, (op, n) in enumerate(hist):
        if op == 'range':
            r, w = pair(c, 'r%d' % i)
            B.setRange(n, r)
        else:
            v = c.real('f%d' % i, -100, 100)
            B.setFixed(n, v)
            w = (v, v)
        want[n] = w
        if n not in names:
            names.append(n)
        verify(c, B, names, want, 'history')


def eqprint(c, x, y):
    """equal to the precision of the format"""
    return c.and_(c.le(abs(x - y), abs(x) * 6e-8 + 1e-30))


def textfile(c, U, ks):
    B = U.parampriors.ParamBounds()
    names, want = [], {}
    for i, (k1, k2) in enumerate(ks):
        n = 'p%d' % i
        a, b = lim(c, 'a%d' % i, k1)[1], lim(c, 'b%d' % i, k2)[1]
        if k2 == '=':
            b = a
        want[n] = (a, b)
        names.append(n)
        B.setRange(n, (a, b))
    f = os.path.join(c.scratch, 'x.ranges')
    B.saveToFile(f)
    Q = U.parampriors.ParamBounds(f)
    c.check(list(Q.names) == names, 'file: names in order')
    for n in names:
        for got, w, lab in ((Q.getLower(n), want[n][0], 'file: lower'), (Q.getUpper(n), want[n][1], 'file: upper')):
            c.check((got is None) == (w is None), lab + ' boundedness')
            if got is not None and w is not None:
                c.check(eqprint(c, w, got), lab)
        if ks[int(n[1:])][1] == '=':
            c.check(Q.fixedValue(n) is not None, 'file: fixed parameters stay fixed')
    c.observe('n', len(Q.names))


def bounds_ext(c, U, ext):
    f = os.path.join(c.scratch, 'y' + ext)
    a, b = c.real('a', -10, 10), c.real('b', -10, 10)
    with open(f, 'w', encoding='utf-8') as fh:
        fh.write('x  %s\tN\n\n  y N %s  \nbad line with too many columns 1 2\nz 1 1\n' % (a, b))
    if ext in ('.ranges', '.bounds'):
        Q = U.parampriors.ParamBounds(f)
        verify(c, Q, ['x', 'y', 'z'], {'x': (a, None), 'y': (None, b), 'z': (1, 1)}, 'file')
    else:
        _, e = c.raises(lambda: U.parampriors.ParamBounds(f))
        c.check(e is not None, 'other file types are refused')


def sset(c, U, ranges, **kw):
    X = [[1., 4.], [2., 3.], [3., 5.], [2.5, 3.5]]
    return U.mcsamples.MCSamples(samples=c.array(X), weights=c.array([1., 1.2, 1, 1.1]), loglikes=c.array([1., 2, 3, 4]),
                                 names=['a', 'b'], ranges=ranges, ignore_rows=0, settings=dict({'ignore_rows': 0}, **kw))


def on_samples(c, U, form, hist):
    """limits reported by samples"""
    w = {}

    def one(tag):
        k = c.choice(tag + 'k', 4)
        lo = c.real(tag + 'a', -100, 0.5) if k & 1 else None
        hi = c.real(tag + 'b', 6, 100) if k & 2 else None
        return lo, hi

    def put(s, form, tag, init=False):
        if form == 'list':
            r = [one(tag + '0'), one(tag + '1')]
            w['a'], w['b'] = r
        elif form == 'dict':
            r = {'b': one(tag + '0')}
            w.update(r)
        elif form == 'bounds':
            r = U.parampriors.ParamBounds()
            v = one(tag + '0')
            r.setRange('a', v)
            w.clear()
            w['a'] = v
        else:
            r = None
        if init:
            return sset(c, U, r)
        s.setRanges(r)
        return s

    s = put(None, form, 'i', True)
    for i, op in enumerate([''] + list(hist)):
        if op in ('list', 'dict', 'bounds'):
            put(s, op, 'h%d' % i)
        elif op == 'derived':
            v = one('h%d' % i)
            s.addDerived(c.array([1., 2, 1, 3]), 'd', range=v)
            w['d'] = v
        elif op == 'filter':
            s.filter(np.array([True, True, True, False]))
        for n in ['a', 'b', 'd']:
            lo, hi = w.get(n, (None, None))
            same(c, s.getLower(n), lo, 'samples %s: lower' % op)
            same(c, s.getUpper(n), hi, 'samples %s: upper' % op)
            same(c, s.ranges.getLower(n), lo, 'samples %s: ranges' % op)
        B = s.getBounds()
        c.check(B.names == s.paramNames.list(), 'bounds names')
        for n in B.names:
            lo, hi = w.get(n, (None, None))
            same(c, B.getLower(n), lo, 'samples %s: bounds' % op)
            same(c, B.getUpper(n), hi, 'samples %s: bounds' % op)
    c.check(s.getUpper('nosuch') is None and s.getLower('nosuch') is None, 'unknown parameter has no limits')


def ini_limits(c, U, every):
    """limits given in analysis settings override"""
    a, b = c.real('a', -100, 0.5), c.real('b', 6, 100)
    k = c.choice('k', 3)
    t = '%s %s' % ('N' if k == 1 else a, 'N' if k == 2 else b)
    kw = {'all_limits': t} if every else {'limits[a]': t}
    s = sset(c, U, {'b': (0, 9)}, **kw)
    wa = (None if k == 1 else a, None if k == 2 else b)
    for n, want in (('a', wa), ('b', wa if every else (0, 9))):
        same(c, s.getLower(n), want[0], 'settings: lower')
        same(c, s.getUpper(n), want[1], 'settings: upper')


def near(c, U, side):
    """a hard limit counts as a bound of the plotted range exactly if samples come close to it; else the range is free of it"""
    s = sset(c, U, None)
    lo, hi = c.real('lo', -20, 1), c.real('hi', 3, 20)
    s.setRanges({'a': (lo if side != 'top' else None, hi if side != 'bot' else None)})
    s.updateBaseStatistics()
    par = s._initParamRanges(0)
    c.check(par.range_min <= par.range_max, 'range ordered')
    if side != 'top':
        c.check(par.range_min >= lo, 'range stays inside the lower limit')
        if par.has_limits_bot:
            c.check_eq(par.range_min, lo, 'bounded range starts at the limit')
        else:
            c.check(par.param_min > lo, 'limit ignored only if samples are away from it')
    else:
        c.check(not par.has_limits_bot, 'no lower limit')
    if side != 'bot':
        c.check(par.range_max <= hi, 'range stays inside the upper limit')
        if par.has_limits_top:
            c.check_eq(par.range_max, hi, 'bounded range ends at the limit')
        else:
            c.check(par.param_max < hi, 'limit ignored only if samples are away from it')
    else:
        c.check(not par.has_limits_top, 'no upper limit')
    c.check(c.and_(par.range_min <= 1, par.range_max >= 3), 'range covers the samples')


def scenarios(tier):
    yield from include('c24', tier, 'files')
    th = tier == 'thorough'
    for h in [[('range', 'a')], [('range', 'a'), ('range', 'a')], [('fixed', 'a'), ('range', 'a')], [('range', 'a'), ('fixed', 'a')],
              [('range', 'a'), ('fixed', 'b')]]:
        yield Scenario(settings, dict(hist=h))
    for ks in ([('v', 'N')], [('N', 'v'), ('v', 'v')], [('v', '='), ('None', 'None')], [('v', 'v'), ('v', 'N'), ('N', 'N')]):
        yield Scenario(textfile, dict(ks=ks))
    for ext in ('.ranges', '.bounds', '.txt'):
        yield Scenario(bounds_ext, dict(ext=ext))
    for form in ('list', 'dict', 'bounds', None):
        yield Scenario(on_samples, dict(form=form, hist=()))
    for form, h in [('list', ('dict',)), ('dict', ('bounds',)), (None, ('list',)), ('dict', ('derived',)), (None, ('derived', 'filter'))]:
        yield Scenario(on_samples, dict(form=form, hist=h))
    for e in (False, True):
        yield Scenario(ini_limits, dict(every=e))
    for side in ('bot', 'top', 'both'):
        yield Scenario(near, dict(side=side))
    if th:
        for h in [[('range', 'a'), ('range', 'b'), ('range', 'a')], [('fixed', 'a'), ('range', 'b'), ('fixed', 'a')]]:
            yield Scenario(settings, dict(hist=h))
        for form, h in [('list', ('dict', 'derived')), ('dict', ('list', 'dict')), ('bounds', ('derived', 'list'))]:
            yield Scenario(on_samples, dict(form=form, hist=h))
