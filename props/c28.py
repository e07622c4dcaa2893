"""C28 numbers in tables are rounded correctly, errors and central values to matching decimals."""
from symx.run import Scenario

BOUNDS = 'every number with up to 3 decimals below 10^5 (quick) / 10^6 (thorough) in magnitude, 1-4 significant figures, fixed and exponent ' \
         'forms; every central value with up to 2 decimals below 10^3 / 10^4 and errors of 1-2 digits'
OUTSIDE = 'more decimals; ties of numbers that have no exact decimal form'
ASSUMPTIONS = ['a number counts as the decimal number it is written as (rounding ties of binary fractions may go either way)']


def lead(c, v):
    """power of ten of the first digit of a non-zero number"""
    a = abs(v)
    k = -1 if bool(a < 1) else 0
    if k:
        while bool(a * 10 ** -k < 1):
            k -= 1
    else:
        while bool(a >= 10 ** (k + 1)):
            k += 1
    return k


def p10(k):
    return 10 ** k if k >= 0 else 1. / 10 ** -k


def near_unit(c, shown, v, unit):
    e = unit * 0.5000001
    return c.and_(c.le(shown - v, e), c.le(v - shown, e))


def single(c, U, lo, hi, q, sf, sign, sci):
    v = c.dec('v', lo, hi, q)
    f = U.types.NumberFormatter(sig_figs=sf)
    explicit = c.choice('explicit', 2) == 1
    if not explicit:
        c.assume(c.not_(c.eq(v, 0))) if lo <= 0 <= hi else None
    s = (f if not explicit else U.types.NumberFormatter()).formatNumber(v, *([sf] if explicit else []), wantSign=sign, sci=sci)
    ex = 0
    if sci:
        s, ex = s
    c.check(isinstance(s, str) and isinstance(ex, int), 'text')
    pos = s[0] == '+'
    t = s[1:] if pos else s
    x, dp = c.number(t)
    x0, x = x, x * p10(ex)
    if bool(c.eq(v, 0)):
        c.check_eq(x, 0, 'zero')
        c.check(ex == 0 and not pos, 'zero has no sign')
        return
    k = lead(c, v)
    c.check(near_unit(c, x, v, p10(k - sf + 1)), 'rounded to the significant figures', (s, v))
    c.check(pos == bool(sign and bool(v > 0)), 'sign shown if wanted')
    c.check(c.implies(v > 0, x > 0), 'sign')
    c.check(c.implies(v < 0, x < 0), 'sign')
    if sci:
        tens = ex == k - 1 and bool(c.eq(abs(v), p10(k)))  # the binary number may be just below a power of ten
        c.check(ex == (k if abs(k) > 4 else 0) or tens, 'exponent for large and small numbers only', (ex, k))
        if tens:
            return
    if ex == 0:
        # as many digits as asked, more only before the point
        up = lead(c, x)
        c.check(dp == max(0, sf - 1 - up), 'digits', (s, dp, sf, up))
    else:
        ten = bool(c.eq(abs(x0), 10))
        c.check(dp == max(0, sf - 1 - ten), 'digits of the exponent form', s)


def parts(c, s):
    x, d = c.number(s[1:] if s[0] == '+' else s)
    return x, d, s[0]


def errors(c, U, vlo, vhi, q, plo, phi, mlo, mhi, sign, sci, sf, esf):
    v = c.dec('v', vlo, vhi, q)
    p = c.dec('p', plo, phi, q)
    m = -c.dec('m', mlo, mhi, q)
    f = U.types.NumberFormatter(sig_figs=sf, err_sf=esf)
    r = f.namesigFigs(v, p, m, wantSign=sign, sci=sci)
    ex = 0
    if sci:
        c.check(len(r) == 4, 'exponent form')
        r, ex = r[:3], r[3]
    x, dv, _ = parts(c, r[0])
    a, da, sa = parts(c, r[1])
    b, db, sb = parts(c, r[2])
    E = p10(ex)
    x, a, b = x * E, a * E, b * E
    c.check(sa == '+' if sign else sa not in '+-', 'sign of the upper error')
    c.check(sb == '-', 'sign of the lower error')
    for y, t, lab in ((a, p, 'upper error'), (b, m, 'lower error')):
        k = lead(c, t)
        few = c.or_(near_unit(c, y, t, p10(k - esf + 1)), c.and_(c.le(20, v), p > v * 0.1, c.le(2, p), near_unit(c, y, t, p10(k))))
        c.check(few, lab + ' rounded to its significant figures', (r, t))
    c.check(dv >= da, 'value has the decimals of the error', r)
    c.check(dv <= max(da, db) + 1, 'value has no more decimals than the errors (one more where rounding adds a digit)', r)
    d = x - v
    h = p * 0.5000001
    c.check(c.and_(c.le(d, h), c.le(-d, h)), 'value is accurate compared to the error', r)
    if ex == 0 and dv > 0 and dv == da:
        c.check(c.or_(near_unit(c, x, v, p10(-dv)), c.and_(c.le(d, p * 0.06), c.le(-d, p * 0.06))), 'value rounded in its last place', r)


def scenarios(tier):
    th = tier == 'thorough'
    for sf in (1, 2, 3, 4):
        yield Scenario(single, dict(lo=-99999 if th else -999, hi=99999 if th else 9999, q=3, sf=sf, sign=sf % 2 == 0, sci=False))
    # around ties that many figures decide
    for sf, m, q in ((1, 25, 7), (1, 25, 6), (2, 355, 7)):
        yield Scenario(single, dict(lo=m * 10 ** (q - 1 - (m > 99)) - 40, hi=m * 10 ** (q - 1 - (m > 99)) + 40, q=q, sf=sf, sign=False, sci=False))
    yield Scenario(single, dict(lo=1, hi=999999, q=0, sf=2, sign=False, sci=True))
    yield Scenario(single, dict(lo=-9999, hi=999, q=7, sf=2, sign=True, sci=True))
    if th:
        for sf in (1, 3, 5):
            yield Scenario(single, dict(lo=-99999, hi=999999, q=4, sf=sf, sign=True, sci=True))
        yield Scenario(single, dict(lo=-9999, hi=9999999, q=0, sf=4, sign=True, sci=True))
    for sign, sci, sf, esf in [(True, False, 4, 2), (False, False, 4, 2), (True, True, 4, 2), (True, False, 3, 1)]:
        if th or sign:
            yield Scenario(errors, dict(vlo=-99, vhi=999, q=1, plo=1, phi=99 if th else 20, mlo=1, mhi=99 if th else 20,
                                        sign=sign, sci=sci, sf=sf, esf=esf))
            yield Scenario(errors, dict(vlo=1000, vhi=9999, q=2, plo=100, phi=9999 if th else 300, mlo=100, mhi=999 if th else 200,
                                        sign=sign, sci=sci, sf=sf, esf=esf))
