"""Decimal digits of symbolic numbers: decimal.Decimal of a symbolic number that is an integer multiple of 10^-Q, and text made of
symbolic digits.  Number of digits by branching; each digit a symbolic integer 0..9."""
import decimal
import math
import re
from symx import core, sstr
from symx.core import SymNum, SymBool, z3

MAXD = 12


def q_of():
    return core.ENGINE.decq or 0


def fresh_int(tag):
    core.ENGINE.fresh += 1
    return z3.Int('%s!%d' % (tag, core.ENGINE.fresh))


class Digit(SymNum):
    """0..9"""
    __slots__ = ()

    def __str__(self):
        e = core.ENGINE
        p = chr(sstr.LO + len(e.chars))
        e.chars[p] = (self.n + 48, '0123456789')
        e.digits.add(p)
        return p


class DigitInt(SymNum):
    """non-negative integer printed as symbolic digits"""
    __slots__ = ()

    def __add__(self, o):
        r = SymNum.__add__(self, o)
        return DigitInt(r.n, r.d) if isinstance(r, SymNum) else r

    __radd__ = __add__

    def __str__(self):
        return ''.join(str(x) for x in digits(SymNum(self.n)))


def digits(n):
    """digits of a non-negative symbolic integer, most significant first"""
    if not isinstance(n, SymNum):
        return [int(c) for c in str(int(n))]
    N = 1
    while bool(n >= 10 ** N):
        N += 1
        if N > MAXD:
            raise core.Unsupported('number with too many digits') if hasattr(core, 'Unsupported') else ValueError('too many digits')
    ds = [fresh_int('dig') for _ in range(N)]
    t = z3.IntVal(0)
    for d in ds:
        t = t * 10 + d
    e = core.ENGINE
    c = z3.And(*([n.n == z3.Sum([d * 10 ** (N - 1 - i) for i, d in enumerate(ds)])] + [z3.And(d >= 0, d <= 9) for d in ds]))
    for d in ds:
        e.define(c, d)
    return [Digit(d) for d in ds]


def number(s):
    """value of a text of symbolic digits with optional sign and point; None if it is not one"""
    e = core.ENGINE
    t = s.strip(' ')
    if not any(ch in e.digits for ch in t):
        return None
    plain = ''.join('0' if ch in e.digits else ch for ch in t)
    m = re.fullmatch(r'([+-]?)(\d*)(\.?)(\d*)', plain)
    if not m or not (m.group(2) or m.group(4)):
        return None
    v = None
    for ch in t:
        if ch in '+-.':
            continue
        d = SymNum(e.chars[ch][0] - 48) if ch in e.chars else int(ch)
        v = d if v is None else v * 10 + d
    if m.group(1) == '-':
        v = -v
    return v, len(m.group(4)), bool(m.group(3))


def parse(s, kind):
    r = number(s)
    if r is None:
        raise ValueError('could not convert string to number: %r' % s)
    v, dp, point = r
    if kind == 'i':
        if point:
            raise ValueError('invalid literal for int()')
        return DigitInt(v.n) if isinstance(v, SymNum) else v
    return v / 10 ** dp if dp else (v.real_() if isinstance(v, SymNum) else float(v))


class Dec(SymNum):
    """real value n 10^-q, with the digits of n"""
    __slots__ = ('m', 'q')

    def __init__(self, m, q):
        v = m / 10 ** q if q > 0 else (m * 10 ** -q).real_()
        SymNum.__init__(self, v.n, v.d)
        self.m, self.q = m, q

    def _digits(self):
        e = core.ENGINE
        k = ('digits', self.m.n.get_id(), self.q)
        c = e.tokvals
        if k not in c:
            neg = bool(self.m < 0)
            if bool(core.mkbool(self.m.n == 0)):
                c[k] = (0, [0], 0, self.m)
            else:
                c[k] = (1 if neg else 0, digits(-self.m if neg else self.m), -self.q, self.m)
        return c[k][:3]

    def adjusted(self):
        s, d, x = self._digits()
        return len(d) - 1 + x

    def as_tuple(self):
        s, d, x = self._digits()
        return decimal.DecimalTuple(s, tuple(d), x)

    def fixed(self, prec):
        """text with prec digits after the point"""
        s, d, x = self._digits()
        if prec >= self.q:
            m = self.m * 10 ** (prec - self.q)
        else:
            f = 10 ** (self.q - prec)
            r = fresh_int('fix')
            core.ENGINE.define(z3.And(2 * (self.m.n - r * f) <= f, 2 * (r * f - self.m.n) <= f), r)
            m = SymNum(r)
        neg = bool(m < 0)
        t = ''.join(str(c) for c in digits(-m if neg else m))
        t = t.rjust(prec + 1, '0')
        return ('-' if neg or s else '') + (t[:-prec] + '.' + t[-prec:] if prec else t)


def make(x):
    if isinstance(x, Dec):
        return x
    if isinstance(x, SymBool):
        x = x.asnum()
    if isinstance(x, SymNum):
        q = q_of()
        e = core.ENGINE
        k = ('dec', x.n.get_id(), None if x.d is None else x.d.get_id())
        if k not in e.tokvals:
            if x.is_int:
                m, q = x, 0
            else:
                n = fresh_int('dec')
                e.define(core.tobool(SymNum(n) == x * 10 ** q), n)
                m = SymNum(n)
            e.tokvals[k] = (Dec(m, q), x)
        return e.tokvals[k][0]
    return decimal.Decimal(x)


def power(b):
    """b = 10^p up to rounding"""
    p = round(math.log10(float(b)))
    if abs(float(b) / 10. ** p - 1) > 1e-9:
        raise ValueError('product of symbolic decimal numbers')
    return p


class Context:
    def __init__(self, real):
        self.__dict__['real'] = real

    def __setattr__(self, n, v):
        setattr(self.real, n, v)

    def multiply(self, a, b):
        if isinstance(a, Dec) or isinstance(b, Dec):
            if not isinstance(a, Dec):
                a, b = b, a
            return Dec(a.m, a.q - power(b))
        return self.real.multiply(a, b)

    def divide(self, a, b):
        if isinstance(a, Dec):
            return Dec(a.m, a.q + power(b))
        return self.real.divide(a, b)

    def __getattr__(self, n):
        return getattr(self.real, n)


class Proxy:
    def __getattr__(self, n):
        if n == 'Decimal':
            return make
        if n == 'getcontext':
            return lambda: Context(decimal.getcontext())
        if n == 'Context':
            return lambda *a, **k: Context(decimal.Context(*a, **k))
        return getattr(decimal, n)


PROXY = Proxy()


def integer_ratio(x):
    d = make(x)
    return d.m, 10 ** d.q
