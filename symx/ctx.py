"""Harness contexts.  The same scenario code runs symbolically (SymCtx) and concretely (ConCtx, replay)."""
import math
from fractions import Fraction
import numpy as np
from symx import core, arr, sstr
from symx.core import SymNum, SymBool, Sym, z3, mkbool, tobool, isnum

RTOL = 1e-7
ATOL = 1e-9


class CheckFailed(Exception):
    pass


class Skip(Exception):
    """concrete inputs outside the preconditions"""


class Base:
    symbolic = False

    # logic, both modes
    def and_(self, *xs):
        xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        r = True
        for x in xs:
            r = arr._and(r, x)
        return r

    def or_(self, *xs):
        xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        r = False
        for x in xs:
            r = arr._or(r, x)
        return r

    def not_(self, x):
        return arr._not(x)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def sum(self, xs, start=0):
        for x in xs:
            start = start + x
        return start

    def max(self, *xs):
        xs = list(xs[0]) if len(xs) == 1 else list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = core.smax(r, x)
        return r

    def min(self, *xs):
        xs = list(xs[0]) if len(xs) == 1 else list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = core.smin(r, x)
        return r

    def all_eq(self, xs, ys):
        """same length/shape and elementwise equal"""
        if np.shape(xs) != np.shape(ys):
            return False
        fx = list(arr.flat_items(xs)) if not isinstance(xs, (list, tuple)) or np.ndim(xs) != 1 else list(xs)
        fy = list(arr.flat_items(ys)) if not isinstance(ys, (list, tuple)) or np.ndim(ys) != 1 else list(ys)
        if len(fx) != len(fy):
            return False
        return self.and_([self.eq(a, b) for a, b in zip(fx, fy)])

    def check_eq(self, a, b, label):
        self.check(self.eq(a, b), label, (a, b))

    def near(self, a, b):
        """equal up to rounding of the coefficients of polynomials in the inputs"""
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        from symx import fft
        return fft.near(a, b)

    def check_all_near(self, xs, ys, label):
        xs, ys = list(np.asarray(xs).reshape(-1)), list(np.asarray(ys).reshape(-1))
        self.check(len(xs) == len(ys), label + ': size', (len(xs), len(ys)))
        if len(xs) == len(ys):
            for a, b in zip(xs, ys):
                self.check(self.near(a, b), label, (a, b))

    def check_all_eq(self, xs, ys, label):
        if np.shape(xs) != np.shape(ys):
            self.check(False, label + ' [shape %s != %s]' % (np.shape(xs), np.shape(ys)))
            return
        self.check(self.all_eq(xs, ys), label, (xs, ys))

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def ints(self, name, n, lo, hi):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def matrix(self, name, r, c, lo=None, hi=None):
        return [[self.real('%s%d_%d' % (name, i, j), lo, hi) for j in range(c)] for i in range(r)]

    def bools(self, name, n):
        return [self.bool('%s%d' % (name, i)) for i in range(n)]

    def raises(self, fn, exc=Exception):
        """run fn; returns (value, None) or (None, exception)"""
        try:
            return fn(), None
        except exc as e:
            return None, e


class SymCtx(Base):
    symbolic = True

    def __init__(self, engine):
        self.e = engine
        engine.ctx = self
        engine.ctx_fresh = self.nondet
        self.nnd = 0

    def real(self, name, lo=None, hi=None, strict_lo=None):
        v = z3.Real(name)
        self.e.inputs[name] = ('real', v)
        s = SymNum(v)
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        if strict_lo is not None:
            self.assume(s > strict_lo)
        return s

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.e.inputs[name] = ('int', v)
        s = SymNum(v)
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def exact_logs(self):
        """from now on, exponentials of logarithms are simplified"""
        self.e.loginv = True

    def logreal(self, name):
        """a real L whose exponential is a symbol of its own, so exp is an exact homomorphism on integer combinations"""
        L = self.real(name)
        x = z3.Real('exp!' + name)
        cs = [x > 0, (x > 1) == (L.n > 0), (x == 1) == (L.n == 0)]
        for v, ev in self.e.logatoms.values():
            cs += [(v < L.n) == (ev.n < x), (v == L.n) == (ev.n == x)]
        self.e.define(z3.And(*cs))
        self.e.logatoms[L.n.get_id()] = (L.n, SymNum(x))
        return L

    def bool(self, name):
        v = z3.Bool(name)
        self.e.inputs[name] = ('bool', v)
        return SymBool(v)

    def choice(self, name, n):
        """concrete int in [0,n) chosen by forking"""
        return int(self.int(name, 0, n - 1))

    def nondet(self, base, lo, hi):
        """environment value (clock, randomness): in [lo, hi)"""
        self.nnd += 1
        v = self.real('%s_%d' % (base, self.nnd), lo)
        self.assume(v < hi)
        return v

    def str(self, name, n, alphabet):
        """text of n symbolic characters out of alphabet"""
        return sstr.new(name, n, alphabet)

    def pin(self, s):
        """text with every symbolic character decided (by branching): for dictionary keys"""
        return sstr.full(s)

    def array(self, x, dtype=float):
        return arr.mkarray(x, dtype, force_obj=True)

    def iarray(self, x):
        return arr.mkarray(x, int)

    def dec(self, name, lo, hi, q):
        """any multiple of 10^-q from lo to hi (both in units of 10^-q)"""
        self.e.decq = q
        return (self.int(name, lo, hi) / 10 ** q)

    def number(self, s):
        """(value, decimals) of the text of a number"""
        from symx import dec
        r = dec.number(s)
        if r is None:
            return float(s), len(s.split('.')[1]) if '.' in s else 0
        return r[0] / 10 ** r[1], r[1]

    def put(self, x, digits=7):
        """text of a number as other programs write it"""
        from symx import text
        return text.put(x, ('E', digits)) if isinstance(x, core.SymNum) else '%.*E' % (digits, x)

    def value(self, s):
        """number of the text of a number"""
        from symx import text
        return text.parse(s, 'f') if '<~' in s else float(s)

    def table(self, path, rows, header=None):
        """a text file of numbers"""
        from symx import files
        files.put(path, rows, header)

    def assume(self, c):
        self.e.assume(c)

    def eq(self, a, b):
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if isnum(a) and isnum(b):
            return con_eq(a, b)
        if isinstance(a, (str, list, tuple, dict)):
            return sstr.deep_eq(a, b)
        r = (a == b)
        if isinstance(r, np.bool_):
            r = bool(r)
        return r

    def le(self, a, b):
        if isnum(a) and isnum(b):
            return con_le(a, b)
        return a <= b

    def lt(self, a, b):
        return a < b

    def check(self, c, label, vals=None):
        self.e.stats.checks += 1
        c = tobool(c)
        self.e.activate(c)
        self.e.checks.append((label, c))

    def observe(self, name, v):
        for x in arr.flat_items(v):
            if isinstance(x, SymNum):
                self.e.activate(x.n)
                if x.d is not None:
                    self.e.activate(x.d)
            elif isinstance(x, SymBool):
                self.e.activate(x.e)
        self.e.observed.append((name, v))

    def sqrt(self, x):
        return core.sqrt(x)

    def exp(self, x):
        return core.ufun('exp', x)

    def log(self, x):
        return core.ufun('log', x)

    def cut(self, reason):
        raise core.Cut(reason)


def con_eq(a, b):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ATOL + RTOL * max(abs(a), abs(b))


def con_le(a, b):
    a, b = float(a), float(b)
    return a <= b + ATOL + RTOL * max(abs(a), abs(b))


class ConCtx(Base):
    def __init__(self, values, strict=False):
        self.values = values
        self.failed = []
        self.observed = []
        self.nnd = 0
        self.default = None

    def _get(self, name, d):
        return self.values.get(name, d)

    def real(self, name, lo=None, hi=None, strict_lo=None):
        v = float(self._get(name, 0.0))
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo or 0))

    def exact_logs(self):
        pass

    def logreal(self, name):
        return self.real(name)

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, n):
        return int(self._get(name, 0))

    def nondet(self, base, lo, hi):
        self.nnd += 1
        return float(self._get('%s_%d' % (base, self.nnd), lo))

    def pin(self, s):
        return s

    def str(self, name, n, alphabet):
        return ''.join(chr(int(self._get('%s_%d' % (name, i), ord(alphabet[0])))) for i in range(n))

    def array(self, x, dtype=float):
        return np.array(x, dtype=float)

    def iarray(self, x):
        return np.array(x, dtype=int)

    def dec(self, name, lo, hi, q):
        return self.int(name, lo, hi) / 10 ** q

    def number(self, s):
        return float(s), len(s.split('.')[1]) if '.' in s else 0

    def put(self, x, digits=7):
        return '%.*E' % (digits, x)

    def value(self, s):
        return float(s)

    def table(self, path, rows, header=None):
        from symx import files
        files.put_real(path, rows, header)

    def assume(self, c):
        if not c:
            raise Skip()

    def eq(self, a, b):
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if isnum(a) and isnum(b):
            return con_eq(a, b)
        return a == b

    def le(self, a, b):
        return con_le(a, b)

    def lt(self, a, b):
        return a < b + ATOL

    def check(self, c, label, vals=None):
        if not c:
            self.failed.append((label, repr(vals) if vals is not None else ''))

    def observe(self, name, v):
        self.observed.append((name, v))

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x) if x < 700 else math.inf

    def log(self, x):
        return math.log(x)

    def cut(self, reason):
        raise Skip()
