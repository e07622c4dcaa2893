"""Discrete Fourier / cosine transforms of symbolic data: linear maps whose matrices are computed by the real routines from unit
vectors. Their entries are floating-point, so results built from them are compared coefficient by coefficient (near)."""
import itertools
from fractions import Fraction
import numpy as np
from scipy import fftpack
from symx import core, arr
from symx.core import Sym, SymNum
from symx.z3load import z3

_cache = {}


def matrix(key, fn, n):
    if key not in _cache:
        _cache[key] = [fn(np.eye(n)[i]) for i in range(n)]
    return _cache[key]


def lin(cols, x):
    """sum_i x_i cols_i, entries below rounding dropped"""
    m = np.array(cols)
    out = []
    for j in range(m.shape[1]):
        t = 0
        for i, v in enumerate(x):
            k = float(m[i, j])
            if abs(k) > 1e-12:
                r = round(k)
                t = t + v * (r if abs(k - r) < 1e-12 else k)
        out.append(t)
    return out


def _x(x):
    return list(np.asarray(x).reshape(-1))


def _prep(x, n):
    """truncate or zero-pad"""
    x = _x(x)
    return x[:n] + [0.] * max(0, n - len(x))


def _sized(real):
    def f(x, n=None, overwrite_x=False, **k):
        if not arr.has_sym(x):
            return arr.S(real(np.asarray(x, dtype=float), n=n, **k))
        n = int(n or np.size(x))
        return arr.mkarray(lin(matrix((real.__name__, n), lambda e: real(e), n), _prep(x, n)))

    return f


def _typed(real):
    def f(x, type=2, n=None, axis=-1, norm=None, overwrite_x=False):
        if not arr.has_sym(x):
            return arr.S(real(np.asarray(x, dtype=float), type=type, n=n, norm=norm))
        n = int(n or np.size(x))
        return arr.mkarray(lin(matrix((real.__name__, type, norm, n), lambda e: real(e, type=type, norm=norm), n), _prep(x, n)))

    return f


class CArr:
    """complex array of symbolic numbers (real and imaginary parts as flat lists)"""
    __array_priority__ = 1000

    def __init__(self, re, im, shape):
        self.re, self.im, self.shape = re, im, shape

    @staticmethod
    def of(o):
        if isinstance(o, CArr):
            return o
        a = np.asarray(o)
        if a.dtype == object:
            return CArr(list(a.reshape(-1)), [0] * a.size, a.shape)
        return CArr([float(v) for v in a.real.reshape(-1)], [float(v) for v in a.imag.reshape(-1)], a.shape)

    def __mul__(self, o):
        o = CArr.of(o)
        assert o.shape == self.shape
        re = [a * c - b * d for a, b, c, d in zip(self.re, self.im, o.re, o.im)]
        im = [a * d + b * c for a, b, c, d in zip(self.re, self.im, o.re, o.im)]
        return CArr(re, im, self.shape)

    __rmul__ = __mul__

    def conj(self):
        return CArr(self.re, [-v for v in self.im], self.shape)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if ufunc is np.multiply:
            return CArr.of(inputs[0]) * CArr.of(inputs[1])
        return NotImplemented


def rfft(x, n=None, *a, **k):
    if not arr.has_sym(x):
        return np.fft.rfft(np.asarray(x, dtype=float), n)
    n = int(n or np.size(x))
    cols = matrix(('nprfft', n), np.fft.rfft, n)
    x = _prep(x, n)
    return CArr(lin([c.real for c in cols], x), lin([c.imag for c in cols], x), (n // 2 + 1,))


def irfft(x, n=None, *a, **k):
    if not isinstance(x, CArr):
        return arr.S(np.fft.irfft(x, n))
    m = x.shape[0]
    n = int(n or 2 * (m - 1))
    cr = matrix(('npirfft', m, n), lambda e: np.fft.irfft(e, n), m)
    ci = matrix(('npirffti', m, n), lambda e: np.fft.irfft(1j * e, n), m)
    return arr.mkarray(lin(list(cr) + list(ci), x.re + x.im))


def rfftn(x, s=None, *a, **k):
    if not arr.has_sym(x):
        return np.fft.rfftn(np.asarray(x, dtype=float), s)
    o = np.asarray(x)
    s = tuple(int(v) for v in (s if s is not None else o.shape))
    used = list(itertools.product(*[range(min(p, q)) for p, q in zip(o.shape, s)]))

    def unit(ix):
        key = ('rfftn', s, ix)
        if key not in _cache:
            e = np.zeros(s)
            e[ix] = 1
            _cache[key] = np.fft.rfftn(e)
        return _cache[key]

    cols = [unit(ix) for ix in used]
    v = [o[ix] for ix in used]
    return CArr(lin([c.real.reshape(-1) for c in cols], v), lin([c.imag.reshape(-1) for c in cols], v), cols[0].shape)


def irfftn(x, s=None, *a, **k):
    if not isinstance(x, CArr):
        return arr.S(np.fft.irfftn(x, s))
    s = tuple(int(v) for v in s)
    m = int(np.prod(x.shape))

    def f(e):
        return np.fft.irfftn(e.reshape(x.shape), s).reshape(-1)

    cr = matrix(('irfftn', x.shape, s), f, m)
    ci = matrix(('irfftni', x.shape, s), lambda e: f(1j * e), m)
    return arr.mkarray(lin(list(cr) + list(ci), x.re + x.im)).reshape(s)


NPFFT = arr.Wrapper(np.fft, dict(rfft=rfft, irfft=irfft, rfftn=rfftn, irfftn=irfftn))
FFTPACK = arr.Wrapper(fftpack, dict(rfft=_sized(fftpack.rfft), irfft=_sized(fftpack.irfft), dct=_typed(fftpack.dct),
                                    idct=_typed(fftpack.idct)))


def poly(e):
    """z3 real term without division by variables -> {monomial (sorted tuple of names): coefficient}; None if not a polynomial"""
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        k = t.decl().kind()
        ch = t.children()
        if core.is_val(t):
            v = core.val(t)
            r = {(): v} if v else {}
        elif k == z3.Z3_OP_ADD:
            r = {}
            for x in ch:
                p = go(x)
                if p is None:
                    return None
                for m, v in p.items():
                    r[m] = r.get(m, 0) + v
        elif k == z3.Z3_OP_SUB:
            r = dict(go(ch[0]))
            for x in ch[1:]:
                for m, v in go(x).items():
                    r[m] = r.get(m, 0) - v
        elif k == z3.Z3_OP_UMINUS:
            r = {m: -v for m, v in go(ch[0]).items()}
        elif k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for x in ch:
                p = go(x)
                q = {}
                for m, v in r.items():
                    for m2, v2 in p.items():
                        mm = tuple(sorted(m + m2))
                        q[mm] = q.get(mm, 0) + v * v2
                r = q
        elif k == z3.Z3_OP_DIV and core.is_val(ch[1]):
            d = core.val(ch[1])
            r = {m: v / d for m, v in go(ch[0]).items()}
        elif k == z3.Z3_OP_TO_REAL:
            r = go(ch[0])
        elif k == z3.Z3_OP_POWER and core.is_val(ch[1]) and core.val(ch[1]) in (1, 2, 3, 4):
            b = go(ch[0])
            r = {(): Fraction(1)}
            for _ in range(int(core.val(ch[1]))):
                q = {}
                for m, v in r.items():
                    for m2, v2 in b.items():
                        mm = tuple(sorted(m + m2))
                        q[mm] = q.get(mm, 0) + v * v2
                r = q
        else:
            nm = 't%d' % i
            atoms[nm] = t
            r = {(nm,): Fraction(1)}
        memo[i] = r
        return r

    atoms = {}
    keep.append(e)
    return go(e), atoms


keep = []


def near(a, b, tol=1e-9):
    """a == b up to rounding errors in the coefficients of the two polynomials"""
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return abs(float(a) - float(b)) <= 1e-7 * (1 + abs(float(b)))
    n1, d1 = core.parts(a)
    n2, d2 = core.parts(b)
    one = z3.RealVal(1)
    R = core.toreal
    d1, d2 = one if d1 is None else R(d1), one if d2 is None else R(d2)
    # numerators over the common denominator
    p, at = poly(R(n1) * d2 - R(n2) * d1)
    scale = max([abs(v) for v in poly(R(n1) * d2)[0].values()] + [abs(v) for v in poly(R(n2) * d1)[0].values()] + [Fraction(1, 10 ** 6)])
    t = z3.RealVal(0)
    for m, v in p.items():
        if abs(v) > tol * scale:
            q = z3.RealVal(str(v))
            for x in m:
                q = q * R(at[x])
            t = t + q
    return core.mkbool(z3.simplify(t) == 0)
