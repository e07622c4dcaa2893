"""Interpolating splines with symbolic ordinates: on fixed knots the interpolant is linear in the ordinates, so its value at
a point is a linear combination whose coefficients are computed by the real scipy from unit vectors."""
from fractions import Fraction
import numpy as np
from scipy import interpolate as si
from symx import core, arr
from symx.core import Sym

_cache = {}


def clean(a):
    return np.round(np.asarray(a, dtype=float), 13) + 0.0


def concrete(a):
    a = np.asarray(a)
    return not arr.has_sym(a)


def fl(a):
    return np.array([float(v) for v in np.asarray(a).reshape(-1)])


class Spl:
    def __init__(self, x, y, k):
        self.x = fl(x)
        self.y = list(np.asarray(y).reshape(-1))
        self.k = k

    def coef(self, v, der, ext):
        key = (tuple(self.x), tuple(v), der, ext, self.k)
        if key not in _cache:
            n = len(self.x)
            M = []
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1
                M.append(si.splev(v, si.splrep(self.x, e, s=0, k=self.k), der, ext))
            _cache[key] = clean(M)
        return _cache[key]


def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, **kw):
    if concrete(y) and concrete(x):
        return si.splrep(fl(x), fl(y), k=k, s=s, **kw)
    if w is not None or s not in (0, None) or not concrete(x):
        core.ENGINE.note_conc('splrep')
        return si.splrep(fl(x), fl(y), s=s, k=k)
    return Spl(x, y, k)


def splev(x, tck, der=0, ext=0):
    if not isinstance(tck, Spl):
        if concrete(x):
            return arr.mkarray(si.splev(np.asarray(x, dtype=float), tck, der, ext), float)
        core.ENGINE.note_conc('splev')
        return arr.mkarray(si.splev(fl(x), tck, der, ext), float)
    a = np.asarray(x)
    if concrete(x):
        M = tck.coef(fl(a), der, ext)
        out = []
        for j in range(M.shape[1]):
            r = 0
            for i in range(M.shape[0]):
                if M[i, j] != 0:
                    r = r + tck.y[i] * (int(M[i, j]) if M[i, j] == int(M[i, j]) else float(M[i, j]))
            out.append(r)
    else:
        out = [point(tck, v, der, ext) for v in a.reshape(-1)]
    return arr.mkarray(np.array(out, dtype=object).reshape(a.shape).tolist(), float, force_obj=True)


def point(tck, v, der, ext):
    """value at a symbolic position: branch on the knot interval, then a polynomial"""
    n = len(tck.x)
    if v < tck.x[0] or v > tck.x[-1]:
        if ext == 1:
            return 0
    key = ('pp', tuple(tck.x), tck.k, der)
    if key not in _cache:
        ps = []
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1
            p = si.PPoly.from_spline(si.splrep(tck.x, e, s=0, k=tck.k))
            ps.append(p.derivative(der) if der else p)
        _cache[key] = ps
    ps = _cache[key]
    br = ps[0].x
    iv = [j for j in range(len(br) - 1) if br[j + 1] > br[j]]
    for j in iv[:-1]:
        if v < br[j + 1]:
            break
    else:
        j = iv[-1]
    d = v - float(br[j])
    r = 0
    m = ps[0].c.shape[0]
    for q in range(m):
        co = 0
        for i in range(n):
            cf = float(np.round(ps[i].c[q, j], 13))
            if cf:
                co = co + tck.y[i] * cf
        r = r * d + co
    return r


class RectBivariateSpline:
    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        z = np.asarray(z)
        self.sym = arr.has_sym(z)
        self.x, self.y = fl(x), fl(y)
        self.kx, self.ky = kx, ky
        if not self.sym:
            self.real = si.RectBivariateSpline(self.x, self.y, z.astype(float), kx=kx, ky=ky, s=s)
        self.z = z

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        xa, ya = fl(x), fl(y)
        if not self.sym:
            return arr.mkarray(self.real(xa, ya, dx, dy, grid), float)
        sx, sy = Spl(self.x, np.zeros(len(self.x)), self.kx), Spl(self.y, np.zeros(len(self.y)), self.ky)
        A, B = sx.coef(xa, dx, 0), sy.coef(ya, dy, 0)

        def val(i, j):
            r = 0
            for a in range(A.shape[0]):
                for b in range(B.shape[0]):
                    cf = float(np.round(A[a, i] * B[b, j], 13))
                    if cf:
                        r = r + self.z[a, b] * (int(cf) if cf == int(cf) else cf)
            return r

        if grid:
            out = [[val(i, j) for j in range(len(ya))] for i in range(len(xa))]
        else:
            out = [val(i, i) for i in range(len(xa))]
            if np.ndim(x) == 0:
                return out[0]
        return arr.mkarray(out, float, force_obj=True)

    def ev(self, x, y, dx=0, dy=0):
        return self(x, y, dx, dy, grid=False)


TABLE = {id(si.splrep): splrep, id(si.splev): splev, id(si.RectBivariateSpline): RectBivariateSpline}
