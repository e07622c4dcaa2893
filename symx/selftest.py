"""Checks the engine itself: the numpy models agree with numpy on constrained symbols, and z3 answers."""
import numpy as np
from symx import core, arr, load
from symx.core import z3


def sym(x):
    """array of fresh symbols constrained to the values of x"""
    e = core.ENGINE
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        e.fresh += 1
        v = z3.Real('t%d' % e.fresh)
        e.assume(v == z3.RealVal(repr(float(x[i]))))
        out[i] = core.SymNum(v)
    return arr.mkarray(out.tolist(), float, force_obj=True)


CASES = [
    ('sum', lambda np_, a, b: np_.sum(a * b)), ('dot', lambda np_, a, b: np_.dot(a, b)),
    ('cumsum', lambda np_, a, b: np_.cumsum(a)), ('argsort', lambda np_, a, b: np_.argsort(a)),
    ('where', lambda np_, a, b: np_.where(a > b)[0]), ('max', lambda np_, a, b: np_.max(a)),
    ('argmin', lambda np_, a, b: np_.argmin(b)), ('searchsorted', lambda np_, a, b: np_.searchsorted(np_.sort(a), b)),
    ('outer', lambda np_, a, b: np_.outer(a, b)), ('clip', lambda np_, a, b: np_.clip(a, 1.5, 3)),
    ('mask', lambda np_, a, b: a[a > 2]), ('abs', lambda np_, a, b: np_.abs(a - b)),
    ('floor', lambda np_, a, b: np_.floor(a)), ('mean', lambda np_, a, b: np_.mean(a)),
    ('vstack', lambda np_, a, b: np_.vstack([a, b])), ('c_', lambda np_, a, b: np_.c_[a, b]),
    ('bincount', lambda np_, a, b: np_.bincount(np_.array([0, 2, 1, 2]), weights=a)),
    ('diff', lambda np_, a, b: np_.diff(a)), ('nonzero', lambda np_, a, b: np_.nonzero(a > 3)[0]),
]


def value(x):
    if isinstance(x, core.SymNum):
        m = core.ENGINE.model_or_check()
        n = m.eval(x.n, model_completion=True)
        d = m.eval(x.d, model_completion=True) if x.d is not None else None
        return float(core.val(n)) / (float(core.val(d)) if d is not None else 1)
    return float(x)


def main():
    a, b = np.array([1.25, 4.5, 2.0, 3.75]), np.array([2.5, 1.0, 2.25, -1.0])
    bad = 0
    for name, f in CASES:
        want = np.asarray(f(np, a, b), dtype=float)
        eng = core.Engine()
        core.set_engine(eng)
        eng.start([], None)
        got = f(arr.NP, sym(a), sym(b))
        got = np.array([value(x) for x in arr.flat_items(got)]).reshape(want.shape)
        if not np.allclose(want, got):
            print('selftest: model of numpy.%s differs' % name, want, got)
            bad = 1
    core.set_engine(None)
    print('selftest', 'failed' if bad else 'ok', 'z3', z3.get_version_string())
    return bad
