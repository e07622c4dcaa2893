"""numpy arrays of symbolic values: an ndarray subclass (object dtype where symbolic) plus a numpy module proxy.

Structural operations (slicing, reshaping, broadcasting, dot, sums, cumulative sums, sorting, searching) are
numpy's own, run on Python objects; comparisons give arrays of symbolic booleans; selections by symbolic
masks/indices fork; min/max/abs/where/clip merge with if-then-else."""
import math
import operator
import types
import numpy as np
from symx import core
from symx.core import (Sym, SymNum, SymBool, ite, smax, smin, isnum, isspecial, mkbool, tobool, z3, Fraction)


def has_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, np.ndarray):
        if dt(a) != object:
            return False
        return any(isinstance(x, Sym) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def S(a):
    """view as SArr"""
    if isinstance(a, SArr):
        return a
    if isinstance(a, np.ndarray):
        return a.view(SArr)
    return a


_DT = np.ndarray.dtype.__get__


def dt(x):
    return _DT(x) if isinstance(x, np.ndarray) else x.dtype


def plain(a):
    if isinstance(a, SArr):
        return a.view(np.ndarray)
    return a


def obj(a):
    """to plain object ndarray"""
    if isinstance(a, np.ndarray):
        p = plain(a)
        return p if dt(p) == object else tolist_obj(p)
    if isinstance(a, Sym) or isnum(a) or a is None or isinstance(a, str):
        r = np.empty((), dtype=object)
        r[()] = a.item() if isinstance(a, np.generic) else a
        return r
    if isinstance(a, (list, tuple)):
        return plain(mkarray(a))
    return np.asarray(a, dtype=object)


def tolist_obj(p):
    r = np.empty(p.shape, dtype=object)
    if p.ndim == 0:
        r[()] = p.item()
    else:
        r[...] = p  # numpy converts to python scalars
    return r


def nested_shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if not len(x):
            return (0,)
        s = [nested_shape(y) for y in x]
        if any(t != s[0] for t in s):
            raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
        return (len(x),) + s[0]
    return ()


def flat_items(x):
    if isinstance(x, np.ndarray):
        for y in plain(x).flat:
            yield y.item() if isinstance(y, np.generic) else y
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from flat_items(y)
    else:
        yield x.item() if isinstance(x, np.generic) else x


def mkarray(x, dtype=None, force_obj=False):
    """np.array for nested sequences with symbolic leaves"""
    if hasattr(x, '__iter__') and not isinstance(x, (list, tuple, np.ndarray, str, dict, set)) and not isinstance(x, Sym):
        if not hasattr(x, '__array__') and not hasattr(x, '__len__'):
            return S(np.array(x))
        if isinstance(x, (range,)) or type(x).__name__ in ('dict_values', 'dict_keys'):
            x = list(x)
        elif hasattr(x, '__array__'):
            x = np.asarray(x)
    if not force_obj and not has_sym(x):
        try:
            r = np.array(plain(x) if isinstance(x, np.ndarray) else
                         ([plain(y) for y in x] if isinstance(x, (list, tuple)) else x), dtype=real_dtype(dtype))
        except Exception:
            raise
        if dt(r).kind == 'f' or (dt(r) == object and not dtype):
            return S(tolist_obj(r) if dt(r) != object else r)
        return S(r)
    shape = nested_shape(x)
    r = np.empty(shape, dtype=object)
    items = list(flat_items(x))
    k = dkind(dtype)
    if k:
        items = [conv(i, k) for i in items]
    if shape == ():
        r[()] = items[0]
    else:
        rf = r.reshape(-1)
        for i, it in enumerate(items):
            rf[i] = it
        r = rf.reshape(shape)
    return S(r)


def real_dtype(d):
    return getattr(d, 'sx_real', d)


def dkind(dtype):
    if dtype is None or dtype is object:
        return None
    try:
        return np.dtype(real_dtype(dtype)).kind
    except TypeError:
        return None


def conv(x, kind):
    if isinstance(x, Sym):
        if kind == 'f':
            return x.asnum().real_() if isinstance(x, SymBool) else x.real_()
        if kind in 'iu':
            return x.asnum() if isinstance(x, SymBool) else core.trunc(x)
        if kind == 'b':
            return mkbool(tobool(x))
        return x
    if isinstance(x, np.generic):
        x = x.item()
    if kind == 'f' and isnum(x) and not isinstance(x, Fraction):
        return float(x)
    if kind in 'iu' and isnum(x):
        return int(x)
    if kind == 'b':
        return bool(x)
    return x


# ---------------------------------------------------------------- elementwise functions
def _cmpf(op):
    def f(a, b):
        r = op(a, b)
        if isinstance(r, np.bool_):
            return bool(r)
        return r

    return np.frompyfunc(f, 2, 1)


def _isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def _isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def _un(name):
    def f(x):
        if isinstance(x, SymBool):
            x = x.asnum()
        if isinstance(x, Sym):
            if name == 'sqrt':
                return core.sqrt(x)
            return core.ufun(name, x)
        with np.errstate(all='ignore'):
            return float(getattr(np, name)(float(x)))

    return np.frompyfunc(f, 1, 1)


def _div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    with np.errstate(all='ignore'):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            return a / b
        return float(np.true_divide(a, b))


def _sign(x):
    if isinstance(x, Sym):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    return (x > 0) - (x < 0)


def _rint(x):
    return core.rint(x).real_() if isinstance(x, SymNum) else float(round(x))


def _floor(x):
    return x.floor() if isinstance(x, SymNum) else (float(math.floor(x)) if not isspecial(x) else x)


def _ceil(x):
    return x.ceil() if isinstance(x, SymNum) else (float(math.ceil(x)) if not isspecial(x) else x)


def _not(x):
    if isinstance(x, Sym):
        return mkbool(z3.Not(tobool(x)))
    return not x


def _and(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return mkbool(z3.simplify(z3.And(tobool(a), tobool(b))))
    return bool(a) and bool(b)


def _or(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return mkbool(z3.simplify(z3.Or(tobool(a), tobool(b))))
    return bool(a) or bool(b)


def _bitnot(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    return ~x


def _band(a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return _and(a, b)
    return a & b


def _bor(a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return _or(a, b)
    return a | b


def _power(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    with np.errstate(all='ignore'):
        return (float(a) ** float(b)) if isinstance(a, float) or isinstance(b, float) else a ** b


def _spec(o):
    return float(o) if isinstance(o, np.floating) else o


EL = {
    'less': _cmpf(operator.lt), 'less_equal': _cmpf(operator.le), 'greater': _cmpf(operator.gt),
    'greater_equal': _cmpf(operator.ge), 'equal': _cmpf(operator.eq), 'not_equal': _cmpf(operator.ne),
    'add': np.frompyfunc(operator.add, 2, 1), 'subtract': np.frompyfunc(operator.sub, 2, 1),
    'multiply': np.frompyfunc(operator.mul, 2, 1), 'true_divide': np.frompyfunc(_div, 2, 1),
    'divide': np.frompyfunc(_div, 2, 1),
    'floor_divide': np.frompyfunc(operator.floordiv, 2, 1), 'remainder': np.frompyfunc(operator.mod, 2, 1),
    'power': np.frompyfunc(_power, 2, 1), 'float_power': np.frompyfunc(_power, 2, 1),
    'negative': np.frompyfunc(operator.neg, 1, 1), 'positive': np.frompyfunc(operator.pos, 1, 1),
    'absolute': np.frompyfunc(abs, 1, 1), 'fabs': np.frompyfunc(abs, 1, 1),
    'square': np.frompyfunc(lambda x: x * x, 1, 1), 'reciprocal': np.frompyfunc(lambda x: _div(1, x), 1, 1),
    'sqrt': _un('sqrt'), 'exp': _un('exp'), 'log': _un('log'), 'log10': _un('log10'), 'sin': _un('sin'),
    'cos': _un('cos'),
    'sign': np.frompyfunc(_sign, 1, 1), 'rint': np.frompyfunc(_rint, 1, 1),
    'floor': np.frompyfunc(_floor, 1, 1), 'ceil': np.frompyfunc(_ceil, 1, 1),
    'maximum': np.frompyfunc(smax, 2, 1), 'minimum': np.frompyfunc(smin, 2, 1),
    'fmax': np.frompyfunc(smax, 2, 1), 'fmin': np.frompyfunc(smin, 2, 1),
    'logical_and': np.frompyfunc(_and, 2, 1), 'logical_or': np.frompyfunc(_or, 2, 1),
    'logical_not': np.frompyfunc(_not, 1, 1),
    'bitwise_and': np.frompyfunc(_band, 2, 1), 'bitwise_or': np.frompyfunc(_bor, 2, 1),
    'bitwise_xor': np.frompyfunc(operator.xor, 2, 1), 'invert': np.frompyfunc(_bitnot, 1, 1),
    'isnan': np.frompyfunc(_isnan, 1, 1), 'isinf': np.frompyfunc(_isinf, 1, 1),
    'isfinite': np.frompyfunc(lambda x: not (_isnan(x) or _isinf(x)), 1, 1),
    'clip': np.frompyfunc(lambda x, a, b: smin(smax(x, a), b), 3, 1),
    'conjugate': np.frompyfunc(lambda x: x, 1, 1),
}
IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_or': False, 'bitwise_and': True}
BOOL_OUT = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
            'logical_not', 'isnan', 'isinf', 'isfinite'}


def fin(r, boolish=False):
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            r = r.item()
            return r
        if boolish and dt(r) == object and not any(isinstance(x, Sym) for x in r.flat):
            r = r.astype(bool)
        return S(r)
    if isinstance(r, np.generic):
        return r.item()
    return r


def concrete_nd(a):
    """concretise an array argument (engine limitation, recorded)"""
    if isinstance(a, Sym):
        return float(a) if not (isinstance(a, SymNum) and a.is_int) else int(a)
    if isinstance(a, np.ndarray):
        p = plain(a)
        if dt(p) == object:
            flat = [concrete_nd(x) for x in p.flat]
            if all(isinstance(x, (int, bool)) for x in flat) and flat:
                r = np.array(flat).reshape(p.shape)
            elif all(isnum(x) for x in flat):
                r = np.array([float(x) for x in flat], dtype=float).reshape(p.shape)
            else:
                return p
            return r
        return p
    if isinstance(a, (list, tuple)):
        if has_sym(a):
            return type(a)(concrete_nd(x) for x in a)
        return a
    return a


def apply_ufunc(ufunc, method, inputs, kw):
    out = kw.pop('out', None)
    name = ufunc.__name__
    ins = [plain(x) for x in inputs]
    symbolic = any((isinstance(x, np.ndarray) and dt(x) == object) or isinstance(x, Sym) for x in ins)
    if not symbolic:
        # native data in SArr views
        if out is not None:
            kw['out'] = tuple(plain(o) for o in out)
            if any(dt(o) == object for o in kw['out'] if isinstance(o, np.ndarray)):
                kw.pop('out')
                r = getattr(ufunc, method)(*ins, **kw)
                plain(out[0])[...] = tolist_obj(np.asarray(r))
                return out[0]
            getattr(ufunc, method)(*ins, **kw)
            return out[0] if len(out) == 1 else out
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, tuple):
            return tuple(S(x) if isinstance(x, np.ndarray) else x for x in r)
        return S(r) if isinstance(r, np.ndarray) and r.ndim else r
    f = EL.get(name)
    if f is None:
        core.ENGINE.note_conc('ufunc ' + name)
        cin = [concrete_nd(x) for x in ins]
        r = getattr(ufunc, method)(*cin, **kw)
        if out is not None:
            plain(out[0])[...] = r
            return out[0]
        return fin(tolist_obj(r) if isinstance(r, np.ndarray) and r.ndim else r)
    boolish = name in BOOL_OUT
    where = kw.pop('where', True)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    if method == '__call__':
        r = f(*[obj(x) for x in ins])
        if where is not True:
            wr = obj(where)
            base = obj(out[0]) if out is not None else obj(np.zeros(np.shape(r)))
            r = ITE(*np.broadcast_arrays(wr, obj(r), base))
    elif method in ('reduce', 'accumulate'):
        a = obj(ins[0])
        if where is not True:
            w = np.broadcast_to(obj(where), a.shape)
            a = ITE(w, a, obj(IDENT[name]))
        axis = kw.get('axis', 0)
        if len(ins) > 1:
            axis = ins[1]
        keep = kw.get('keepdims', False)
        if method == 'accumulate':
            r = f.accumulate(a, axis=axis)
        else:
            if axis is None or isinstance(axis, tuple) or a.ndim == 0:
                if isinstance(axis, tuple) and len(axis) < a.ndim:
                    r = a
                    for ax in sorted([x % a.ndim for x in axis], reverse=True):
                        r = reduce1(f, name, r, ax)
                else:
                    r = reduce1(f, name, a.reshape(-1), 0)
                if keep:
                    r = np.asarray(obj(r)).reshape([1] * a.ndim)
            else:
                r = reduce1(f, name, a, axis)
                if keep:
                    r = np.expand_dims(obj(r), axis)
            init = kw.get('initial', np._NoValue)
            if init is not np._NoValue and init is not None:
                r = f(obj(init), obj(r))
    elif method == 'outer':
        a, b = obj(ins[0]), obj(ins[1])
        r = f(a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == 'at':
        a, idx = inputs[0], inputs[1]
        tgt = S(a)
        vals = obj(ins[2]) if len(ins) > 2 else None
        ii = [int(i) for i in np.ravel(obj(idx))]
        for k, i in enumerate(ii):
            if vals is None:
                tgt[i] = f(tgt[i])
            else:
                v = vals.item() if vals.ndim == 0 else vals[k % len(vals)]
                tgt[i] = f(tgt[i], v)
        return None
    else:
        raise TypeError('ufunc method %s' % method)
    if out is not None:
        o = plain(out[0])
        if dt(o) == object:
            o[...] = r
        else:
            o[...] = concrete_nd(r if isinstance(r, np.ndarray) else obj(r)) if has_sym(r) else r
        return out[0]
    return fin(r, boolish)


def reduce1(f, name, a, ax):
    n = a.shape[ax]
    if n == 0:
        if name not in IDENT:
            raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
        shp = a.shape[:ax] + a.shape[ax + 1:]
        r = np.empty(shp, dtype=object)
        r[...] = IDENT[name]
        return r if shp else IDENT[name]
    return f.reduce(a, axis=ax)


ITE = np.frompyfunc(ite, 3, 1)


def norm_key(k, n=None):
    """an index (or component of one) -> something plain numpy accepts; forks on symbolic masks and indices"""
    if isinstance(k, tuple):
        return tuple(norm_key(x) for x in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymNum):
        return k.__index__()
    if isinstance(k, slice):
        def g(x):
            if isinstance(x, SymNum):
                return x.__index__()
            return x

        return slice(g(k.start), g(k.stop), g(k.step))
    if isinstance(k, (list,)):
        if any(isinstance(x, Sym) for x in k):
            k = obj(k)
        else:
            return k
    if isinstance(k, np.ndarray):
        p = plain(k)
        if dt(p) == object:
            flat = list(p.flat)
            if not flat:
                return np.zeros(p.shape, dtype=int)
            if all(isinstance(x, (bool, np.bool_, SymBool)) for x in flat):
                return np.array([bool(x) for x in flat], dtype=bool).reshape(p.shape)
            if all(isinstance(x, (int, np.integer)) or isinstance(x, SymNum) and x.is_int for x in flat):
                return np.array([operator.index(x) for x in flat], dtype=int).reshape(p.shape)
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return p
    return k


def _symmask(key):
    return isinstance(key, np.ndarray) and dt(key) == object and \
        any(isinstance(x, SymBool) for x in key.flat)


class SArr(np.ndarray):
    @property
    def dtype(self):
        """the dtype the array would have with ordinary numbers"""
        d = _DT(self)
        if d != object or not self.size:
            return np.dtype(float) if d == object else d
        k = set()
        for x in plain(self).flat:
            if isinstance(x, SymNum):
                k.add('i' if x.is_int else 'f')
            elif isinstance(x, (SymBool, bool, np.bool_)):
                k.add('b')
            elif isinstance(x, (int, np.integer)):
                k.add('i')
            elif isinstance(x, (float, np.floating)):
                k.add('f')
            else:
                return d
        return np.dtype(float if 'f' in k else int if 'i' in k else bool)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        o = FUNC_OVERRIDES.get(func)
        if o is not None:
            return o(*args, **kwargs)
        r = super().__array_function__(func, types_, args, kwargs)
        if isinstance(r, tuple):
            return tuple(S(x) if isinstance(x, np.ndarray) else x for x in r)
        if isinstance(r, np.ndarray):
            return S(r)
        return r

    def __getitem__(self, key):
        k = norm_key(key)
        r = plain(self)[k]
        if isinstance(r, np.ndarray):
            return r.view(SArr)
        return r

    def __setitem__(self, key, value):
        p = plain(self)
        if _symmask(key) and dt(p) == object:
            # merged masked assignment
            cur = p[...] if key.ndim == p.ndim else None
            if cur is not None and (np.ndim(value) == 0):
                p[...] = ITE(plain(key), obj(value), p)
                return
        k = norm_key(key)
        if isinstance(value, SArr):
            value = plain(value)
        if dt(p) != object and has_sym(value):
            value = concrete_nd(value)
        if isinstance(value, Sym):
            tmp = np.empty((), dtype=object)
            tmp[()] = value
            if isinstance(p[k], np.ndarray):
                p[k] = tmp
            else:
                p[k] = value
            return
        if dt(p) == object and isinstance(value, np.ndarray) and dt(value) != object:
            value = tolist_obj(value)
        p[k] = value

    def astype(self, dtype, *a, **k):
        kd = dkind(dtype)
        if dt(self) != object:
            if kd == 'f':
                return S(tolist_obj(plain(self).astype(float)))
            return S(plain(self).astype(real_dtype(dtype), *a, **k))
        if kd is None:
            return self.copy()
        r = np.empty(self.shape, dtype=object)
        rf = r.reshape(-1)
        for i, x in enumerate(plain(self).reshape(-1)):
            rf[i] = conv(x, kd)
        r = rf.reshape(self.shape)
        if kd in 'iub' and not has_sym(r):
            r = r.astype(real_dtype(dtype))
        return S(r)

    def take(self, indices, axis=None, **k):
        if axis is None:
            return S(self.reshape(-1))[indices]
        return self[(slice(None),) * (axis % self.ndim) + (indices,)]

    def item(self, *a):
        return plain(self).item(*a)

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).reshape(-1)[0])
        return bool(plain(self))

    def __float__(self):
        return float(self.reshape(-1)[0]) if self.size == 1 else float(plain(self))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        s = np.add.reduce(self, axis=axis, keepdims=keepdims)
        return s / n

    def dot(self, b, out=None):
        r = s_dot(self, b)
        if out is not None:
            out[...] = r
            return out
        return r

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def searchsorted(self, v, side='left', sorter=None):
        return s_searchsorted(self, v, side, sorter)

    def tolist(self):
        return plain(self).tolist()

    def __reduce__(self):
        return plain(self).__reduce__()

    def __deepcopy__(self, memo):
        return S(plain(self).copy())

    def __contains__(self, x):
        return bool(np.any(self == x))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)

    def round(self, decimals=0, out=None):
        if decimals == 0:
            return np.rint(self)
        p = 10 ** decimals
        return np.rint(self * p) / p


# -------------------------------------------------------------- numpy function overrides
def s_dot(a, b, out=None):
    a_, b_ = obj(a), obj(b)
    if a_.ndim == 0 or b_.ndim == 0:
        return fin(EL['multiply'](a_, b_))
    if not has_sym(a_) and not has_sym(b_) and isinstance(a, np.ndarray) and isinstance(b, np.ndarray) \
            and dt(a) != object and dt(b) != object:
        return fin(np.dot(plain(a), plain(b)))
    if a_.shape[-1] == 0 or 0 in a_.shape or 0 in b_.shape:
        r = np.dot(np.zeros(a_.shape), np.zeros(b_.shape))
        return fin(tolist_obj(np.asarray(r)))
    return fin(np.dot(a_, b_))


def s_searchsorted(a, v, side='left', sorter=None):
    a_ = obj(a)
    if sorter is not None:
        a_ = a_[norm_key(sorter)]
    scalar = np.ndim(v) == 0

    def one(x):
        n = 0
        # number of elements < x (left) or <= x (right); array is sorted by contract, binary search forks
        lo, hi = 0, len(a_)
        while lo < hi:
            mid = (lo + hi) // 2
            c = (a_[mid] < x) if side == 'left' else (a_[mid] <= x)
            if bool(c):
                lo = mid + 1
            else:
                hi = mid
        return lo

    if scalar:
        x = v if not isinstance(v, np.ndarray) else v.item()
        return one(x)
    vv = obj(v)
    return S(np.array([one(x) for x in vv.reshape(-1)], dtype=int).reshape(vv.shape))


def s_where(cond, *xy):
    if not xy:
        c = norm_key(cond) if isinstance(cond, np.ndarray) else cond
        if isinstance(c, np.ndarray) and dt(c) != bool:
            c = c != 0
        return tuple(S(x) for x in np.where(c))
    r = ITE(*np.broadcast_arrays(obj(cond), obj(xy[0]), obj(xy[1])))
    return fin(r)


def s_zeros_like(a, dtype=None, *r, **k):
    return np_zeros(np.shape(a), dtype)


def np_zeros(shape, dtype=float, **k):
    return _filled(shape, 0, dtype)


def np_ones(shape, dtype=float, **k):
    return _filled(shape, 1, dtype)


def np_full(shape, v, dtype=None, **k):
    return _filled(shape, v, dtype)


def _filled(shape, v, dtype):
    if isinstance(shape, Sym):
        shape = shape.__index__()
    elif isinstance(shape, (tuple, list)):
        shape = tuple(operator.index(s) for s in shape)
    k = dkind(dtype)
    r = np.empty(shape, dtype=object)
    if k:
        v = conv(v, k) if np.ndim(v) == 0 else v
    if np.ndim(v) == 0:
        r.fill(v)
    else:
        r[...] = obj(v)
    return S(r)


def s_bincount(x, weights=None, minlength=0):
    xs = [operator.index(i) for i in obj(x).reshape(-1)]
    if xs and min(xs) < 0:
        raise ValueError("'list' argument must have no negative elements")
    n = max([minlength] + [i + 1 for i in xs])
    r = [0 if weights is None else 0.0] * n
    w = obj(weights).reshape(-1) if weights is not None else None
    if w is not None and len(w) != len(xs):
        raise ValueError("The weights and list don't have the same length.")
    for j, i in enumerate(xs):
        r[i] = r[i] + (1 if w is None else w[j])
    if weights is None:
        return S(np.array(r, dtype=int))
    o = np.empty(n, dtype=object)
    for i, v in enumerate(r):
        o[i] = v
    return S(o)


def s_det(m):
    m = obj(m)
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    t = 0
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = t + (-1) ** j * m[0, j] * s_det(minor)
    return t


def s_fill_diagonal(a, val, wrap=False):
    if not isinstance(a, SArr) or a.ndim != 2:
        return np.fill_diagonal(a, val, wrap)
    v = obj(val)
    n = min(a.shape)
    for i in range(n):
        a[i, i] = val if np.ndim(v) == 0 else v[i % len(v)]


def s_inv(m):
    m = obj(m)
    n = m.shape[0]
    if not has_sym(m):
        return S(tolist_obj(np.linalg.inv(m.astype(float))))
    d = s_det(m)
    if isinstance(d, Sym):
        if core.ENGINE.branch(tobool(d == 0)):
            raise np.linalg.LinAlgError('Singular matrix')
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = 1
            else:
                c = (-1) ** (i + j) * s_det(np.delete(np.delete(m, i, 0), j, 1))
            r[j, i] = c / d
    return S(r)


def s_cholesky(m):
    m = obj(m)
    n = m.shape[0]
    L = np.empty((n, n), dtype=object)
    L.fill(0.0)
    for i in range(n):
        for j in range(i + 1):
            s = m[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            if i == j:
                if core.ENGINE.branch(tobool(s <= 0)) if isinstance(s, Sym) else s <= 0:
                    raise np.linalg.LinAlgError('Matrix is not positive definite')
                L[i, i] = core.sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return S(L)


def s_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = operator.index(num)
    div = (num - 1) if endpoint else num
    if not has_sym(start) and not has_sym(stop):
        return S(tolist_obj(np.linspace(start, stop, num, endpoint=endpoint))) if not retstep else tuple(
            S(tolist_obj(np.asarray(x))) if np.ndim(x) else float(x)
            for x in np.linspace(start, stop, num, endpoint=endpoint, retstep=True))
    step = (stop - start) / div if div > 0 else float('nan')
    r = np.empty(num, dtype=object)
    for i in range(num):
        r[i] = start + i * (stop - start) / div if i else start
    if endpoint and num > 1:
        r[-1] = stop
    r = S(r)
    return (r, step) if retstep else r


def s_arange(*a, **k):
    if any(isinstance(x, Sym) for x in a):
        if all(isinstance(x, int) or isinstance(x, SymNum) and x.is_int for x in a):
            return S(np.arange(*[operator.index(x) for x in a]))
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1 if len(a) == 2 else a[2])
        out = []
        i = 0
        while bool((start + i * step < stop) if not (isnum(step) and step < 0) else (start + i * step > stop)):
            out.append(start + i * step)
            i += 1
        return mkarray(out, force_obj=True)
    k.pop('dtype', None) if dkind(k.get('dtype')) == 'f' else None
    if 'dtype' in k:
        k['dtype'] = real_dtype(k['dtype'])
    r = np.arange(*a, **k)
    return S(tolist_obj(r)) if dt(r).kind == 'f' else S(r)


def s_interp(x, xp, fp, left=None, right=None, period=None):
    xs = obj(x)
    xp, fp = obj(xp), obj(fp)

    def one(v):
        if bool(v <= xp[0]):
            return fp[0] if (left is None or bool(v == xp[0])) else left
        for i in range(1, len(xp)):
            if bool(v <= xp[i]):
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[-1] if right is None else right

    if xs.ndim == 0:
        return one(xs.item())
    r = np.empty(xs.shape, dtype=object)
    for i, v in enumerate(xs.reshape(-1)):
        r.reshape(-1)[i] = one(v)
    return S(r)


def s_sort(a, axis=-1, kind=None, order=None):
    if not isinstance(a, np.ndarray):
        a = mkarray(a)
    r = a.copy()
    if axis is None:
        r = r.reshape(-1)
        axis = -1
    r.sort(axis=axis)
    return S(r)


def s_argsort(a, axis=-1, kind=None, order=None):
    a = obj(a)
    if a.ndim != 1:
        return S(np.argsort(a, axis=axis, kind='stable'))
    # stable: an allowed refinement of numpy's default order of ties
    return S(np.array(sorted(range(len(a)), key=_Key(a)), dtype=int))


class _Key:
    def __init__(self, a):
        self.a = a

    def __call__(self, i):
        return _K(self.a[i])


class _K:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def s_argmax(a, axis=None, **k):
    a = obj(a)
    if axis is not None and a.ndim > 1:
        return S(np.argmax(a, axis=axis))
    a = a.reshape(-1)
    b = 0
    for i in range(1, len(a)):
        if bool(a[i] > a[b]):
            b = i
    return b


def s_argmin(a, axis=None, **k):
    a = obj(a)
    if axis is not None and a.ndim > 1:
        return S(np.argmin(a, axis=axis))
    a = a.reshape(-1)
    b = 0
    for i in range(1, len(a)):
        if bool(a[i] < a[b]):
            b = i
    return b


def s_array(x, dtype=None, copy=True, *a, **k):
    ndmin = k.get('ndmin', 0)
    r = mkarray(x, dtype)
    while r.ndim < ndmin:
        r = r[None, ...]
    return r


def s_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SArr) and dtype is None:
        return x
    if isinstance(x, SArr) and dt(x) == object and dkind(dtype) == 'f':
        return x
    return mkarray(x, dtype)


def s_cov(*a, **k):
    raise core.Cut('np.cov')


def s_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return np.all(np.abs(S(obj(a)) - S(obj(b))) <= atol + rtol * np.abs(S(obj(b))))


def s_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if np.ndim(b) == 0 and isinstance(b, float) and math.isinf(b):
        return S(obj(a)) == b
    return np.abs(S(obj(a)) - S(obj(b))) <= atol + rtol * np.abs(S(obj(b)))


def s_diag(v, k=0):
    v = S(obj(v))
    if v.ndim == 1:
        n = len(v)
        r = np_zeros((n + abs(k), n + abs(k)))
        for i in range(n):
            r[i + max(0, -k), i + max(0, k)] = v[i]
        return r
    return v.diagonal(k).copy()


def s_outer(a, b, out=None):
    a, b = obj(a).reshape(-1), obj(b).reshape(-1)
    return S(EL['multiply'](a[:, None], b[None, :]))


def s_identity(n, *a, **k):
    return S(tolist_obj(np.identity(operator.index(n))))


def s_eye(n, *a, **k):
    return S(tolist_obj(np.eye(operator.index(n), *a)))


def s_repeat(a, repeats, axis=None):
    rp = norm_key(repeats) if isinstance(repeats, (np.ndarray, SymNum)) else repeats
    return S(np.repeat(plain(S(obj(a)) if not isinstance(a, np.ndarray) else a), rp, axis=axis))


def s_average(a, axis=None, weights=None, returned=False):
    a = S(obj(a))
    if weights is None:
        return a.mean(axis)
    w = S(obj(weights))
    if w.shape != a.shape:
        w = w.reshape((-1,) + (1,) * (a.ndim - 1)) if axis == 0 else w
    return np.add.reduce(a * w, axis=axis) / np.add.reduce(w, axis=None if axis is None else axis if w.ndim > (axis or 0) else 0)


def s_trapz(y, x=None, dx=1.0, axis=-1):
    y = S(obj(y))
    if x is None:
        return np.add.reduce((y[1:] + y[:-1]) / 2) * dx
    x = S(obj(x))
    return np.add.reduce((y[1:] + y[:-1]) * (x[1:] - x[:-1])) / 2


def s_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def s_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    vals = list(obj(a).reshape(-1))
    order = sorted(range(len(vals)), key=lambda i: _K(vals[i]))  # stable
    out, first, counts, inv = [], [], [], [0] * len(vals)
    for i in order:
        if not out or not bool(out[-1] == vals[i]):
            out.append(vals[i])
            first.append(i)
            counts.append(0)
        counts[-1] += 1
        inv[i] = len(out) - 1
    res = [mkarray(out)]
    if return_index:
        res.append(S(np.array(first, dtype=int)))
    if return_inverse:
        res.append(S(np.array(inv, dtype=int)))
    if return_counts:
        res.append(S(np.array(counts, dtype=int)))
    return res[0] if len(res) == 1 else tuple(res)


class _CR:
    def __init__(self, real, col):
        self.real, self.col = real, col

    def __getitem__(self, key):
        parts_ = key if isinstance(key, tuple) else (key,)
        if not any(has_sym(p) or isinstance(p, SArr) for p in parts_):
            r = self.real[key]
            return S(r) if isinstance(r, np.ndarray) else r
        out = []
        for p in parts_:
            if isinstance(p, (slice, str)):
                p = self.real[p]
            p = obj(p)
            if self.col:
                p = p.reshape(-1, 1) if p.ndim < 2 else p
            else:
                p = p.reshape(1) if p.ndim == 0 else p
            out.append(p)
        return S(np.concatenate(out, axis=-1))


def s_einsum(spec, *ops, **k):
    k.pop('optimize', None)
    ins_, out_ = (spec.replace(' ', '').split('->') + [None])[:2]
    ins_ = ins_.split(',')
    if out_ is None:
        from collections import Counter
        c = Counter(''.join(ins_))
        out_ = ''.join(sorted(x for x in c if c[x] == 1))
    arrs = [obj(o) for o in ops]
    dims = {}
    for s, a in zip(ins_, arrs):
        for ch, n in zip(s, a.shape):
            dims[ch] = n
    summed = [ch for ch in dims if ch not in out_]
    import itertools
    r = np.empty(tuple(dims[c] for c in out_), dtype=object)
    for oi in itertools.product(*[range(dims[c]) for c in out_]):
        t = 0
        env = dict(zip(out_, oi))
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            p = 1
            for s, a in zip(ins_, arrs):
                p = p * a[tuple(env[c] for c in s)]
            t = t + p
        r[oi] = t
    return fin(r)


def _concretising(fn, name):
    def f(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            core.ENGINE.note_conc(name)
        a = [concrete_nd(x) for x in a]
        k = {kk: concrete_nd(v) for kk, v in k.items()}
        r = fn(*a, **k)
        if isinstance(r, tuple):
            return tuple(S(tolist_obj(x)) if isinstance(x, np.ndarray) and dt(x).kind == 'f' else x for x in r)
        if isinstance(r, np.ndarray) and dt(r).kind == 'f':
            return S(tolist_obj(r))
        return r

    return f


def easy_eig(fn, name, vectors):
    """1x1 and diagonal matrices exactly; eigenvalues of 2x2 exactly; others at one concrete point"""
    slow = _concretising(fn, name)

    def f(a, *r, **k):
        if not has_sym(a) or r or k or np.ndim(a) != 2 or np.shape(a)[0] != np.shape(a)[1]:
            return slow(a, *r, **k)
        m = obj(a)
        n = len(m)
        off = [m[i, j] for i in range(n) for j in range(i)]

        def zero(x):
            if isinstance(x, SymNum):
                z = core.z3.simplify(x.n)
                return core.z3.is_rational_value(z) and z.as_fraction() == 0
            return x == 0
        if all(zero(x) for x in off):
            o = list(range(n))
            for i in range(n):  # insertion sort by branching
                j = i
                while j > 0 and bool(m[o[j], o[j]] < m[o[j - 1], o[j - 1]]):
                    o[j], o[j - 1] = o[j - 1], o[j]
                    j -= 1
            w = S(tolist_obj(np.array([m[i, i] for i in o], dtype=object)))
            if not vectors:
                return w
            u = np.zeros((n, n))
            for k2, i in enumerate(o):
                u[i, k2] = 1.
            return w, S(tolist_obj(u))
        if n == 2 and not vectors:
            tr, b = m[0, 0] + m[1, 1], m[1, 0]
            s = core.sqrt((m[0, 0] - m[1, 1]) ** 2 + b * b * 4)
            return S(tolist_obj(np.array([(tr - s) / 2, (tr + s) / 2], dtype=object)))
        return slow(a)

    return f


def s_sqrtm(a):
    """matrix square root: concrete matrices by scipy, diagonal ones exactly, others at one concrete point"""
    from scipy import linalg
    if not has_sym(a):
        return S(tolist_obj(linalg.sqrtm(np.array(obj(a).tolist(), dtype=float))))
    m = obj(a)
    n = len(m)
    if all(not isinstance(m[i, j], Sym) and m[i, j] == 0 for i in range(n) for j in range(n) if i != j):
        r = np.zeros((n, n), dtype=object)
        for i in range(n):
            r[i, i] = core.sqrt(m[i, i])
        return S(r)
    return _concretising(linalg.sqrtm, 'sqrtm')(a)


def s_any(a, *r, **k):
    return S(obj(a)).any(*r, **k) if np.ndim(a) else a


def s_all(a, *r, **k):
    return S(obj(a)).all(*r, **k) if np.ndim(a) else a


FUNC_OVERRIDES = {
    np.dot: s_dot, np.searchsorted: s_searchsorted, np.where: s_where, np.zeros_like: s_zeros_like,
    np.empty_like: s_zeros_like, np.ones_like: lambda a, *r, **k: np_ones(np.shape(a)),
    np.full_like: lambda a, v, *r, **k: np_full(np.shape(a), v),
    np.bincount: s_bincount, np.fill_diagonal: s_fill_diagonal, np.linalg.det: s_det, np.linalg.inv: s_inv, np.linalg.cholesky: s_cholesky,
    np.linspace: s_linspace, np.interp: s_interp, np.sort: s_sort, np.argsort: s_argsort, np.argmax: s_argmax,
    np.argmin: s_argmin, np.allclose: s_allclose, np.isclose: s_isclose, np.diag: s_diag, np.outer: s_outer,
    np.repeat: s_repeat, np.average: s_average, np.trapz: s_trapz, np.unique: s_unique, np.einsum: s_einsum,
    np.any: s_any, np.all: s_all,
    np.min: lambda a, axis=None, **k: S(obj(a)).min(axis=axis), np.max: lambda a, axis=None, **k: S(obj(a)).max(axis=axis),
    np.mean: lambda a, axis=None, **k: S(obj(a)).mean(axis=axis),
    np.round: lambda a, decimals=0, **k: S(obj(a)).round(decimals),
    np.linalg.eigh: easy_eig(np.linalg.eigh, 'eigh', True), np.linalg.eigvalsh: easy_eig(np.linalg.eigvalsh, 'eigvalsh', False),
    np.linalg.svd: _concretising(np.linalg.svd, 'svd'), np.linalg.solve: lambda a, b: s_dot(s_inv(a), b),
    np.ix_: lambda *a: np.ix_(*[np.array([operator.index(x) for x in obj(v).reshape(-1)], dtype=int) for v in a]),
    np.linalg.slogdet: lambda m: (1, core.ufun('log', s_det(m))),
    np.clip: lambda a, lo, hi, **k: S(obj(a)).clip(lo, hi),
    np.interp: s_interp,
}
for _n in ('amin', 'amax'):
    pass


class Wrapper:
    """module proxy: override table first, numpy otherwise"""

    def __init__(self, real, table):
        self.__dict__['_sx_real'] = real
        self.__dict__['_sx_table'] = table

    def __getattr__(self, name):
        t = self._sx_table
        if name in t:
            return t[name]
        return getattr(self._sx_real, name)

    def __setattr__(self, name, v):
        setattr(self._sx_real, name, v)


def wrapfn(fn):
    """call an override whenever an argument is symbolic, else numpy, returning SArr"""
    o = FUNC_OVERRIDES[fn]

    def f(*a, **k):
        if any(has_sym(x) or isinstance(x, SArr) and dt(x) == object for x in list(a) + list(k.values())):
            return o(*a, **k)
        r = fn(*a, **k)
        return S(r) if isinstance(r, np.ndarray) else r

    f.__name__ = fn.__name__
    f.sx_real = fn
    return f


def listy(fn):
    """functions taking sequences: make list elements arrays so that __array_function__ dispatch works"""

    def f(*a, **k):
        a = [S(obj(x)) if isinstance(x, (Sym,)) else (
            mkarray(x) if isinstance(x, (list, tuple)) and has_sym(x) and fn not in STACKERS else (
                type(x)(S(obj(y)) if (isinstance(y, Sym) or isinstance(y, (list, tuple)) and has_sym(y)) else y for y in x)
                if isinstance(x, (list, tuple)) else x)) for x in a]
        r = fn(*a, **k)
        if isinstance(r, np.ndarray):
            if r.ndim == 0 and dt(r) == object:
                return r.item()
            return S(r)
        return r

    f.__name__ = getattr(fn, '__name__', 'f')
    f.sx_real = fn
    return f


STACKERS = {np.concatenate, np.vstack, np.hstack, np.column_stack, np.stack, np.append, np.block, np.dstack}


class NondetRandom:
    """np.random replaced by arbitrary values (the documented range only)"""

    def __init__(self):
        self._real = np.random

    def random_sample(self, size=None):
        return self._u(size)

    def random(self, size=None):
        return self._u(size)

    def rand(self, *shape):
        return self._u(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._u(size)

    def _one(self):
        v = core.ENGINE.ctx_fresh('rnd', 0, 1)
        return v

    def _u(self, size):
        if size is None:
            return self._one()
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        r = np.empty(size, dtype=object)
        for i in range(r.size):
            r.reshape(-1)[i] = self._one()
        return S(r)

    def __getattr__(self, name):
        return getattr(np.random, name)


def build_np():
    t = {}
    for fn in FUNC_OVERRIDES:
        if fn.__module__ in ('numpy', 'numpy.core.multiarray') or fn.__name__ in dir(np):
            if getattr(np, fn.__name__, None) is fn:
                t[fn.__name__] = wrapfn(fn)
    t['amax'] = t['max'] = wrapfn(np.max)
    t['amin'] = t['min'] = wrapfn(np.min)
    t['mean'] = wrapfn(np.mean)
    t['around'] = t['round'] = wrapfn(np.round)
    for n in ('concatenate', 'vstack', 'hstack', 'column_stack', 'stack', 'append', 'cumsum', 'sum', 'diff', 'ravel',
              'atleast_1d', 'atleast_2d', 'transpose', 'squeeze', 'std', 'var', 'prod', 'nonzero', 'flatnonzero',
              'roll', 'flip', 'tile', 'triu', 'tril', 'trace', 'delete', 'insert', 'take', 'ix_', 'meshgrid', 'count_nonzero',
              'broadcast_to', 'expand_dims', 'swapaxes', 'flipud', 'fliplr', 'array_equal', 'dstack', 'block', 'split',
              'array_split', 'median', 'ptp', 'real', 'imag', 'unravel_index', 'triu_indices', 'tril_indices', 'reshape',
              'cumprod', 'lexsort', 'digitize', 'convolve', 'compress', 'select', 'nan_to_num', 'isin', 'in1d'):
        t[n] = listy(getattr(np, n))
    t['cumsum'] = lambda a, axis=None, **k: np.add.accumulate(S(obj(a)).reshape(-1) if axis is None else S(obj(a)), axis=axis or 0)
    t['convolve'] = s_convolve
    t.update(zeros=np_zeros, ones=np_ones, full=np_full, empty=lambda shape, dtype=float, **k: np_full(shape, None, object) if dtype is object else np_zeros(shape, dtype),
             array=s_array, asarray=s_asarray, asanyarray=s_asarray, arange=s_arange, isscalar=s_isscalar,
             identity=s_identity, eye=s_eye, ascontiguousarray=s_asarray, asfarray=s_asarray,
             allclose=s_allclose, isclose=s_isclose, einsum=s_einsum, linspace=s_linspace)
    for n, f in EL.items():
        if hasattr(np, n):
            t[n] = UfuncProxy(getattr(np, n))
    t['abs'] = t['absolute']
    t['mod'] = t['remainder']
    for n, py in (('float64', float), ('int64', int), ('bool_', bool), ('int32', int), ('float32', float),
                  ('int_', int), ('float_', float)):
        t[n] = ScalarType(n, getattr(np, n))
    la = {f.__name__: wrapfn(f) for f in (np.linalg.det, np.linalg.inv, np.linalg.cholesky, np.linalg.eigh,
                                          np.linalg.eigvalsh, np.linalg.svd, np.linalg.solve, np.linalg.slogdet)}
    t['linalg'] = Wrapper(np.linalg, la)
    t['random'] = NondetRandom()
    t['c_'] = _CR(np.c_, True)
    t['r_'] = _CR(np.r_, False)
    return Wrapper(np, t)


def s_convolve(a, v, mode='full'):
    a, v = obj(a), obj(v)
    if mode != 'full' and mode not in ('same', 'valid'):
        raise ValueError(mode)
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    r = np.empty(n + m - 1, dtype=object)
    for k in range(n + m - 1):
        t = 0.0
        for j in range(max(0, k - m + 1), min(n, k + 1)):
            t = t + a[j] * v[k - j]
        r[k] = t
    if mode == 'same':
        st = (m - 1) // 2
        r = r[st:st + n]
    elif mode == 'valid':
        r = r[m - 1:n]
    return S(r)


class UfuncProxy:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def _prep(self, a):
        return [mkarray(x) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a]

    def __call__(self, *a, **k):
        a = self._prep(a)
        r = self.u(*a, **k)
        return S(r) if isinstance(r, np.ndarray) else r

    def __getattr__(self, n):
        f = getattr(self.u, n)
        if n in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            return lambda *a, **k: f(*self._prep(a), **k)
        return f


class _Meta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return (cls.kind == 'f' and not x.is_int) or (cls.kind == 'i' and x.is_int)
        if isinstance(x, SymBool):
            return cls.kind == 'b'
        return isinstance(x, cls.sx_real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.sx_real)

    def __call__(cls, *a, **k):
        if cls.kind == 'i' and a and isinstance(a[0], Sym):
            x = a[0].asnum() if isinstance(a[0], SymBool) else a[0]
            return core.trunc(x)
        if cls.kind == 'f' and a and isinstance(a[0], Sym):
            x = a[0].asnum() if isinstance(a[0], SymBool) else a[0]
            return x.real_()
        if cls.kind == 'b' and a and isinstance(a[0], Sym):
            return mkbool(tobool(a[0]))
        if a and isinstance(a[0], np.ndarray) and dt(a[0]) == object and a[0].size == 1:
            return cls(a[0].item())
        if a and hasattr(a[0], 'sx_parse'):
            return a[0].sx_parse(cls.kind)
        if a and isinstance(a[0], str) and core.ENGINE is not None and getattr(core.ENGINE, 'chars', None) and cls.kind in 'if':
            from symx import sstr, dec
            if core.ENGINE.digits and dec.number(a[0]) is not None:
                return dec.parse(a[0], cls.kind)
            a = (sstr.full(a[0]),) + a[1:]
        if a and isinstance(a[0], str) and '<~' in a[0] and cls.kind in 'if':
            from symx import text
            return text.parse(a[0], cls.kind)
        return cls.sx_real(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls.sx_real

    def __hash__(cls):
        return hash(cls.sx_real)


def ScalarType(name, real):
    kind = np.dtype(real).kind
    return _Meta(name, (), dict(sx_real=real, kind=kind, dtype=np.dtype(real)))


NP = build_np()
