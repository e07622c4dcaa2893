"""Numeric text tables (chains, covariance matrices).

In symbolic runs the files are real files in the scratch directory of the run whose numbers are tokens (symx.text), so
moving, copying, truncating or deleting them is done by the real file system; pandas.read_csv, numpy.loadtxt and
numpy.savetxt are modelled on whitespace separated tables.  In replays the files hold ordinary numbers."""
import io
import os
import numpy as np
from symx import arr, core, text


def cell(x):
    return str(x) if isinstance(x, core.Sym) else '%.17g' % float(x)


def put(path, rows, header=None):
    """rows: list of lists"""
    with open(path, 'w') as f:
        if header is not None:
            f.write('# ' + header + '\n')
        for r in rows:
            f.write(' '.join(cell(x) for x in r) + '\n')


def put_real(path, rows, header=None):
    with open(path, 'w') as f:
        if header is not None:
            f.write('# ' + header + '\n')
        for r in rows:
            f.write(' '.join('%.17g' % float(x) for x in r) + '\n')


class _Frame:
    def __init__(self, a):
        self.values = a

    def to_numpy(self, *a, **k):
        return self.values

    def __len__(self):
        return len(self.values)


def content(fname):
    """text of a file/handle/list of lines if it holds tokens, else None"""
    if isinstance(fname, (str, os.PathLike)):
        try:
            with open(fname) as f:
                t = f.read()
        except UnicodeDecodeError:
            return None
        return t if '<~' in t else None
    if hasattr(fname, 'read') and hasattr(fname, 'seek'):
        pos = fname.tell()
        t = fname.read()
        if isinstance(t, bytes):
            t = t.decode('latin1')
        if '<~' in t:
            return t
        fname.seek(pos)
        return None
    if isinstance(fname, (list, tuple)) and any('<~' in x for x in fname):
        return '\n'.join(fname)
    return None


def num(s):
    return text.parse(s, 'f') if '<~' in s else float(s)


def rows_of(t, skip, comment='#', sep=None):
    if isinstance(skip, core.SymNum):
        skip = (skip if skip.is_int else core.trunc(skip)).__index__()
    if skip is not None and not isinstance(skip, (int, np.integer)):
        raise ValueError('skiprows must be an integer')
    out = []
    for ln in t.split('\n')[int(skip or 0):]:
        if comment:
            ln = ln.split(comment)[0]
        ln = ln.strip()
        if ln:
            out.append([num(x) for x in (ln.split(sep) if sep else ln.split())])
    if out and any(len(r) != len(out[0]) for r in out):
        raise ValueError('rows of different length')
    return out


def table(rows):
    if not rows:
        return arr.S(np.empty((0, 0), dtype=object))
    return arr.mkarray(rows, float, force_obj=True)


class PandasProxy:
    def __init__(self, real):
        self._real = real

    def read_csv(self, fname, *a, **k):
        t = content(fname)
        if t is None:
            k = {x: arr.real_dtype(v) for x, v in k.items()}
            sk = k.get('skiprows')
            if isinstance(sk, core.SymNum):
                k['skiprows'] = sk.__index__()
            df = self._real.read_csv(fname, *a, **k)
            return df
        sk = k.get('skiprows')
        if isinstance(sk, float):
            if not float(sk).is_integer():
                raise ValueError('skiprows must be an integer')
            sk = int(sk)
        rows = rows_of(t, sk, k.get('comment'))
        nr = k.get('nrows')
        if nr is not None:
            rows = rows[:int(nr)]
        if not rows:
            raise self._real.errors.EmptyDataError('No columns to parse from file')
        return _Frame(table(rows))

    def __getattr__(self, n):
        return getattr(self._real, n)


def s_loadtxt(fname, *a, **k):
    t = content(fname)
    if t is None:
        k = {x: arr.real_dtype(v) for x, v in k.items()}
        r = np.loadtxt(fname, *a, **k)
        return arr.S(arr.tolist_obj(r)) if r.ndim and r.size < 1000 and r.dtype == np.float64 else r
    t = table(rows_of(t, k.get('skiprows') or 0, k.get('comments', '#')))
    nd = k.get('ndmin', 0)
    uc = k.get('usecols')
    if uc is not None:
        t = t[:, list(uc) if np.ndim(uc) else [uc]]
    if nd < 2 and 1 in t.shape:
        t = t.reshape(-1) if t.size > 1 or nd == 1 else t.reshape(-1)[0]
    if k.get('unpack'):
        t = t.T
    return t


def s_savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **k):
    X = arr.obj(X)
    if X.ndim == 0 or X.ndim > 2:
        raise ValueError('Expected 1D or 2D array')
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    if isinstance(fmt, (list, tuple)):
        fmts = list(fmt)
    elif fmt.count('%') > 1:
        fmts = None
    else:
        fmts = [fmt] * X.shape[1]
    out = []
    if header:
        out.append(comments + header)
    for r in X:
        if fmts is None:
            out.append(text.mod(fmt, tuple(r)))
        else:
            if len(fmts) != len(r):
                raise AttributeError('fmt has wrong shape')
            out.append(delimiter.join(text.mod(f, (x,)) for f, x in zip(fmts, r)))
    if footer:
        out.append(comments + footer)
    t = newline.join(out) + newline
    if isinstance(fname, (str, os.PathLike)):
        with open(fname, 'w') as f:
            f.write(t)
    elif isinstance(fname, io.TextIOBase) or not hasattr(fname, 'mode') or 'b' not in getattr(fname, 'mode', ''):
        fname.write(t)
    else:
        fname.write(t.encode('latin1'))


arr.NP._sx_table['loadtxt'] = s_loadtxt
arr.NP._sx_table['savetxt'] = s_savetxt
