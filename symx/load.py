"""Loads /repo's current sources into two universes: the plain one (replay) and the symbolic one."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import math
import os
import sys
import numpy as np
from symx import core, arr, files, text, sstr, interp, fft, dec
import fnmatch as _fnmatch
import re as _re
import pandas as _pandas
from scipy import linalg as _linalg

arr.NP._sx_table['fft'] = fft.NPFFT

REPO = os.environ.get('VERIF_REPO', '/repo')
PYROOT = os.path.join(REPO, 'python')
PKGS = ('getdist', 'paramgrid', 'planck')
TOPS = ('CMBlikes', 'planckStyle', 'runbatch', 'makeGrid', 'makePlots', 'makeTables', 'runMPI', 'cleanup',
        'copyGridFiles', 'addGridBatch', 'deleteJobs', 'listGrid', 'renameParam', 'checkConverge', 'runningJobs', 'extractDistFiles',
        'runGridGetdist', 'chainPeek', 'extractBestFitParams', 'extractBestFitCAMB', 'makeParamCompare', 'cosmomc_to_camb',
        'makePerfectForecastDataset', 'makeLatex')


def ours(name):
    return name.split('.')[0] in PKGS or name in TOPS


class MathProxy:
    def __getattr__(self, n):
        f = getattr(math, n)

        def g(*a):
            if any(isinstance(x, core.Sym) for x in a):
                x = a[0]
                if n == 'sqrt':
                    return core.sqrt(x)
                if n in ('exp', 'log', 'log10', 'sin', 'cos', 'erf') and len(a) == 1:
                    return core.ufun(n, x)
                if n == 'floor':
                    return core.floor(x)
                if n == 'ceil':
                    return -core.floor(-x)
                if n == 'trunc':
                    return core.trunc(x)
                if n in ('isnan', 'isinf'):
                    return False
                if n == 'isfinite':
                    return True
                if n == 'pow':
                    return a[0] ** a[1]
                if n == 'fabs':
                    return abs(x)
                core.ENGINE.note_conc('math.' + n)
                a = [float(y) for y in a]
            return f(*a)

        return g if callable(f) else f


SFLOAT = arr.ScalarType('float', float)
SINT = arr.ScalarType('int', int)
SBOOL = arr.ScalarType('bool', bool)


def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for y in ts:
        if isinstance(y, tuple):
            flat.extend(y)
        else:
            flat.append(y)
    if isinstance(x, core.Sym):
        for y in flat:
            if isinstance(y, arr._Meta):
                if isinstance(x, y):
                    return True
                continue
            if isinstance(x, core.SymNum):
                cand = (int, np.integer, np.number, np.generic) if x.is_int else (float, np.floating, np.number, np.generic)
                if y in cand or y in (core.Sym, core.SymNum, object):
                    return True
                import numbers
                if y in (numbers.Number, numbers.Real) or (y is numbers.Integral and x.is_int):
                    return True
            elif y in (bool, np.bool_, core.Sym, core.SymBool, object):
                return True
        return False
    k = getattr(x, 'sx_isinstance', None)
    if k is not None and not isinstance(x, type):
        return any(k(y) for y in flat)
    return builtins.isinstance(x, tuple(flat) if len(flat) != 1 else flat[0])


def s_max(*a, **k):
    if k or not arr.has_sym(list(a)):
        if len(a) == 1 and not k:
            xs = list(a[0])
            if arr.has_sym(xs) and all(isinstance(x, core.Sym) or core.isnum(x) for x in xs):
                return s_max(*xs) if len(xs) > 1 else xs[0]
            return builtins.max(xs)
        return builtins.max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not all(isinstance(x, core.Sym) or core.isnum(x) for x in xs):
        return builtins.max(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        r = core.smax(r, x)
    return r


def s_min(*a, **k):
    if k or not arr.has_sym(list(a)):
        if len(a) == 1 and not k:
            xs = list(a[0])
            if arr.has_sym(xs) and all(isinstance(x, core.Sym) or core.isnum(x) for x in xs):
                return s_min(*xs) if len(xs) > 1 else xs[0]
            return builtins.min(xs)
        return builtins.min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not all(isinstance(x, core.Sym) or core.isnum(x) for x in xs):
        return builtins.min(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        r = core.smin(r, x)
    return r


def s_round(x, nd=None):
    if isinstance(x, core.Sym):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) != 1:
            return type(*a, **k)
        x = a[0]
        if isinstance(x, arr.SArr):
            return np.ndarray
        if isinstance(x, core.SymNum):
            return SINT if x.is_int else SFLOAT
        if isinstance(x, core.SymBool):
            return bool
        t = type(x)
        return SFLOAT if t is float else SINT if t is int else t


class s_type(metaclass=_TypeMeta):
    pass


BUILTINS = dict(float=SFLOAT, int=SINT, isinstance=s_isinstance, max=s_max, min=s_min, round=s_round, type=s_type)
MATH = MathProxy()
PANDAS = files.PandasProxy(_pandas)


def patch_value(v, extra=None):
    if v is np:
        return arr.NP
    if v is math:
        return MATH
    if v is _pandas:
        return PANDAS
    if v is _re:
        return sstr.RE
    if v is _fnmatch:
        return sstr.FNMATCH
    if v is dec.decimal:
        return dec.PROXY
    if v is fft.fftpack:
        return fft.FFTPACK
    if v is _linalg.sqrtm:
        return arr.s_sqrtm
    if id(v) in interp.TABLE:
        return interp.TABLE[id(v)]
    if extra is not None:
        for real, rep in extra:
            if v is real:
                return rep
    if callable(v) and getattr(v, '__module__', '') and isinstance(getattr(v, '__name__', None), str):
        mod = getattr(v, '__module__', '') or ''
        if mod.startswith('numpy') and not isinstance(v, type):
            t = arr.NP._sx_table.get(v.__name__)
            if t is not None:
                return t
        if mod == 'math':
            return getattr(MATH, v.__name__)
    return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, uni):
        self.uni = uni

    def find_spec(self, name, path, target=None):
        if not ours(name):
            return None
        rel = name.replace('.', '/')
        for cand, ispkg in ((os.path.join(PYROOT, rel, '__init__.py'), True), (os.path.join(PYROOT, rel + '.py'), False)):
            if os.path.exists(cand):
                sp = importlib.machinery.ModuleSpec(name, self, origin=cand, is_package=ispkg)
                if ispkg:
                    sp.submodule_search_locations = [os.path.dirname(cand)]
                return sp
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        module.__file__ = fn
        with open(fn, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, fn)
        if self.uni.symbolic:
            tree = self.uni.transform(tree, module.__name__)
        code = compile(tree, fn, 'exec', dont_inherit=True)
        d = module.__dict__
        if self.uni.symbolic:
            d.update(self.uni.pre_globals(module.__name__))
        exec(code, d)
        if self.uni.symbolic:
            self.uni.patch(module)


class ImportPatcher(ast.NodeTransformer):
    """`import numpy as np` -> followed by np = __sx_patch__(np)"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def _imp(self, n):
        if isinstance(n, ast.ImportFrom) and n.module == '__future__':
            return n
        out = [n]
        for a in n.names:
            if a.name == '*':
                continue
            nm = a.asname or a.name.split('.')[0]
            s = ast.parse('%s = __sx_patch__(%s)' % (nm, nm)).body[0]
            out.append(s)
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    visit_Import = _imp
    visit_ImportFrom = _imp


class TextPatcher(ast.NodeTransformer):
    """a % b -> __sx_mod__(a, b): formatting of symbolic numbers"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__sx_mod__', ast.Load()), [n.left, n.right], []), n)
        return n

    OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in'}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS:
            return ast.copy_location(ast.Call(ast.Name('__sx_cmp__', ast.Load()),
                                              [ast.Constant(self.OPS[type(n.ops[0])]), n.left, n.comparators[0]], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in sstr.METHODS and \
                not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
            return ast.copy_location(ast.Call(ast.Name('__sx_meth__', ast.Load()), [f.value, ast.Constant(f.attr)] + n.args,
                                              n.keywords), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.slice, (ast.Slice, ast.Tuple, ast.Constant)):
            n.slice = ast.copy_location(ast.Call(ast.Name('__sx_key__', ast.Load()), [n.slice], []), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        self.generic_visit(n)
        return n


class Universe:
    def __init__(self, symbolic, extra_builtins=None, extra_values=None, transformers=()):
        self.symbolic = symbolic
        self.mods = {}
        self.finder = Finder(self)
        self.extra_builtins = extra_builtins or {}
        self.extra_values = extra_values or []
        self.transformers = transformers
        self.saved = None

    def transform(self, tree, name):
        tree = ImportPatcher().visit(tree)
        tree = TextPatcher().visit(tree)
        for t in self.transformers:
            tree = t(name).visit(tree)
        ast.fix_missing_locations(tree)
        return tree

    def pre_globals(self, name):
        d = dict(BUILTINS)
        d.update(self.extra_builtins)
        d['__sx_mod__'] = text.mod
        d['__sx_cmp__'] = sstr.cmp
        d['__sx_meth__'] = sstr.meth
        d['__sx_key__'] = sstr.key
        d['__sx_patch__'] = lambda v: patch_value(v, self.extra_values)
        return d

    def patch(self, module):
        d = module.__dict__
        for k, v in list(d.items()):
            if k.startswith('__'):
                continue
            nv = patch_value(v, self.extra_values)
            if nv is not v:
                d[k] = nv

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if ours(k)}
        for k in self.saved:
            del sys.modules[k]
        sys.modules.update(self.mods)
        sys.meta_path.insert(0, self.finder)
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self.finder)
        for k in [k for k in sys.modules if ours(k)]:
            self.mods[k] = sys.modules.pop(k)
        sys.modules.update(self.saved)
        return False

    def __call__(self, name):
        return importlib.import_module(name)

    def script(self, name, argv):
        """run a top level script of the repository afresh with the given arguments; returns its module"""
        sys.modules.pop(name, None)
        old = sys.argv
        sys.argv = [name + '.py'] + list(argv)
        try:
            return importlib.import_module(name)
        finally:
            sys.argv = old
            sys.modules.pop(name, None)

    def __getattr__(self, name):
        """U.chains -> getdist.chains ; U.paramgrid_batchjob -> paramgrid.batchjob"""
        if name.startswith('_'):
            raise AttributeError(name)
        full = {'chains': 'getdist.chains', 'mcsamples': 'getdist.mcsamples', 'paramnames': 'getdist.paramnames',
                'inifile': 'getdist.inifile', 'densities': 'getdist.densities', 'covmat': 'getdist.covmat',
                'parampriors': 'getdist.parampriors', 'convolve': 'getdist.convolve', 'types': 'getdist.types',
                'gaussian_mixtures': 'getdist.gaussian_mixtures', 'kde_bandwidth': 'getdist.kde_bandwidth',
                'chain_grid': 'getdist.chain_grid', 'cobaya_interface': 'getdist.cobaya_interface',
                'batchjob': 'paramgrid.batchjob', 'gridconfig': 'paramgrid.gridconfig',
                'jobqueue': 'paramgrid.jobqueue', 'batchjob_args': 'paramgrid.batchjob_args',
                'SN': 'planck.SN', 'CMBlikes': 'CMBlikes', 'getdist': 'getdist'}.get(name, name)
        m = importlib.import_module(full)
        return m
