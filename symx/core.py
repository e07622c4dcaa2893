"""Symbolic values and the path explorer.

Numbers are exact: SymNum holds a z3 Int/Real numerator and an optional denominator that is
strictly positive on the current path, so every formula handed to the solver is polynomial.
Control flow over symbolic conditions forks (SymBool.__bool__); paths are explored by re-execution
with a decision prefix.  Anything the engine cannot keep symbolic is concretised to the value of the
current path's model, with the equality added to the path condition, and counted.
"""
import math
import time
from fractions import Fraction
import numpy as np
from symx.z3load import z3


class Steer(BaseException):
    """path steering: not an Exception, so `except Exception` in the code under test does not eat it"""


class Infeasible(Steer):
    pass


class Budget(Steer):
    pass


class Cut(Steer):
    """end of path, outside the claim (reason recorded)"""

    def __init__(self, reason):
        self.reason = reason


ENGINE = None


def eng():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


class Stats:
    FIELDS = ('queries', 'unknown', 'paths', 'branches', 'solver_s', 'concretised', 'checks', 'cuts', 'infeasible')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.conc_sites = {}
        self.cut_reasons = {}

    def asdict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 3)
        d['concretised_sites'] = dict(self.conc_sites)
        d['cut_reasons'] = dict(self.cut_reasons)
        return d


class Engine:
    def __init__(self, stats=None, branch_timeout_ms=6000, final_timeout_ms=30000, max_branches=4000, seed=1):
        self.stats = stats or Stats()
        self.bt = branch_timeout_ms
        self.ft = final_timeout_ms
        self.max_branches = max_branches
        self.seed = seed
        self.work = [([], None)]

    # ---- one path
    def start(self, prefix, model):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.bt)
        self.solver.set('random_seed', self.seed & 0x7fff)
        self.nonlin = False
        self.linmemo = {}
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.model = model
        self.inputs = {}  # name -> (kind, z3 expr or composite)
        self.checks = []  # (label, z3 bool)
        self.fresh = 0
        self.tokens = []  # symbolic numbers printed as text
        self.tokvals = {}
        self.chars = {}  # symbolic characters (symx.sstr)
        self.digits = set()  # those that are decimal digits (symx.dec)
        self.decq = None
        self.loginv = False  # exp(log(x) + const) is x exp(const)
        self.resolved = {}
        self.funcs = {}  # uninterpreted function applications
        self.memo = {}
        self.pending = {}
        self.seen = set()
        self.logatoms = {}  # id of z3 var -> (var, exp of it)
        self.keep = []  # keeps ASTs whose ids are used as keys alive
        self.pc = []
        self.observed = []
        self.concretised_here = 0
        self.nbranch = 0

    def _linear(self, e):
        k = e.get_id()
        r = self.linmemo.get(k)
        if r is None:
            self.keep.append(e)
            ch = e.children()
            d = e.decl().kind() if z3.is_app(e) else None
            if d is None or d == z3.Z3_OP_POWER or d == z3.Z3_OP_UNINTERPRETED and ch:
                r = False
            elif d == z3.Z3_OP_MUL and sum(not is_val(x) for x in ch) > 1:
                r = False
            elif d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not is_val(ch[1]):
                r = False
            else:
                r = all(self._linear(x) for x in ch)
            self.linmemo[k] = r
        return r

    def _nlsat(self, extra):
        """hard nonlinear query: complete procedure for real arithmetic"""
        t = time.time()
        self.stats.queries += 1
        r = z3.unknown
        try:
            s = z3.Tactic('qfnra').solver()
            s.set('timeout', 3000)
            s.add(self.solver.assertions())
            s.add(*extra)
            r = s.check()
            if r == z3.sat:
                self._last_model = s.model()
                # a model of the full theory at (a rational approximation of) the same inputs, if there is one
                fix = []
                for kind, v in self.inputs.values():
                    for x in (v if isinstance(v, (list, tuple)) else [v]):
                        if z3.is_expr(x) and z3.is_const(x) and not is_val(x):
                            y = s.model().eval(x, model_completion=True)
                            if z3.is_algebraic_value(y):
                                y = y.approx(12)
                            if is_val(y):
                                fix.append(x == y)
                f = z3.Solver()
                f.set('timeout', 1000)
                f.add(self.solver.assertions())
                f.add(*extra)
                f.add(*fix)
                if f.check() == z3.sat:
                    self._last_model = f.model()
        except z3.Z3Exception:
            pass
        self.stats.solver_s += time.time() - t
        return r

    def _check(self, *extra):
        if self.nonlin:
            t = time.time()
            self.stats.queries += 1
            self.solver.set('timeout', 250)
            r = self.solver.check(*extra)
            self.solver.set('timeout', self.bt)
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                self._last_model = self.solver.model()
            if r != z3.unknown:
                return r
            r = self._nlsat(extra)
            if r != z3.unknown:
                return r
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            # portfolio: fresh non-incremental solver
            s = z3.Solver()
            s.set('timeout', self.bt)
            s.add(self.solver.assertions())
            for e in extra:
                s.add(e)
            t = time.time()
            self.stats.queries += 1
            r = s.check()
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                self._last_model = s.model()
            elif r == z3.unknown:
                self.stats.unknown += 1
        elif r == z3.sat:
            self._last_model = self.solver.model()
        return r

    def add(self, c):
        self.solver.add(c)
        self.pc.append(c)
        if not self.nonlin and not self._linear(c):
            self.nonlin = True

    def model_or_check(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self._last_model
        return self.model

    def assume(self, c):
        c = z3.simplify(tobool(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.activate(c)
        self.add(c)
        if self.pos < len(self.prefix):
            return  # the stored model (if any) satisfies it
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return
        self.model = None
        self.model_or_check()

    def define(self, c, var=None):
        """constraint that only defines a fresh symbol (a conservative extension): given to the solver
        only once the symbol occurs in a condition or an obligation"""
        if var is not None:
            self.pending[var.get_id()] = (var, c)
            return
        self.activate(c)
        self.add(c)
        if self.pos < len(self.prefix):
            return
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def activate(self, e):
        if not self.pending:
            return
        todo = [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in self.seen:
                continue
            self.seen.add(i)
            self.keep.append(x)
            if i in self.pending:
                _, c = self.pending.pop(i)
                self.add(c)
                if self.pos >= len(self.prefix) and self.model is not None and \
                        not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
                todo.append(c)
            todo.extend(x.children())

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        memo = self.memo.get(c.get_id())
        if memo is not None:
            return memo
        self.nbranch += 1
        if self.nbranch > self.max_branches:
            raise Budget()
        self.activate(c)
        d = self._branch(c)
        self.memo[c.get_id()] = d
        nc = z3.simplify(z3.Not(c))
        self.memo[nc.get_id()] = not d
        self.keep.append((c, nc))
        return d

    def _branch(self, c):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert isinstance(d, bool), 'nondeterministic re-execution'
            self.pos += 1
            self.decisions.append(d)
            self.add(c if d else z3.Not(c))
            return d
        nc = z3.Not(c)
        m = self.model_or_check()
        if m is not None:
            v = m.eval(c, model_completion=True)
            side = True if z3.is_true(v) else (False if z3.is_false(v) else None)
        else:
            side = None
        if side is None:
            r = self._check(c)
            if r == z3.unsat:
                self.add(nc)
                self.decisions.append(False)
                self.pos += 1
                self.prefix = self.decisions
                self.stats.branches += 1
                return False
            side = True
            self.model = self._last_model if r == z3.sat else None
        other = nc if side else c
        r = self._check(other)
        if r != z3.unsat:
            self.work.append((self.decisions + [not side], self._last_model if r == z3.sat else None))
        self.stats.branches += 1
        self.add(c if side else nc)
        self.decisions.append(side)
        self.pos += 1
        self.prefix = self.decisions
        return side

    def maybe(self, c):
        """branch on a condition expected to be impossible: an undecided query counts as impossible (recorded)"""
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c) or c.get_id() in self.memo or self.pos < len(self.prefix):
            return self.branch(c)
        self.activate(c)
        m = self.model_or_check()
        if m is None or not z3.is_true(m.eval(c, model_completion=True)):
            self.solver.set('timeout', 1500)
            t = time.time()
            self.stats.queries += 1
            r = self.solver.check(c)
            self.stats.solver_s += time.time() - t
            self.solver.set('timeout', self.bt)
            if r != z3.sat:
                if r == z3.unknown:
                    self.stats.cut_reasons['undecided: argument of sqrt assumed non-negative'] = 1 + \
                        self.stats.cut_reasons.get('undecided: argument of sqrt assumed non-negative', 0)
                self.memo[c.get_id()] = False
                self.keep.append(c)
                # a decision, so that replays of this prefix agree
                self.decisions.append(False)
                self.pos += 1
                self.prefix = self.decisions
                self.add(z3.Not(c)) if r == z3.unsat else None
                return False
        return self.branch(c)

    def note_conc(self, what):
        self.stats.concretised += 1
        self.concretised_here += 1
        import sys
        f = sys._getframe(2)
        site = what
        while f is not None:
            fn = f.f_code.co_filename
            if '/repo/' in fn:
                site = '%s @ %s:%s' % (what, fn.split('/repo/')[-1], f.f_code.co_name)
                break
            f = f.f_back
        self.stats.conc_sites[site] = self.stats.conc_sites.get(site, 0) + 1

    def _choose(self, e):
        """a value of e taken from the current model, recorded as a decision so replays repeat it"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert isinstance(d, tuple), 'nondeterministic re-execution'
        else:
            m = self.model_or_check()
            if m is None:
                raise Cut('no model to choose a value from')
            v = m.eval(e, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            if not is_val(v):  # e.g. the integer part of an algebraic number
                todo, sub = [v], []
                while todo:
                    x = todo.pop()
                    if z3.is_algebraic_value(x):
                        sub.append((x, x.approx(20)))
                    todo.extend(x.children())
                v = z3.simplify(z3.substitute(v, *sub))
                if not is_val(v):
                    raise Cut('no model to choose a value from')
            d = ('v', val(v))
        self.pos += 1
        self.decisions.append(d)
        if self.pos > len(self.prefix):
            self.prefix = self.decisions
        return d[1]

    def pick_value(self, e):
        self.activate(e)
        return self._choose(e)

    def concretise(self, e, what='value'):
        """pick the model's value for z3 expr e, constrain the path to it"""
        e = z3.simplify(e)
        if is_val(e):
            return val(e)
        self.activate(e)
        self.note_conc(what)
        v = self._choose(e)
        c = e == (z3.IntVal(v) if e.is_int() else z3.RealVal(v))
        self.add(c)
        if self.pos >= len(self.prefix) and self.model is not None and \
                not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        return v

    def entails(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.activate(c)
        m = self.model if self.pos >= len(self.prefix) else None
        if m is not None and z3.is_false(m.eval(c, model_completion=True)):
            return False
        return self._check(z3.Not(c)) == z3.unsat

    def newvar(self, base, sort='Real'):
        self.fresh += 1
        n = '%s!%d' % (base, self.fresh)
        return z3.Real(n) if sort == 'Real' else (z3.Int(n) if sort == 'Int' else z3.Bool(n))


def is_val(e):
    return z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e) or z3.is_algebraic_value(e)


def val(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_algebraic_value(e):
        e = e.approx(20)
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


def const(v):
    """python/numpy number -> z3 numeral (exact)"""
    if isinstance(v, (bool, np.bool_)):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    f = float(v)
    return z3.RealVal(Fraction(f))


def isnum(v):
    return isinstance(v, (int, float, np.integer, np.floating, bool, np.bool_, Fraction))


def isspecial(v):
    return isinstance(v, (float, np.floating)) and (math.isnan(v) or math.isinf(v))


class Sym:
    """base of symbolic scalars"""
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symx.arr import apply_ufunc
        return apply_ufunc(ufunc, method, tuple(x.item() if isinstance(x, np.generic) else x for x in inputs), kw)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar look-alikes
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.branch(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymNum):
            return self.asnum() & o
        return mkbool(z3.And(self.e, tobool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Or(self.e, tobool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Xor(self.e, tobool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def asnum(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(self.e == tobool(o))
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isnum(o) or isinstance(o, SymNum):
            return self.asnum() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def _ar(name):
        def f(self, *a):
            return getattr(self.asnum(), name)(*a)

        return f

    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
               '__neg__', '__lt__', '__gt__', '__le__', '__ge__', '__pow__', '__rpow__', '__floordiv__', '__mod__',
               '__abs__', '__index__', '__int__', '__float__'):
        locals()[_n] = _ar(_n)
    del _n, _ar

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __format__(self, spec):
        return format(bool(self), spec)

    def __str__(self):
        return str(bool(self))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def tobool(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, SymNum):
        return o.n != 0
    if isinstance(o, z3.BoolRef):
        return o
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return tobool(o.item())
    return z3.BoolVal(bool(o))


def parts(o):
    """number-like -> (n, d) with d None or positive z3 expr"""
    if isinstance(o, SymNum):
        return o.n, o.d
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0)), None
    return const(o), None


def _mul(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a * b


_ONE = None


def _isone(e):
    return is_val(e) and val(e) == 1


def _iszero(e):
    return is_val(e) and not z3.is_true(e) and not z3.is_false(e) and val(e) == 0


def toreal(e):
    return z3.ToReal(e) if e.is_int() else e


def cmp_exprs(a, b):
    """common-denominator numerators so that a ? b <=> x ? y"""
    n1, d1 = parts(a)
    n2, d2 = parts(b)
    if d1 is None and d2 is None:
        return n1, n2
    if d1 is not None and d2 is not None and d1.eq(d2):
        return n1, n2
    x = n1 if d2 is None else n1 * d2
    y = n2 if d1 is None else n2 * d1
    return x, y


def mknum(n, d=None):
    if is_val(n) and d is None:
        v = val(n)
        if isinstance(v, Fraction):
            f = float(v)
            if Fraction(f) == v:
                return f
        else:
            return v
    return SymNum(n, d)


class SymNum(Sym):
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d

    @property
    def is_int(self):
        return self.d is None and self.n.is_int()

    @property
    def dtype(self):
        return np.dtype(object)

    # ---- arithmetic
    def _coerce(self, o):
        if isinstance(o, (SymNum, SymBool)) or isnum(o):
            return True
        return False

    def __add__(self, o):
        if not self._coerce(o):
            return NotImplemented
        if isspecial(o):
            return float(o)
        n2, d2 = parts(o)
        if _iszero(n2):
            return self if not (self.is_int and n2.is_real()) else self.real_()
        n1, d1 = self.n, self.d
        if d1 is None and d2 is None:
            return SymNum(n1 + n2)
        if d1 is not None and d2 is not None and d1.eq(d2):
            return SymNum(n1 + n2, d1)
        x = n1 if d2 is None else n1 * d2
        y = n2 if d1 is None else n2 * d1
        return SymNum(x + y, _mul(d1, d2))

    __radd__ = __add__

    def __neg__(self):
        return SymNum(-self.n, self.d)

    def as_integer_ratio(self):
        from symx import dec
        return dec.integer_ratio(self)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not self._coerce(o):
            return NotImplemented
        if isspecial(o):
            return -float(o)
        if isinstance(o, SymBool):
            o = o.asnum()
        if isinstance(o, SymNum) and o.n.eq(self.n) and (
                (o.d is None and self.d is None) or (o.d is not None and self.d is not None and o.d.eq(self.d))):
            return 0 if self.is_int else 0.0
        return self + (-o if not isinstance(o, (bool, np.bool_)) else -int(o))

    def __rsub__(self, o):
        if not self._coerce(o):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if not self._coerce(o):
            return NotImplemented
        if isspecial(o):
            if math.isnan(o):
                return float(o)
            if self > 0:
                return float(o)
            if self < 0:
                return -float(o)
            return float('nan')
        n2, d2 = parts(o)
        if d2 is None and is_val(n2):
            v = val(n2)
            if v == 1:
                return self if not n2.is_real() else self.real_()
            if v == 0:
                return 0.0 if (not self.is_int or n2.is_real()) else 0
        return SymNum(self.n * n2, _mul(self.d, d2))

    __rmul__ = __mul__

    def real_(self):
        return SymNum(z3.ToReal(self.n)) if self.is_int else self

    def _inv(self):
        n, d = self.n, self.d
        s = z3.simplify(n)
        if is_val(s):
            v = val(s)
            if v == 0:
                return None
            r = z3.RealVal(1 / Fraction(v))
            return SymNum(r if d is None else r * d)
        if ENGINE.branch(n == 0):
            return None
        if ENGINE.branch(n > 0):
            return SymNum(z3.RealVal(1) if d is None else d, toreal(n))
        return SymNum(z3.RealVal(-1) if d is None else -d, toreal(-n))

    def __truediv__(self, o):
        if not self._coerce(o):
            return NotImplemented
        if isspecial(o):
            return float('nan') if math.isnan(o) else 0.0
        if isinstance(o, SymBool):
            o = o.asnum()
        if isinstance(o, SymNum):
            # same denominator cancels
            if o.d is not None and self.d is not None and o.d.eq(self.d):
                return SymNum(self.n) / SymNum(o.n)
            if o.n.eq(self.n) and o.d is None and self.d is None:
                if ENGINE.branch(o.n == 0):
                    return divzero(self)
                return 1.0
            i = o._inv()
            if i is None:
                return divzero(self)
            return SymNum(toreal(self.n) * i.n if not _isone(i.n) else toreal(self.n), _mul(self.d, i.d))
        v = Fraction(o) if not isinstance(o, (np.floating, np.integer)) else (
            Fraction(float(o)) if isinstance(o, np.floating) else Fraction(int(o)))
        if v == 0:
            return divzero(self)
        return SymNum(toreal(self.n) * z3.RealVal(1 / v), self.d)

    def __rtruediv__(self, o):
        if not self._coerce(o):
            return NotImplemented
        if isspecial(o):
            if self > 0:
                return float(o)
            if self < 0:
                return -float(o)
            return divzero(o)
        i = self._inv()
        if i is None:
            return divzero(o)
        return i * o

    def __floordiv__(self, o):
        if not self._coerce(o):
            return NotImplemented
        if isinstance(o, SymBool):
            o = o.asnum()
        if self.is_int and ((isinstance(o, SymNum) and o.is_int) or isinstance(o, (int, np.integer))):
            if isinstance(o, SymNum):
                if ENGINE.branch(o.n == 0):
                    raise ZeroDivisionError('integer division or modulo by zero')
                if not ENGINE.branch(o.n > 0):
                    return SymNum(-self.n) // SymNum(-o.n)
                return SymNum(self.n / o.n)
            o = int(o)
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o < 0:
                return SymNum(-self.n) // (-o)
            return SymNum(self.n / z3.IntVal(o))
        q = self / o
        return floor(q).real_() if isinstance(q, SymNum) else math.floor(q)

    def __rfloordiv__(self, o):
        if not self._coerce(o):
            return NotImplemented
        return SymNum(const(o)) // self

    def __mod__(self, o):
        if not self._coerce(o):
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        if not self._coerce(o):
            return NotImplemented
        return SymNum(const(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if isinstance(o, SymNum):
            s = z3.simplify(o.n)
            if o.d is None and is_val(s):
                o = val(s)
            else:
                if o.is_int:
                    o = o.__index__()
                else:
                    return ufun2('pow', self, o)
        if isinstance(o, (float, np.floating)) and float(o).is_integer():
            r = self.real_() ** int(o)
            return r
        if isinstance(o, (int, np.integer)):
            o = int(o)
            if o == 0:
                return 1 if self.is_int else 1.0
            if o < 0:
                return 1 / (self ** (-o))
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        if isinstance(o, (float, Fraction)):
            if o == 0.5:
                return self.sqrt()
            if o == -0.5:
                return 1 / self.sqrt()
            if (o * 2) == int(o * 2):
                return self.sqrt() ** int(o * 2)
            return ufun2('pow', self, o)
        return NotImplemented

    def __rpow__(self, o):
        if isnum(o) and self.is_int:
            return o ** self.__index__()
        if isnum(o):
            return ufun2('pow', o, self)
        return NotImplemented

    def __abs__(self):
        return SymNum(z3.If(self.n >= 0, self.n, -self.n), self.d)

    # ---- comparisons
    def _cmp(self, o, f, special):
        if isinstance(o, SymBool):
            o = o.asnum()
        if not (isinstance(o, SymNum) or isnum(o)):
            return NotImplemented
        if isspecial(o):
            if math.isnan(o):
                return special == 'ne'
            if special in ('eq', 'ne'):
                return special == 'ne'
            return (o > 0) == (special in ('lt', 'le'))
        x, y = cmp_exprs(self, o)
        return mkbool(z3.simplify(f(x, y)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, 'lt')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, 'le')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, 'gt')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, 'eq')
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, 'ne')
        return r

    def __hash__(self):
        return hash(self.pick_all())

    def __bool__(self):
        return ENGINE.branch(self.n != 0)

    # ---- integers
    def pick_all(self, limit=400):
        """fork over all feasible values (ints) / concretise (reals)"""
        e = z3.simplify(self.n)
        if self.d is None and is_val(e):
            return val(e)
        if not self.is_int:
            return float(self)
        for _ in range(limit):
            v = ENGINE.pick_value(e)
            if ENGINE.branch(e == v):
                return v
        raise Budget()

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self.pick_all())

    def __int__(self):
        if self.is_int:
            return int(self.pick_all())
        return int(trunc(self).pick_all())

    def __trunc__(self):
        return trunc(self)

    def __float__(self):
        if self.d is None:
            e = z3.simplify(self.n)
            if is_val(e):
                return float(val(e))
            v = ENGINE.concretise(e, 'float()')
            return float(v)
        n = ENGINE.concretise(self.n, 'float()')
        d = ENGINE.concretise(self.d, 'float()')
        return float(Fraction(n) / Fraction(d))

    def __complex__(self):
        return complex(float(self))

    def __round__(self, nd=None):
        if nd is None:
            return rint(self)
        p = 10 ** nd
        return rint(self * p) / p

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def is_integer(self):
        if self.is_int:
            return True
        return floor(self) == self

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def sum(self, *a, **k):
        return self

    # unary function hooks used by numpy object loops
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return ufun('exp', self)

    def log(self):
        return ufun('log', self)

    def log10(self):
        return ufun('log10', self)

    def rint(self):
        return rint(self).real_()

    def floor(self):
        return floor(self).real_()

    def ceil(self):
        return (-floor(-self)).real_()

    def dbg(self):
        return 'Sym(%s%s)' % (self.n, '' if self.d is None else ' / ' + str(self.d))

    def __repr__(self):
        if ENGINE is None:
            return self.dbg()
        return self.__str__()

    def __str__(self):
        from symx import text
        return text.put(self, None)

    def __format__(self, spec):
        from symx import text
        return text.fmt_spec(self, spec)


def divzero(x):
    """division by an exact zero: numpy semantics for arrays is inf/nan, python floats raise.
    The property harnesses exclude it by precondition; a path that gets there is cut."""
    if x is not None and isnum(x) and x == 0:
        return float('nan')
    raise Cut('division by exact zero')


def floor(x):
    if isnum(x):
        return math.floor(x)
    if x.is_int:
        return x
    if x.d is None:
        return SymNum(z3.ToInt(x.n))
    k = ENGINE.newvar('floor', 'Int')
    kr = z3.ToReal(k)
    ENGINE.define(z3.And(kr * x.d <= x.n, x.n < (kr + 1) * x.d), k)
    return SymNum(k)


def trunc(x):
    if isnum(x):
        return int(x)
    if x.is_int:
        return x
    a = floor(x)
    b = floor(-x)
    return SymNum(z3.If(x.n >= 0, parts(a)[0], -parts(b)[0]))


def rint(x):
    """round half to even"""
    if isnum(x):
        return round(x)
    if x.is_int:
        return x
    f = floor(x)
    diff = x - f
    up = tobool(diff > Fraction(1, 2))
    tie = tobool(diff == Fraction(1, 2))
    odd = f.n % 2 == 1
    return SymNum(z3.If(z3.Or(up, z3.And(tie, odd)), f.n + 1, f.n))


def norm_key(x):
    n = z3.simplify(x.n, som=True)
    d = None if x.d is None else z3.simplify(x.d, som=True)
    return n, d


def sqrt(x):
    if isnum(x):
        return math.sqrt(x)
    k = norm_key(x)
    if k[1] is None and is_val(k[0]):
        v = val(k[0])
        r = math.sqrt(v)
        return r
    key = ('sqrt', k[0].get_id(), None if k[1] is None else k[1].get_id())
    if key in ENGINE.funcs:
        return ENGINE.funcs[key][0]
    if ENGINE.maybe(x.n < 0):
        return float('nan')
    # fresh r >= 0 with r^2 * d == n
    r = ENGINE.newvar('sqrt')
    ax = [r >= 0, (r * r == toreal(x.n)) if x.d is None else (r * r * x.d == toreal(x.n))]
    s = SymNum(r)
    for kk, (v, arg) in list(ENGINE.funcs.items()):
        if kk[0] == 'sqrt':
            a, b = cmp_exprs(arg, x)
            ax.append(z3.Implies(a == b, v.n == r))
    ENGINE.define(z3.And(*ax), r)
    ENGINE.funcs[key] = (s, x)
    ENGINE.keep.append(k)
    return s


def ufun(name, x):
    """exp/log/...: a fresh real per distinct argument, with congruence, sign and strict monotonicity axioms"""
    if isnum(x):
        x = float(x)
        return {'exp': math.exp, 'log': math.log, 'log10': math.log10, 'erf': math.erf, 'sin': math.sin,
                'cos': math.cos}[name](x)
    if name == 'exp' and ENGINE.logatoms:
        r = exp_atoms(x)
        if r is not None:
            return r
    k = norm_key(x)
    key = (name, k[0].get_id(), None if k[1] is None else k[1].get_id())
    if key in ENGINE.funcs:
        return ENGINE.funcs[key][0]
    if name in ('log', 'log10'):
        if ENGINE.branch(x.n <= 0):
            return float('nan') if ENGINE.branch(x.n < 0) else float('-inf')
    r = ENGINE.newvar(name)
    s = SymNum(r)
    ax = []
    if name == 'exp':
        ax += [r > 0, (r > 1) == (x.n > 0), (r == 1) == (x.n == 0)]
    if name in ('log', 'log10'):
        a, b = cmp_exprs(x, 1)
        ax += [(r > 0) == (a > b), (r == 0) == (a == b)]
    mono = name in ('exp', 'log', 'log10', 'erf')
    for kk, (v, arg) in list(ENGINE.funcs.items()):
        if kk[0] == name:
            a, b = cmp_exprs(arg, x)
            ax.append(z3.Implies(a == b, v.n == r))
            if mono:
                ax.append((a < b) == (v.n < r))
    if name == 'erf':
        ax += [r > -1, r < 1, (r > 0) == (x.n > 0), (r == 0) == (x.n == 0)]
    if ax:
        ENGINE.define(z3.And(*ax), r)
    ENGINE.funcs[key] = (s, x)
    ENGINE.keep.append(k)
    if name == 'log' and ENGINE.loginv:
        ENGINE.logatoms[r.get_id()] = (r, x)
    return s


def find_ite(e, seen):
    if e.get_id() in seen:
        return None
    seen.add(e.get_id())
    for ch in e.children():
        r = find_ite(ch, seen)
        if r is not None:
            return r
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(e):
        return e
    return None


def resolve_ites(e):
    """fork until e contains no conditional terms"""
    while True:
        t = find_ite(e, set())
        if t is None:
            return z3.simplify(e, som=True)
        d = ENGINE.branch(t.arg(0))
        e = z3.simplify(z3.substitute(e, (t, t.arg(1) if d else t.arg(2))), som=True)


def exp_atoms(x):
    """exp of an integer combination of log-atoms: the product of powers of their exponentials (exact)"""
    if x.d is not None:
        return None
    e = resolve_ites(x.n)
    terms = e.children() if z3.is_add(e) else [e]
    r = 1.0
    for t in terms:
        c = Fraction(1)
        fac = t.children() if z3.is_mul(t) else [t]
        vs = []
        for f in fac:
            if z3.is_app_of(f, z3.Z3_OP_TO_REAL) and is_val(f.arg(0)):
                f = f.arg(0)
            if is_val(f):
                c *= Fraction(val(f))
            elif z3.is_app_of(f, z3.Z3_OP_UMINUS) and f.arg(0).get_id() in ENGINE.logatoms:
                c = -c
                vs.append(f.arg(0))
            else:
                vs.append(f)
        if not vs and c == 0:
            continue
        if not vs and ENGINE.loginv:
            r = r * math.exp(float(c))
            continue
        if len(vs) != 1 or vs[0].get_id() not in ENGINE.logatoms or c.denominator != 1:
            return None
        r = r * ENGINE.logatoms[vs[0].get_id()][1] ** int(c)
    return r


def ufun2(name, x, y):
    px = parts(x)
    py = parts(y)
    key = (name,) + tuple(None if e is None else z3.simplify(e, som=True).get_id() for e in px + py)
    if key in ENGINE.funcs:
        return ENGINE.funcs[key][0]
    r = SymNum(ENGINE.newvar(name))
    ENGINE.funcs[key] = (r, x)
    ENGINE.keep.append((px, py))
    return r


def ite(c, a, b):
    """merged conditional value"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    e = tobool(c)
    if a is b:
        return a
    if ENGINE is not None and ENGINE.memo:
        e = z3.simplify(e)
        k = ENGINE.memo.get(e.get_id())
        if k is not None:
            return a if k else b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(z3.If(e, tobool(a), tobool(b)))
    if (isinstance(a, (SymNum, SymBool)) or isnum(a)) and (isinstance(b, (SymNum, SymBool)) or isnum(b)) \
            and not isspecial(a) and not isspecial(b):
        n1, d1 = parts(a)
        n2, d2 = parts(b)
        if (n1.is_int() != n2.is_int()):
            n1, n2 = toreal(n1), toreal(n2)
        if d1 is None and d2 is None:
            return SymNum(z3.If(e, n1, n2))
        if d1 is not None and d2 is not None and d1.eq(d2):
            return SymNum(z3.If(e, n1, n2), d1)
        d1 = z3.RealVal(1) if d1 is None else toreal(d1)
        d2 = z3.RealVal(1) if d2 is None else toreal(d2)
        return SymNum(z3.If(e, n1, n2), z3.If(e, d1, d2))
    return a if ENGINE.branch(e) else b


def smax(a, b):
    if isspecial(a) or isspecial(b):
        if isspecial(a) and math.isnan(a):
            return a
        if isspecial(b) and math.isnan(b):
            return b
        return a if a >= b else b
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return a if a >= b else b
    return ite(a >= b, a, b)


def smin(a, b):
    if isspecial(a) or isspecial(b):
        if isspecial(a) and math.isnan(a):
            return a
        if isspecial(b) and math.isnan(b):
            return b
        return a if a <= b else b
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return a if a <= b else b
    return ite(a <= b, a, b)
