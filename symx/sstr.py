"""Symbolic text.  A symbolic character is a private-use code point inside an ordinary Python string, standing for a z3
integer (its character code).  Concatenation, slicing, formatting and file input/output need no interpretation; operations
that look at characters (comparison, splitting, stripping, searching, parsing, dictionary keys) first branch on whether the
characters concerned are one of those the operation distinguishes, so that the native operation is exact on what is left."""
import re as _re
import fnmatch as _fnmatch
import os as _os
from symx import core
from symx.core import SymBool, z3

LO, HI = 0xE000, 0xF8FF
PUA = _re.compile('[%s-%s]' % (chr(LO), chr(HI)))
WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'


def active():
    e = core.ENGINE
    return e is not None and bool(getattr(e, 'chars', None))


def new(name, n, alphabet):
    e = core.ENGINE
    out = ''
    alphabet = ''.join(dict.fromkeys(alphabet))
    for i in range(n):
        p = chr(LO + len(e.chars))
        v = z3.Int('%s_%d' % (name, i))
        e.inputs['%s_%d' % (name, i)] = ('int', v)
        e.chars[p] = (v, alphabet)
        e.assume(SymBool(z3.Or(*[v == ord(a) for a in alphabet])))
        out += p
    return out


def is_sstr(x):
    return isinstance(x, str) and PUA.search(x) is not None


def has_sstr(x):
    return False


def norm(s):
    e = core.ENGINE
    if e.resolved:
        return PUA.sub(lambda m: e.resolved.get(m.group(), m.group()), s)
    return s


def resolve(s, chars):
    """after this no unresolved character of s is one of chars"""
    e = core.ENGINE
    s = norm(s)
    for p in dict.fromkeys(PUA.findall(s)):
        if p not in e.chars:
            continue
        v, alpha = e.chars[p]
        cand = [a for a in alpha if chars is None or a in chars]
        if not cand:
            continue
        if len(cand) == len(alpha) or e.branch(z3.Or(*[v == ord(a) for a in cand])):
            for a in cand[:-1]:
                if e.branch(v == ord(a)):
                    e.resolved[p] = a
                    break
            else:
                e.resolved[p] = cand[-1]
    return norm(s)


def full(s):
    return resolve(s, None)


def code(ch):
    e = core.ENGINE
    ch = e.resolved.get(ch, ch)
    if ch in e.chars:
        return e.chars[ch][0]
    return z3.IntVal(ord(ch))


def eq(a, b):
    """equality of two strings as a (possibly symbolic) truth value"""
    if not (is_sstr(a) or is_sstr(b)):
        return a == b
    if len(a) != len(b):
        return False
    a, b = norm(a), norm(b)
    cs = [code(x) == code(y) for x, y in zip(a, b) if x != y]
    if not cs:
        return True
    r = z3.simplify(z3.And(*cs))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return SymBool(r)


def anystr(x):
    if isinstance(x, str):
        return PUA.search(x) is not None
    if isinstance(x, (list, tuple)):
        return any(anystr(y) for y in x)
    return False


def deep_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return eq(a, b)
    if type(a) in (list, tuple) and type(a) is type(b):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            q = deep_eq(x, y)
            if q is False:
                return False
            if q is not True:
                r = q if r is True else SymBool(z3.And(core.tobool(r), core.tobool(q)))
        return r
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return deep_eq([a[k] for k in a], [b[k] for k in a])
    return a == b


def neg(r):
    if isinstance(r, SymBool):
        return SymBool(z3.Not(r.e))
    return not r


def contains(a, b):
    """a in b"""
    if isinstance(b, str) and isinstance(a, str):
        if is_sstr(a) or is_sstr(b):
            if is_sstr(a):
                a = full(a)
                b = full(b)
            else:
                b = resolve(b, a)
        return a in b
    if isinstance(b, (list, tuple)):
        for x in b:
            if x is a:
                return True
            if isinstance(x, str) and isinstance(a, str):
                if bool(eq(a, x)):
                    return True
            elif x == a:
                return True
        return False
    if is_sstr(a):
        a = full(a)
    if isinstance(b, (dict, set, frozenset)):
        for k in list(b):
            if is_sstr(k) and isinstance(a, str):
                if bool(eq(k, a)):
                    return True
    return a in b


def cmp(op, a, b):
    if active():
        if op in ('==', '!='):
            if (isinstance(a, (str, list, tuple)) and isinstance(b, (str, list, tuple))) and (anystr(a) or anystr(b)):
                r = deep_eq(a, b)
                return r if op == '==' else neg(r)
        elif anystr(a) or isinstance(b, str) and is_sstr(b) or \
                isinstance(b, (list, tuple, dict, set, frozenset)) and any(is_sstr(k) for k in b):
            r = contains(a, b)
            return r if op == 'in' else not r
    if op == '==':
        return a == b
    if op == '!=':
        return a != b
    return (a in b) if op == 'in' else (a not in b)


def key(k):
    """subscript"""
    if isinstance(k, str) and active() and is_sstr(k):
        return full(k)
    return k


def _chars(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (tuple, list)):
        return ''.join(_chars(y) for y in x)
    return ''


METHODS = {'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'find', 'rfind', 'index',
           'rindex', 'count', 'partition', 'rpartition', 'lower', 'upper', 'isdigit', 'isalpha', 'isspace', 'isalnum',
           'isnumeric', 'title', 'capitalize', 'splitlines', 'translate', 'encode', 'format', 'get', 'pop', 'setdefault',
           'add', 'remove', 'discard', 'write', 'islower', 'isupper', 'swapcase', 'casefold', 'expandtabs'}


def meth(x, m, *a, **k):
    if isinstance(x, str):
        if active() and (is_sstr(x) or anystr(a)):
            args = list(a) + list(k.values())
            if m in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip'):
                sep = k.get('sep', a[0] if a else None)
                if sep is not None and is_sstr(sep):
                    a = (full(sep),) + a[1:]
                    sep = a[0]
                x = resolve(x, WS if sep is None else sep)
            elif m in ('startswith', 'endswith', 'find', 'rfind', 'index', 'rindex', 'count', 'partition', 'rpartition', 'replace'):
                if anystr(a[:1]):
                    a = (full(a[0]) if isinstance(a[0], str) else tuple(full(y) for y in a[0]),) + a[1:]
                    x = full(x)
                else:
                    x = resolve(x, _chars(a[0]))
            elif m == 'splitlines':
                x = resolve(x, WS)
            elif m == 'format':
                x = full(x)
            elif m in ('write', 'add'):
                pass
            else:
                x = full(x)
            return getattr(x, m)(*a, **k)
        return getattr(x, m)(*a, **k)
    if isinstance(x, (dict, set)) and active() and a and is_sstr(a[0]):
        a = (full(a[0]),) + a[1:]
    elif isinstance(x, list) and m in ('index', 'remove', 'count') and active() and (anystr(a) or anystr(x)):
        hit = [i for i, y in enumerate(x) if bool(deep_eq(y, a[0]))]
        if m == 'count':
            return len(hit)
        if not hit:
            raise ValueError('list.%s(x): x not in list' % m)
        return hit[0] if m == 'index' else x.pop(hit[0]) and None
    return getattr(x, m)(*a, **k)


class FullProxy:
    """library whose functions look at whole strings: arguments are made concrete (by branching) first"""

    def __init__(self, real):
        self._sx_real = real

    def __getattr__(self, n):
        f = getattr(self._sx_real, n)
        if isinstance(f, type) or not callable(f):
            return f

        def g(*a, **k):
            if active():
                a = [full(x) if isinstance(x, str) and is_sstr(x) else x for x in a]
            r = f(*a, **k)
            if isinstance(r, _re.Pattern):
                return PatProxy(r)
            return r

        return g


class PatProxy(FullProxy):
    pass


RE = FullProxy(_re)
FNMATCH = FullProxy(_fnmatch)
