"""Numbers in text.  Formatting a symbolic number yields a token; parsing the token yields the number again, rounded
as the format rounds (an unknown value within the format's rounding error of the original)."""
import re
from fractions import Fraction
from symx import core
from symx.core import Sym, SymNum, SymBool, z3

TOKEN = re.compile(r'<~(\d+)~>')
FMT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([hlL]?)([diouxXeEfFgGcrsa%])')


def put(x, fmt):
    t = core.ENGINE.tokens
    t.append((x, fmt))
    return '<~%d~>' % (len(t) - 1)


def has(s):
    return '<~' in s and TOKEN.search(s) is not None


def rounded(x, fmt):
    """the value read back from x printed with fmt"""
    if fmt is None or x.is_int:
        return x
    conv, prec = fmt
    if conv in 'rs':
        return x
    if conv in 'di':
        return core.trunc(x)
    prec = 6 if prec is None else prec
    k = ('round', x.key() if hasattr(x, 'key') else (x.n.get_id(), None if x.d is None else x.d.get_id()), fmt)
    c = core.ENGINE.tokvals
    if k in c:
        return c[k][0]
    core.ENGINE.fresh += 1
    y = z3.Real('rd!%d' % core.ENGINE.fresh)
    Y = SymNum(y)
    if conv in 'fF':
        h = SymNum(z3.RealVal(str(Fraction(1, 2 * 10 ** prec))))
    else:
        p = prec if conv in 'eE' else max(prec, 1) - 1
        h = abs(x) * Fraction(1, 2 * 10 ** p)
    core.ENGINE.define(z3.And(core.tobool(Y - x <= h), core.tobool(x - Y <= h)), y)
    c[k] = (Y, x)
    return Y


def parse(s, kind):
    """float(s)/int(s) for a string that contains a token; None if not a token"""
    t = s.strip()
    neg = False
    if t.startswith('-'):
        neg, t = True, t[1:]
    m = TOKEN.fullmatch(t)
    if not m:
        raise ValueError('could not convert string to number: %r' % s)
    x, fmt = core.ENGINE.tokens[int(m.group(1))]
    if isinstance(x, SymBool):
        raise ValueError('could not convert string to number: bool')
    if kind == 'i' and not (x.is_int or (fmt and fmt[0] in 'di')):
        raise ValueError('invalid literal for int()')
    y = rounded(x, fmt)
    if kind == 'f':
        y = y.real_()
    return -y if neg else y


def pad(t, flags, width):
    if width:
        w = int(width)
        t = t.ljust(w) if '-' in flags else t.rjust(w)
    return t


def has_sym_arg(b):
    if isinstance(b, Sym):
        return True
    if isinstance(b, tuple):
        return any(isinstance(x, Sym) for x in b)
    if isinstance(b, dict):
        return any(isinstance(x, Sym) for x in b.values())
    return False


def mod(a, b):
    """a % b of the source"""
    if hasattr(a, 'sx_mod'):
        return a.sx_mod(b)
    if not isinstance(a, str):
        return a % b
    from symx import sstr
    if sstr.is_sstr(a):
        a = sstr.full(a)
    if not has_sym_arg(b):
        if isinstance(b, core.np.ndarray) and b.dtype == object and b.ndim == 0:
            b = b.item()
            return mod(a, b)
        return a % b
    args = list(b) if isinstance(b, tuple) else [b]
    out = []
    pos = 0
    ai = 0
    for m in FMT.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, _, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if width == '*':
            width = int(args[ai])
            ai += 1
        if prec == '*':
            prec = int(args[ai])
            ai += 1
        if key is not None:
            v = b[key]
        else:
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[ai]
            ai += 1
        if conv == 'f' and isinstance(v, SymNum) and core.ENGINE.decq is not None and not hasattr(v, 'fixed') and not v.is_int:
            from symx import dec
            v = dec.make(v)
        if conv == 'f' and hasattr(v, 'fixed') and isinstance(v, SymNum):
            t = v.fixed(6 if prec is None else int(prec))
            out.append(pad(('+' if '+' in flags and not t.startswith('-') else '') + t, flags, width))
        elif isinstance(v, SymNum):
            if conv in 'dioux' and not v.is_int:
                v = core.trunc(v)
            if conv in 'cxXo':
                v = int(v)
                out.append(('%' + flags + (str(width) if width else '') + conv) % v)
                continue
            t = put(v, (conv.replace('r', 's').replace('u', 'd'), int(prec) if prec is not None else None))
            out.append(pad(t, flags, width))
        elif isinstance(v, SymBool):
            v = bool(v)
            out.append(('%' + flags + (str(width) if width else '') + conv) % v)
        else:
            sp = '%' + flags + (str(width) if width else '') + ('.' + str(prec) if prec is not None else '') + conv
            out.append(sp % (v,))
    out.append(a[pos:])
    if isinstance(b, tuple) and ai < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)


def fmt_spec(x, spec):
    """format(x, spec)"""
    if not spec:
        return put(x, None)
    m = re.fullmatch(r'([<>=^]?)([+\- ]?)(0?)(\d*)(?:\.(\d+))?([a-zA-Z%]?)', spec)
    if not m or m.group(6) in ('x', 'X', 'o', 'b', 'c', 'n', '%'):
        return format(int(x) if x.is_int else float(x), spec)
    conv = m.group(6) or ('s' if m.group(5) is None else 'g')
    t = put(x, (conv, int(m.group(5)) if m.group(5) else None))
    return pad(t, '-' if m.group(1) == '<' else '', m.group(4))
