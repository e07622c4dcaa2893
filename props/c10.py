"""C10 parameter names files round-trip names, labels, comments, derived flags and order."""
import os
from symx.run import Scenario
from props.common import include

PRELOAD = ['getdist.mcsamples', 'getdist.paramnames']
BOUNDS = 'up to 3 parameters; names, labels and comments of up to 3 (quick) / 4 (thorough) symbolic characters over alphabets ' \
         'that contain every character the format treats specially'
OUTSIDE = 'longer texts; line terminators inside labels; "!" in labels (the format reads it as a backslash) and "#" in labels'

NAME = 'aZ9_.#!$'
LABEL = 'a\\ ${*_?\t%='
COMMENT = 'a\\ #!\t*\''


def trimmed(c, s):
    """no leading/trailing white space (stripped by design)"""
    if s:
        for ch in (s[0], s[-1]):
            for w in ' \t':
                c.assume(c.not_(c.eq(ch, w)))


def params(c, U, k, ln, ll, lc, derived):
    out = []
    for i in range(k):
        nm = 'p%d' % i + c.str('n%d' % i, ln, NAME)
        lb = c.str('l%d' % i, ll, LABEL)
        cm = c.str('c%d' % i, lc, COMMENT)
        trimmed(c, lb)
        trimmed(c, cm)
        out.append((nm, lb, cm, derived[i]))
    P = U.paramnames.ParamNames()
    for nm, lb, cm, d in out:
        p = U.paramnames.ParamInfo(name=nm, comment=cm, derived=d)
        p.label = lb
        P.names.append(p)
    return P, out


def verify(c, Q, want, label, comments=True):
    c.check(len(Q.names) == len(want), label + ': number of parameters')
    if len(Q.names) != len(want):
        return
    for p, (nm, lb, cm, d) in zip(Q.names, want):
        c.check_eq(p.name, nm, label + ': name')
        c.check_eq(p.label, lb, label + ': label')
        if comments:
            c.check_eq(p.comment, cm, label + ': comment')
        c.check(bool(p.isDerived) == d, label + ': derived flag')
    c.check(Q.numParams() == len(want), label + ': numParams')
    c.check(Q.numDerived() == len([1 for w in want if w[3]]), label + ': numDerived')
    c.check(Q.numNonDerived() == len([1 for w in want if not w[3]]), label + ': numNonDerived')
    c.check(c.eq(Q.list(), [w[0] for w in want]), label + ': list()')
    c.check(c.eq(Q.labels(), [w[1] for w in want]), label + ': labels()')
    c.check(c.eq(Q.getDerivedNames(), [w[0] for w in want if w[3]]), label + ': derived names')
    c.check(c.eq(Q.getRunningNames(), [w[0] for w in want if not w[3]]), label + ': running names')


def roundtrip(c, U, k, ln, ll, lc, derived):
    P, want = params(c, U, k, ln, ll, lc, derived)
    f = os.path.join(c.scratch, 'x.paramnames')
    P.saveAsText(f)
    Q = U.paramnames.ParamNames(f)
    verify(c, Q, want, 'saved and loaded')
    c.observe('n', len(Q.names))
    Q.saveAsText(f)
    verify(c, U.paramnames.ParamNames(f), want, 'saved again')


class Store:
    """keyword provider: integers and (text, comment) pairs"""

    def __init__(self):
        self.d = {}

    def setKeyWord_int(self, k, v):
        self.d[k] = v

    def keyWord_int(self, k):
        return self.d[k]

    def setKeyWord(self, k, v, comment=None):
        self.d[k] = (v, comment)

    def keyWordAndComment(self, k):
        return self.d[k]


def keywords(c, U, k, ln, ll, lc, derived):
    P, want = params(c, U, k, ln, ll, lc, derived)
    for w in want:
        for ch in w[0] + w[1]:
            c.assume(c.not_(c.eq(ch, '!')))
    s = Store()
    P.saveKeyWords(s)
    Q = U.paramnames.ParamNames()
    n = Q.loadFromKeyWords(s)
    c.check(n == k, 'number of keywords')
    verify(c, Q, want, 'keywords')


def parse(c, U, sep, ll, lc, star):
    """hand-written lines: any white space between columns, comments after #, ! for backslash, blank lines ignored"""
    l1 = c.str('l', ll, 'a!\\_ {')
    trimmed(c, l1)
    cm = c.str('c', lc, COMMENT)
    trimmed(c, cm)
    f = os.path.join(c.scratch, 'y.paramnames')
    with open(f, 'w', encoding='utf-8') as fh:
        fh.write('\n  first' + ('*' if star else '') + sep + l1 + sep + '#' + sep + cm + '\n\n   \nsecond\n')
    Q = U.paramnames.ParamNames(f)
    c.check(Q.list() == ['first', 'second'], 'names in file order')
    if Q.list() != ['first', 'second']:
        return
    p, q = Q.names
    c.check(bool(p.isDerived) == star and not q.isDerived, 'star marks derived')
    lab = p.label
    c.check(len(lab) == len(l1), 'label length')
    if len(lab) == len(l1):
        for x, y in zip(lab, l1):
            c.check(c.or_(c.and_(c.eq(y, '!'), c.eq(x, '\\')), c.and_(c.not_(c.eq(y, '!')), c.eq(x, y))), 'label text')
    c.check_eq(p.comment, cm, 'comment text')
    c.check(q.comment == '', 'no comment')


def override(c, U, ll, set_derived):
    """labels taken from another names file go to the parameters of the same name only"""
    f = os.path.join(c.scratch, 'z.paramnames')
    lb = [c.str('l%d' % i, ll, 'ab\\') for i in range(3)]
    with open(f, 'w', encoding='utf-8') as fh:
        fh.write('c*\t%s\nother\t%s\na\t%s\n' % tuple(lb))
    P = U.paramnames.ParamNames(names=['a', 'b', 'c'], labels=['la', 'lb', 'lc'])
    if set_derived:
        P.setLabelsAndDerivedFromParamNames(f)
    else:
        P.setLabelsFromParamNames(f)
    c.check(P.list() == ['a', 'b', 'c'], 'names unchanged')
    c.check(c.eq(P.labels(), [lb[2], 'lb', lb[0]]), 'labels by name')
    c.check([bool(p.isDerived) for p in P.names] == [False, False, set_derived], 'derived flags only when asked')
    Q = U.paramnames.ParamNames(names=['c', 'a'], setParamNameFile=f)
    c.check(c.eq(Q.labels(), [lb[0], lb[2]]), 'labels by name in constructor')


def badname(c, U, n):
    s = c.str('s', n, 'a_ *?\t')
    bad = c.or_([c.eq(ch, b) for ch in s for b in ' *?\t'])
    _, e = c.raises(lambda: U.paramnames.ParamInfo(name=s))
    c.check(c.eq(e is not None, bad), 'names with white space or wildcards are refused, others accepted')
    if e is None:
        P = U.paramnames.ParamNames()
        p = P.addDerived(s, label='x')
        c.check(p.isDerived, 'added parameters are derived by default')
        c.check(not P.addDerived(s + '2', label='x', derived=False).isDerived, 'derived=False respected')


def scenarios(tier):
    yield from include('c24', tier, 'files')
    th = tier == 'thorough'
    for k, ln, ll, lc, d in [(1, 1, 2, 2, (False,)), (1, 0, 3, 0, (True,)), (1, 0, 0, 2, (False,)), (2, 0, 1, 1, (True, False)),
                             (3, 1, 0, 0, (False, True, False)), (2, 0, 1, 0, (False, True)), (1, 0, 0, 3, (True,))]:
        yield Scenario(roundtrip, dict(k=k, ln=ln, ll=ll, lc=lc, derived=d))
    for k, ln, ll, lc, d in [(1, 0, 2, 2, (False,)), (2, 0, 1, 1, (True, False)), (2, 1, 1, 0, (False, True))]:
        yield Scenario(keywords, dict(k=k, ln=ln, ll=ll, lc=lc, derived=d))
    for sep in (' ', '\t', '  \t'):
        yield Scenario(parse, dict(sep=sep, ll=2, lc=1, star=sep != '\t'))
    for sd in (False, True):
        yield Scenario(override, dict(ll=1, set_derived=sd))
    yield Scenario(badname, dict(n=2))
    if th:
        for k, ln, ll, lc, d in [(1, 2, 3, 2, (False,)), (1, 0, 4, 0, (True,)), (1, 0, 2, 3, (True,)), (2, 1, 2, 1, (True, False)),
                                 (2, 0, 2, 2, (False, True))]:
            yield Scenario(roundtrip, dict(k=k, ln=ln, ll=ll, lc=lc, derived=d))
            yield Scenario(keywords, dict(k=k, ln=ln, ll=ll, lc=lc, derived=d))
        yield Scenario(parse, dict(sep=' ', ll=3, lc=2, star=True))
        yield Scenario(badname, dict(n=3))
