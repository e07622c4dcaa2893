"""C13 a parameter is found by its name, any of its aliases and any matching pattern, and never by anything else."""
from symx.run import Scenario

PRELOAD = ['getdist.paramnames', 'getdist.plots']
BOUNDS = 'up to 4 parameters, 3 aliases, 2 alias dictionaries (every membership pattern); names and patterns of up to 3 symbolic characters'
OUTSIDE = 'aliases that are also the name of another parameter (ambiguous); character-class patterns'


def globmatch(p, s):
    """independent definition of * and ? patterns (concrete text)"""
    if not p:
        return not s
    if p[0] == '*':
        return any(globmatch(p[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and (p[0] == '?' or p[0] == s[0]) and globmatch(p[1:], s[1:])


def lookup(c, U, n):
    """exact lookup by symbolic name"""
    P = U.paramnames.ParamNames()
    names = ['a1', 'b', 'ab']
    P.names = [U.paramnames.ParamInfo(name=x, number=i + 10) for i, x in enumerate(names)]
    q = c.str('q', n, 'ab1')
    hits = [c.eq(q, x) for x in names]
    i = P.numberOfName(q)
    c.check(P.hasParam(q) == (i != -1), 'hasParam')
    q = c.pin(q)
    p = P.parWithName(q)
    _, e = c.raises(lambda: P.parWithName(q, error=True))
    c.check((e is not None) == (p is None), 'error exactly if not found')
    for k, h in enumerate(hits):
        c.check(c.eq(i == k, h), 'number of name')
        c.check(c.eq(p is P.names[k], h), 'parameter with name')
        c.check(c.eq(P.names[k].nameEquals(q), h), 'nameEquals')
        c.check(P.names[k].nameEquals(P.names[k]) and not P.names[k].nameEquals(P.names[k - 1]), 'nameEquals of parameter objects')
        c.check(P.parWithNumber(10 + k) is P.names[k], 'parWithNumber')
    if p is None:
        c.check(c.not_(c.or_(hits)), 'not found only if absent')
    _, e = c.raises(lambda: P.parWithName(3))
    c.check(e is not None, 'only strings are names')


def pattern(c, U, ln, lp):
    names = [c.str('n%d' % i, ln, 'ab') for i in range(2)] + ['b']
    pat = c.pin(c.str('p', lp, 'a*?b'))
    P = U.paramnames.ParamNames()
    P.names = [U.paramnames.ParamInfo(name=x) for x in names]
    got = P.getMatches(pat)
    names = [c.pin(x) for x in names]
    want = [P.names[i] for i, x in enumerate(names) if globmatch(pat, x)]
    c.check(got == want, 'exactly the matching parameters, in order')
    c.check(c.eq(P.getMatches(pat, strings=True), [w.name for w in want]), 'matching names')
    if '*' in pat or '?' in pat:
        c.check(P.parsWithNames([pat]) == want, 'patterns expand in lists')
        c.check(P.parsWithNames(pat) == want, 'single pattern')
        c.check(P.parsWithNames(['b', pat]) == [P.parWithName('b')] + want, 'patterns expand in place')
        r, e = c.raises(lambda: U('getdist.plots').GetDistPlotter.get_param_array(None, Root(P), [pat, 'b']))
        c.check(e is None and r == want + [P.parWithName('b')], 'pattern lists for plots')


class Root:
    def __init__(self, P):
        self.paramNames = P


def components(pairs):
    """connected components of alias relations"""
    comp = []
    for names in pairs:
        names = set(names)
        rest = []
        for g in comp:
            if g & names:
                names |= g
            else:
                rest.append(g)
        comp = rest + [names]
    return comp


def rdict(c, tag, keys, aliases, form):
    d = {}
    for k in keys:
        if bool(c.bool('%s_%s' % (tag, k))):
            v = [a for a in aliases if bool(c.bool('%s_%s_%s' % (tag, k, a)))]
            d[k] = v[0] if form == 'str' and len(v) == 1 else tuple(v) if form == 'tuple' else v
    return d


def aslist(v):
    return [v] if isinstance(v, str) else list(v or [])


def merge(c, U, k1, a1, k2, a2, form, keep):
    d1, d2 = rdict(c, 'd1', k1, a1, form), rdict(c, 'd2', k2, a2, form)
    m = U.paramnames.mergeRenames(d1, d2, keep_names_1st=keep)
    comp = components([[k] + aslist(v) for d in (d1, d2) for k, v in d.items()])
    got = [set([k] + list(v)) for k, v in m.items()]
    for g in got:
        c.check(g in comp, 'groups are the connected names')
    c.check(len(got) == len(set(map(frozenset, got))), 'each group once')
    for g in comp:
        if len(g) > 1 or keep and g & set(d1):
            c.check(g in got, 'no alias is lost')
        elif not keep:
            c.check(g not in got, 'no trivial groups')
    for k, v in m.items():
        c.check(k not in v and len(v) == len(set(v)), 'no repeats')
        g = set([k] + list(v))
        c.check(k in d1 if g & set(d1) else k in d2, 'named by the left-most input')


def update(c, U, al, form, via):
    """after setting aliases every connected name finds the parameter"""
    names = ['p', 'q', 'r']
    own = {'p': ['x'] if bool(c.bool('own_p')) else [], 'q': ['y'] if bool(c.bool('own_q')) else [], 'r': []}
    P = U.paramnames.ParamNames()
    P.names = [U.paramnames.ParamInfo(name=n, renames=own[n]) for n in names]
    d = rdict(c, 'd', al[0], al[1], form)
    groups = components([[n] + own[n] for n in names] + [[k] + aslist(v) for k, v in d.items()])
    if any(len(g & set(names)) > 1 for g in groups):
        return c.cut('ambiguous')
    if via == 'update':
        P.updateRenames(d)
        look = lambda n: P.parWithName(n)
    else:
        P.updateRenames({})
        look = lambda n: P.parWithName(n, renames=d)
    for n in names:
        c.check(look(n) is P.names[names.index(n)], 'own name finds the parameter')
    if via == 'update':
        for g in groups:
            own_ = g & set(names)
            for a in g:
                p = look(a)
                if own_:
                    c.check(p is P.names[names.index(list(own_)[0])], 'every alias finds the parameter')
                else:
                    c.check(p is None, 'unrelated names find nothing')
        R = P.getRenames()
        for n in names:
            g = [g for g in groups if n in g][0]
            c.check(set(R.get(n, [])) == g - {n}, 'known aliases')
            c.check((n in R) == (len(g) > 1), 'parameters without aliases are not listed')
        c.check(P.list() == names, 'names unchanged')
        # idempotent
        before = {k: set(v) for k, v in R.items()}
        P.updateRenames(d)
        c.check({k: set(v) for k, v in P.getRenames().items()} == before, 'repeating changes nothing')
    else:
        for k, v in d.items():
            given = {k} | set(aslist(v))
            direct = [n for n in names if given & (set([n] + own[n]) | set(aslist(d.get(n))))]
            p = look(k)
            c.check((p is not None) == bool(direct), 'alias dictionary finds the parameter')
            if p is not None and direct:
                c.check(p.name in direct, 'alias dictionary finds the right parameter')
            for a in aslist(v):
                if k in names:
                    q = look(a)
                    c.check(q is not None, 'alias of a parameter name finds it')
    c.check(look('nosuch') is None, 'unknown names find nothing')


def lists(c, U):
    """mixed lists of names, parameter objects; several missing"""
    P = U.paramnames.ParamNames(names=['a', 'b', 'cc'])
    a, b, cc = P.names
    pick = [c.choice('i%d' % k, 4) for k in range(2)]
    opt = ['a', b, 'nosuch', 'cc']
    want = [a, b, None, cc]
    r = P.parsWithNames([opt[i] for i in pick])
    c.check(r == [want[i] for i in pick], 'each entry to its own parameter')
    _, e = c.raises(lambda: P.parsWithNames([opt[i] for i in pick], error=True))
    c.check((e is not None) == (2 in pick), 'missing names are errors when asked')
    other = U.paramnames.ParamInfo(name='other', renames=['cc'] if bool(c.bool('ren')) else [])
    r, e = c.raises(lambda: U('getdist.plots').GetDistPlotter.get_param_array(None, Root(P), [opt[pick[0]], other]))
    c.check((e is not None) == (pick[0] == 2), 'plots: unknown names fail')
    if e is None and pick[0] != 2:
        c.check(len(r) == 2 and r[0] is want[pick[0]] and (r[1] is cc if other.renames else r[1] is other),
                'plots: parameter objects fall back to themselves')
    F = P.filteredCopy([P.names[i].name for i in range(3) if i != pick[0]])
    c.check(F.names == [P.names[i] for i in range(3) if i != pick[0]], 'filteredCopy keeps order')
    D = U.paramnames.ParamNames(names=['a', 'b', 'cc'])
    D.deleteIndices([i for i in pick])
    c.check(D.list() == [x for i, x in enumerate(['a', 'b', 'cc']) if i not in pick], 'deleteIndices')


def scenarios(tier):
    th = tier == 'thorough'
    yield Scenario(lookup, dict(n=1))
    yield Scenario(lookup, dict(n=2))
    for ln, lp in [(2, 1), (1, 2), (2, 2)] + ([(2, 3), (3, 3)] if th else [(3, 2)]):
        yield Scenario(pattern, dict(ln=ln, lp=lp))
    for keep in (False, True):
        for form in ('list', 'str', 'tuple'):
            yield Scenario(merge, dict(k1=['a', 'b'], a1=['x', 'y'], k2=['x', 'z'], a2=['a', 'y'], form=form, keep=keep))
        yield Scenario(merge, dict(k1=['a', 'b'], a1=['a', 'x'], k2=['b', 'x'], a2=['x', 'a'], form='list', keep=keep))
    for via in ('update', 'arg'):
        for al in [(['p', 'z'], ['x', 'z', 'w']), (['x', 'r'], ['q', 'z', 'w']), (['x', 'y'], ['p', 'z', 'w'])]:
            yield Scenario(update, dict(al=al, form='list', via=via))
        yield Scenario(update, dict(al=(['p', 'r'], ['x', 'w']), form='tuple', via=via))
        yield Scenario(update, dict(al=(['p', 'r'], ['x', 'w']), form='str', via=via))
    yield Scenario(lists, dict())
