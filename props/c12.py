"""C12 ini settings: values read are those written, with the documented precedence of included and default files."""
import os
from symx.run import Scenario

PRELOAD = ['getdist.inifile']
BOUNDS = 'up to 3 keys and 3 files; keys and values of up to 3 symbolic characters over alphabets containing every character the ' \
         'format treats specially; numbers fully symbolic; every presence/absence pattern of a key in main, included and default files'
OUTSIDE = 'values with line breaks, leading/trailing blanks, or a "$" that does not start $(name) or $$; longer texts; include cycles'

VAL = 'aT =#(:)!\\,"'
KEY = 'ab[]_.('


def trimmed(c, s):
    if s:
        for ch in (s[0], s[-1]):
            c.assume(c.not_(c.eq(ch, ' ')))


def roundtrip(c, U, lens, lk, order):
    """save, load: the same keys and values, in memory order independent"""
    ini = U.inifile.IniFile()
    want = {}
    for i, n in enumerate(lens):
        k = c.pin('kz'[i % 2] + str(i) + c.str('k%d' % i, lk, KEY))
        v = c.str('v%d' % i, n, VAL)
        trimmed(c, v)
        want[i] = (k, v)
        ini.params[k] = v
    if order:
        ini.readOrder = [want[order[0]][0]]
    f = os.path.join(c.scratch, 'x.ini')
    ini.saveFile(f)
    for q in (U.inifile.IniFile(f), U.inifile.IniFile(f, keep_includes=True), U.inifile.IniFile(f, expand_environment_variables=False)):
        c.check(len(q.params) == len(lens), 'number of settings')
        for i, (k, v) in want.items():
            got = None
            for kk in q.params:
                if kk[:2] == k[:2]:
                    c.check_eq(kk, k, 'key')
                    got = q.params[kk]
            c.check(got is not None, 'setting survives')
            if got is not None:
                c.check_eq(got, v, 'value')
                c.check_eq(q.string(k), v, 'string()')
    q = U.inifile.IniFile(f)
    q.saveFile()
    r = U.inifile.IniFile(f)
    c.check(c.eq(r.params, q.params), 'saving to the same file changes nothing')
    c.check(c.eq(r.readOrder, q.readOrder), 'order is kept')


def numbers(c, U):
    """numbers and truth values written and read back"""
    x, n, b = c.real('x', -1e6, 1e6), c.int('n', -1000, 1000), bool(c.bool('b'))
    xs = c.reals('xs', 3, -1e6, 1e6)
    ns = c.ints('ns', 2, -50, 50)
    ini = U.inifile.IniFile({'x': x, 'n': n, 'b': b})
    ini.params['xs'] = '%s   %s\t%s' % tuple(xs)
    ini.params['ns'] = '%s %s' % tuple(ns)
    ini.params['bs'] = 'T F True %s' % ('T' if b else 'F')
    ini.params['v(1)'] = n
    ini.params['v(2)'] = x
    ini.params['empty'] = ''
    f = os.path.join(c.scratch, 'x.ini')
    ini.saveFile(f)
    q = U.inifile.IniFile(f)
    for s, lab in ((ini, 'in memory'), (q, 'from file')):
        c.check_eq(s.float('x'), x, lab + ': float')
        c.check_eq(s.int('n'), n, lab + ': int')
        c.check(s.bool('b') == b, lab + ': bool')
        c.check(s.bool('b', not b) == b, lab + ': default does not override')
        c.check_all_eq(s.float_list('xs'), xs, lab + ': float list')
        c.check_all_eq(list(s.ndarray('xs')), xs, lab + ': array')
        c.check_all_eq(s.int_list('ns'), ns, lab + ': int list')
        c.check_eq(s.array_int('v', 1), n, lab + ': indexed int')
        c.check_eq(s.array_float('v', 2), x, lab + ': indexed float')
        c.check_eq(s.float('nosuch', 2.5), 2.5, lab + ': default')
        c.check_eq(s.int('empty', 3), 3, lab + ': default of an empty setting')
        c.check(s.bool('empty', True) is True, lab + ': default of an empty bool')
        c.check(s.string('empty', 'd') == '', lab + ': empty string')
        c.check(s.string('empty', 'd', allowEmpty=False) == 'd', lab + ': empty string not allowed')
        c.check(s.hasKey('empty') and not s.isSet('empty') and s.isSet('empty', allowEmpty=True), lab + ': isSet')
        c.check(not s.hasKey('nosuch') and not s.isSet('nosuch'), lab + ': missing')
        for g in (s.float, s.int, s.string):
            _, e = c.raises(lambda: g('nosuch'))
            c.check(e is not None, lab + ': a missing setting without default is an error')

        class Obj:
            pass

        o = Obj()
        o.x, o.n, o.b, o.nosuch, o.xs = 1.0, 2, False, 7, []
        for k in ('x', 'n', 'b', 'nosuch'):
            s.setAttr(k, o)
        c.check_eq(o.x, x, lab + ': attribute float')
        c.check_eq(o.n, n, lab + ': attribute int')
        c.check(o.b == b, lab + ': attribute bool')
        c.check(o.nosuch == 7, lab + ': attribute default')


def truth(c, U, n):
    s = c.str('s', n, 'TFtfa1')
    ini = U.inifile.IniFile({'b': s})
    r, e = c.raises(lambda: ini.bool('b'))
    first = s[0]
    if e is None:
        c.check(c.eq(bool(r), c.eq(first, 'T')), 'T is true')
        c.check(c.or_(c.eq(first, 'T'), c.eq(first, 'F')), 'only T and F are truth values')
    else:
        c.check(c.not_(c.or_(c.eq(first, 'T'), c.eq(first, 'F'))), 'T and F are truth values')


def write(c, name, lines):
    f = os.path.join(c.scratch, name)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, 'w', encoding='utf-8') as fh:
        fh.write('\n'.join(lines) + '\n')
    return f


def precedence(c, U, layout, keys):
    """every pattern of a key being defined in the main, included and default files"""
    files = ['main', 'inc', 'def1', 'def2']
    used = {'inc': ['main', 'inc'], 'def': ['main', 'def1'], 'defdef': ['main', 'def1', 'def2'], 'nest': ['main', 'def1', 'def2'],
            'incdef': ['main', 'inc', 'def1'], 'definc': ['main', 'def1', 'inc'], 'incinc': ['main', 'inc', 'def2']}[layout]
    val, has = {}, {}
    for k in keys:
        for f in used:
            has[f, k] = bool(c.bool('h_%s_%s' % (f, k)))
            val[f, k] = c.str('v_%s_%s' % (f, k), 1, 'xy#=')
    L = {f: ['# comment', ''] + [' %s =  %s ' % (k, val[f, k]) for k in keys if has[f, k]] for f in used}
    if layout in ('inc', 'incdef', 'incinc'):
        L['main'].insert(1, 'INCLUDE(sub/inc.ini)')
    if layout == 'incdef':
        L['inc'].append('DEFAULT(def1.ini)')
    if layout == 'incinc':
        L['inc'].append('INCLUDE(def2.ini)')
    if layout == 'definc':
        L['def1'].append('INCLUDE(inc.ini)')
    if layout in ('def', 'defdef', 'definc'):
        L['main'].append('DEFAULT(sub/def1.ini)')
    if layout == 'defdef':
        L['main'].append('DEFAULT(%s)' % os.path.join(c.scratch, 'sub', 'def2.ini'))
    if layout == 'nest':
        L['main'].insert(0, 'DEFAULT(sub/def1.ini)')
        L['def1'].insert(0, 'DEFAULT(def2.ini)')
    L['main'] += ['END', 'ignored = 1']
    for f in used:
        write(c, ('sub/' if f != 'main' else '') + f + '.ini', L[f])
    m = os.path.join(c.scratch, 'main.ini')
    if layout == 'definc':
        if any(has['def1', k] and has['inc', k] for k in keys):
            return  # set twice within the defaults: unspecified
        dup = False
    elif layout == 'incinc':
        dup = any(has['main', k] + has['inc', k] + has['def2', k] > 1 for k in keys)
    else:
        dup = any(has['main', k] and has['inc', k] for k in keys) if 'inc' in used else False
    q, e = c.raises(lambda: U.inifile.IniFile(m))
    c.check((e is not None) == dup, 'a key set twice is an error, a default is not')
    if e is not None or dup:
        return
    for k in keys:
        src = [f for f in used if has[f, k]]
        c.check(q.hasKey(k) == bool(src), 'key present exactly if some file defines it')
        if src and q.hasKey(k):
            c.check_eq(q.params[k], val[src[0], k], 'value from the overriding file')
    c.check('ignored' not in q.params, 'nothing after END is read')
    c.check(q.original_filename == m, 'file name is that of the file loaded')
    r = U.inifile.IniFile(m, keep_includes=True)
    for k in keys:
        c.check(r.hasKey(k) == has['main', k], 'keep_includes reads the main file only')
    c.check(len(r.includes) == (1 if layout in ('inc', 'incdef', 'incinc') else 0), 'includes recorded')
    c.check(len(r.defaults) == (0 if layout in ('inc', 'incdef', 'incinc') else 2 if layout == 'defdef' else 1), 'defaults recorded')
    # a file saved with its includes kept is equivalent to the original
    m2 = os.path.join(c.scratch, 'copy.ini')
    r.saveFile(m2)
    c.check(c.eq(U.inifile.IniFile(m2).params, q.params), 'saving with includes kept is equivalent')
    before = {f: open(os.path.join(c.scratch, 'sub', f + '.ini'), encoding='utf-8').read() for f in used if f != 'main'}
    q.params['new'] = '1'
    q.saveFile()
    for f in before:
        c.check(open(os.path.join(c.scratch, 'sub', f + '.ini'), encoding='utf-8').read() == before[f], 'included files are never rewritten')
    s = U.inifile.IniFile(m)
    c.check(c.eq(s.params, q.params), 'saved settings load back')


def dupkey(c, U, n):
    a, b = c.str('a', n, 'xy'), c.str('b', n, 'xy')
    f = write(c, 'd.ini', ['%s = 1' % a, '%s=2' % b])
    q, e = c.raises(lambda: U.inifile.IniFile(f))
    c.check(c.eq(e is not None, c.eq(a, b)), 'duplicate keys in one file are an error')


def environment(c, U, pre, post, dollars):
    """$(NAME) is replaced by the environment variable, $$ by a dollar sign"""
    old = os.environ.get('VX_NAME')
    v = 'value'
    os.environ['VX_NAME'] = v
    os.environ.pop('VX_NONE', None)
    try:
        a, b = c.str('a', pre, 'x(/ )'), c.str('b', post, 'x(/ )')
        trimmed(c, a)
        trimmed(c, b)
        f = write(c, 'e.ini', ['k = ' + a + '$(VX_NAME)' + b + ('$$' if dollars else '') + '$(VX_NONE)', 'l = ' + a + '(VX_NAME)' + b])
        q = U.inifile.IniFile(f)
        c.check_eq(q.params['k'], a + v + b + ('$' if dollars else ''), 'expanded')
        c.check_eq(q.params['l'], a + '(VX_NAME)' + b, 'text without placeholders untouched')
        r = U.inifile.IniFile(f, expand_environment_variables=False)
        c.check_eq(r.params['k'], a + '$(VX_NAME)' + b + ('$$' if dollars else '') + '$(VX_NONE)', 'not expanded when switched off')
    finally:
        if old is None:
            os.environ.pop('VX_NAME', None)
        else:
            os.environ['VX_NAME'] = old


def tags(c, U, n):
    """placeholder replacement touches values only, every occurrence"""
    a, b = c.str('a', n, 'xR'), c.str('b', n, 'xR')
    ini = U.inifile.IniFile({'k': a + '%R%' + b + '%R%', 'm': 'plain'})
    ini.replaceTags('%R%', 'new')
    c.check_eq(ini.params['k'], a + 'new' + b + 'new', 'all occurrences replaced')
    c.check(ini.params['m'] == 'plain', 'other values untouched')


def relative(c, U, isabs):
    s = c.str('s', 2, 'a._')
    nm = ('/' if isabs else '') + 'd' + s
    f = write(c, 'sub/r.ini', ['file = ' + nm])
    q = U.inifile.IniFile(f)
    c.check_eq(q.relativeFileName('file'), nm if isabs else os.path.join(c.scratch, 'sub', nm), 'relative to the ini file')


def scenarios(tier):
    th = tier == 'thorough'
    for lens, lk, order in [((2,), 1, None), ((3,), 0, None), ((1, 1), 0, (1,)), ((0, 1), 1, (0,)), ((1, 0, 1), 0, (2,))]:
        yield Scenario(roundtrip, dict(lens=lens, lk=lk, order=order))
    yield Scenario(numbers, dict())
    yield Scenario(truth, dict(n=1))
    yield Scenario(truth, dict(n=2))
    for lay in ('inc', 'def', 'defdef', 'nest', 'incdef', 'definc', 'incinc'):
        yield Scenario(precedence, dict(layout=lay, keys=('a', 'b') if th or lay in ('inc', 'def') else ('a',)))
    yield Scenario(dupkey, dict(n=2))
    for pre, post, d in [(1, 1, False), (0, 2, True), (2, 0, False)]:
        yield Scenario(environment, dict(pre=pre, post=post, dollars=d))
    yield Scenario(tags, dict(n=2))
    for a in (False, True):
        yield Scenario(relative, dict(isabs=a))
    if th:
        for lens, lk, order in [((4,), 1, None), ((2, 2), 1, (1,)), ((2, 1, 1), 0, (2,))]:
            yield Scenario(roundtrip, dict(lens=lens, lk=lk, order=order))
        yield Scenario(environment, dict(pre=2, post=2, dollars=True))
        yield Scenario(truth, dict(n=3))
