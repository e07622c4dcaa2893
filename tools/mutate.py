"""Mutation campaign: random single-node changes of the anchored functions, run against the property's own check.
usage: mutate.py N SEED [PROP ...]   (works on copies in /tmp/mut; survivors are printed for review)"""
import ast, copy, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta

REPO = '/repo'
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}


def muts(n):
    c = lambda: copy.deepcopy(n)
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            m = c(); m.ops = [o()]; yield m
    if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
        m = c(); m.op = BIN[type(n.op)](); yield m
    if isinstance(n, ast.BoolOp):
        m = c(); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield m
        for i in range(len(n.values)):
            m = c(); del m.values[i]
            yield m if len(m.values) > 1 else m.values[0]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        yield copy.deepcopy(n.operand)
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
        m = c(); m.value = n.value + 1; yield m
        if n.value:
            m = c(); m.value = 0; yield m
    if isinstance(n, ast.Constant) and type(n.value) is bool:
        m = c(); m.value = not n.value; yield m
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        yield ast.Pass()
    if isinstance(n, ast.Return) and n.value is not None:
        yield ast.Return(value=None)
    if isinstance(n, ast.Slice):
        if n.lower:
            m = c(); m.lower = None; yield m
        if n.upper:
            m = c(); m.upper = None; yield m
        if n.step:
            m = c(); m.step = None; yield m
    if isinstance(n, ast.Call):
        for i in range(len(n.keywords)):
            m = c(); del m.keywords[i]; yield m
        if len(n.args) >= 2:
            m = c(); m.args[0], m.args[1] = m.args[1], m.args[0]; yield m
        if len(n.args) == 1 and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'lower', 'strip', 'sorted', 'abs'):
            yield copy.deepcopy(n.args[0])
    if isinstance(n, ast.IfExp):
        yield copy.deepcopy(n.body); yield copy.deepcopy(n.orelse)


def sites(path, names):
    src = open(os.path.join(REPO, path)).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    tree = ast.parse(src)
    out = []

    def walk(node, inside, name):
        for ch in ast.iter_child_nodes(node):
            ins, nm = inside, name
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                nm = (name + '.' if name else '') + ch.name
                ins = inside or names is None or ch.name in names or nm in names
            if ins and hasattr(ch, 'lineno'):
                seg = lines[ch.lineno - 1]
                if not re.search(r'print\(|logging\.|add_argument|warn|parser', seg):
                    for m in muts(ch):
                        a, e = off[ch.lineno - 1] + ch.col_offset, off[ch.end_lineno - 1] + ch.end_col_offset
                        t = ast.unparse(ast.fix_missing_locations(m))
                        if not isinstance(m, (ast.stmt, ast.Slice, ast.Constant, ast.Call)):
                            t = '(' + t + ')'
                        out.append((nm, ch.lineno, b[a:e].decode(), t, (b[:a] + t.encode() + b[e:]).decode()))
            walk(ch, ins, nm)

    walk(tree, names is None, '')
    return out


def job(w, k):
    pid, path, (fn, line, old, new, text) = k
    root = '/tmp/mut/%d' % w
    f = os.path.join(root, path)
    try:
        compile(text, f, 'exec')
    except SyntaxError:
        return None
    open(f, 'w').write(text)
    try:
        env = dict(os.environ, VERIF_REPO=root, VERIF_PROCS='1', VERIF_SEED='1', VERIF_EVIDENCE='/tmp/mut/ev%d' % w)
        try:
            r = subprocess.run(['python3', '/verif/check.py', pid], env=env, capture_output=True, text=True, timeout=180)
            res = {0: 'SURVIVED', 1: 'killed'}.get(r.returncode, 'EXIT%s' % r.returncode)
            if res == 'SURVIVED' and 'NOTE' in r.stdout:
                res = 'SURVIVED(%s)' % ','.join(sorted(set(re.findall(r'NOTE (\w+)', r.stdout))))
        except subprocess.TimeoutExpired:
            res = 'TIMEOUT'
    finally:
        shutil.copy(os.path.join(REPO, path), f)
    return res


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    rnd = random.Random(seed)
    todo = []
    for p in meta.PROPS:
        if len(sys.argv) > 3 and p['id'] not in sys.argv[3:]:
            continue
        s = []
        for m in p['anchors']['mechanism']:
            names = None if m['name'] in ('whole script',) else set(re.split(r'[,\s]+', m['name'].replace('(s)', '')))
            s += [(p['id'], m['where'], t) for t in sites(m['where'], names)]
        rnd.shuffle(s)
        todo += s[:n]
    W = int(os.environ.get('W', 8))
    for w in range(W):
        shutil.rmtree('/tmp/mut/%d' % w, ignore_errors=True)
        os.makedirs('/tmp/mut/%d' % w)
        subprocess.check_call('cp -r /repo/python /repo/*.ini /repo/batch* /tmp/mut/%d/ 2>/dev/null; cp -r /repo/paramnames /tmp/mut/%d/ 2>/dev/null; true' % (w, w), shell=True)
    import queue
    q = queue.Queue()
    for w in range(W):
        q.put(w)

    def go(k):
        w = q.get()
        try:
            r = job(w, k)
        finally:
            q.put(w)
        if r and r != 'killed':
            print('%s %s %s %s:%d\n    - %s\n    + %s' % (r, k[0], k[1], k[2][0], k[2][1], k[2][2].replace('\n', ' ')[:200], k[2][3].replace('\n', ' ')[:200]), flush=True)
        return k[0], r

    with ThreadPoolExecutor(W) as ex:
        res = list(ex.map(go, todo))
    tot = {}
    for p, r in res:
        if r:
            d = tot.setdefault(p, {})
            d[r] = d.get(r, 0) + 1
    for p in sorted(tot):
        print(p, tot[p])


main()
