"""mkbug.py SPEC.py: SPEC defines id, property, edits=[(file, old, new)], demo (python source), needs, breaks.
Confirms the bug in a scratch copy and stores it under seeded/<id>; reports whether the check catches it.
Development tool only; no check uses it."""
import os, re, shutil, subprocess, sys, json, runpy
sp = runpy.run_path(sys.argv[1])
notest = '--notest' in sys.argv
W = '/tmp/mkbug_%d' % os.getpid()
subprocess.check_call(['cp', '-a', '/repo', W])
try:
    for f, old, new in sp['edits']:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', W, 'diff']).decode()
    D = '/verif/seeded/' + sp['id']
    os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'w').write(diff)
    open(D + '/demo.py', 'w').write(sp['demo'].lstrip('\n'))
    open(D + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf -- "$w"' EXIT
export MPLCONFIGDIR=$w MPLBACKEND=Agg XDG_CACHE_HOME=$w TMPDIR=$w PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/python
root=$PWD
cd "$w" && REPO_ROOT=$root /opt/venv/bin/python "$here/demo.py"
''')
    json.dump(dict(property=sp['property'], needs=sp['needs'], what_it_breaks=sp['breaks']), open(D + '/meta.json', 'w'), indent=1)
    def demo(root):
        return subprocess.call(['bash', D + '/demo.sh'], cwd=root, stdout=subprocess.DEVNULL if root == '/repo' else None)
    a = demo('/repo'); b = demo(W)
    print('demo clean rc', a, 'bug rc', b)
    ok = a == 0 and b != 0
    if not notest:
        env = dict(os.environ); os.mkdir(W + '/xt')
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '--junitxml', W + '/j.xml', '-p', 'no:cacheprovider', '--rootdir', W + '/python', 'getdist/tests',
             '--deselect', 'getdist/tests/getdist_test.py::CobayaTest'], cwd=W + '/python', capture_output=True, text=True,
             env=dict(env, MPLBACKEND='Agg', PYTHONPATH=W + '/python', PATH='/opt/venv/bin:' + env['PATH'], XDG_CACHE_HOME=W + '/xc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TMPDIR=W + '/xt', LC_ALL='C.UTF-8', PYTHONNOUSERSITE='1', HOME='/root'))
        print(t.stdout.strip().splitlines()[-1])
        import xml.etree.ElementTree as ET
        good = {c.get('classname') + '::' + c.get('name') for c in ET.parse(W + '/j.xml').iter('testcase') if not list(c)}
        miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in good]
        print('stable tests failing:', miss)
        ok = ok and not miss
    r = subprocess.run(['python3', '/verif/check.py', sp['property'], 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W), cwd='/verif')
    print('check rc', r.returncode, '\n'.join(r.stdout.splitlines()[:6])[:1500], r.stderr[-500:])
    print('RESULT', sp['id'], 'valid' if ok else 'INVALID', 'caught' if r.returncode == 1 else 'MISSED')
    if not ok:
        shutil.rmtree(D)
finally:
    shutil.rmtree(W)
