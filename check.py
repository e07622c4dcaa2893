#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]   |   check.py --replay FILE
Decides one property by symbolic execution of /repo's current sources (see DESIGN.md)."""
import os
import shutil
import sys
import tempfile

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


def env(work):
    e = dict(os.environ)
    e.update(PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
             MPLCONFIGDIR=os.path.join(work, 'mpl'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             XDG_CACHE_HOME=os.path.join(work, 'cache'), TMPDIR=os.path.join(work, 'tmp'), VERIF_WORK=work,
             LC_ALL='C.UTF-8', LANG='C.UTF-8')
    for k in ('GETDIST_CONFIG', 'TMPSMALL', 'TRAVIS_BUILD_DIR', 'COSMOMC_SETTINGS'):
        e.pop(k, None)
    return e


if __name__ == '__main__':
    if os.environ.get('VERIF_WORK') and os.environ.get('VERIF_CHILD'):
        sys.path.insert(0, HERE)
        from symx import run

        if sys.argv[1] == '--replay':
            sys.exit(run.replay(sys.argv[2]))
        if sys.argv[1] == '--selftest':
            from symx import selftest

            sys.exit(selftest.main())
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        rc = run.main(sys.argv[1], tier)
        sys.stdout.flush()
        os._exit(rc)
    import subprocess

    work = tempfile.mkdtemp(prefix='verif')
    try:
        os.mkdir(os.path.join(work, 'tmp'))
        os.mkdir(os.path.join(work, 'mpl'))
        e = env(work)
        e['VERIF_CHILD'] = '1'
        rc = subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:], env=e, cwd=work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)
