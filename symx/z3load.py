"""Make z3 importable from the python that runs /repo's own tests.

The interpreter that builds and tests /repo (/opt/venv) has numpy/scipy/pandas but no z3;
the tooling venv has z3 but other numpy versions.  Only the z3 package is taken from there."""
import importlib.util
import sys

_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
if 'z3' not in sys.modules:
    _spec = importlib.util.spec_from_file_location('z3', _P + '/__init__.py', submodule_search_locations=[_P])
    _m = importlib.util.module_from_spec(_spec)
    sys.modules['z3'] = _m
    _spec.loader.exec_module(_m)
import z3  # noqa
