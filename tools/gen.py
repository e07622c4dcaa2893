import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import meta
root = os.path.dirname(here)
na = {p for p, _ in meta.NA}
ids = [p['id'] for p in meta.PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in meta.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
TECH = 'symbolic execution of the real Python sources + SMT (z3)'
NOTE = ('Bounded model checking: the real functions of /repo are executed symbolically along every feasible path and each '
        'obligation is decided by z3 for all input values within the bounds stated in the module docstring and the evidence file. '
        'Numbers are exact reals (floating-point rounding is outside); trusted: the numpy/pandas models in symx, z3; '
        'counterexamples are replayed on the unmodified code before being reported.')
checks = []
for p in meta.PROPS:
    if p['id'] in na:
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'],
                       thorough_cmd='python3 check.py %s thorough' % p['id'], technique=TECH, level='model_checking',
                       level_note=p['note'] or NOTE))
m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks,
         not_applicable=[dict(property=a, reason=b) for a, b in meta.NA],
         notes='No hooks in /repo. /repo carries only "fix:" commits; see known_findings.json and DESIGN.md.')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
