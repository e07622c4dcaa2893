"""writes DESIGN.md from tools/design_head.md, the scenario modules, the property list, known_findings.json and seeded/"""
import ast, glob, json, os, re, sys, textwrap
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import meta
na = dict(meta.NA)


def module(pid):
    t = ast.parse(open(os.path.join(root, 'props', pid.lower() + '.py')).read())
    out = {'doc': ast.get_docstring(t) or ''}
    funcs = []
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
        if isinstance(n, ast.FunctionDef):
            funcs.append((n.name, ast.get_docstring(n)))
    src = ast.dump(t)
    out['funcs'] = [(a, d) for a, d in funcs if re.search(r"func=Name\(id='Scenario'[^)]*\), args=\[Name\(id='%s'" % a, src) or
                    re.search(r"id='%s'" % a, ast.dump([n for n in t.body if isinstance(n, ast.FunctionDef) and n.name == 'scenarios'][0]))]
    return out


bugs = {}
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    m['id'] = os.path.basename(os.path.dirname(f))
    d = open(os.path.join(os.path.dirname(f), 'patch.diff')).read()
    m['files'] = sorted(set(re.findall(r'^\+\+\+ b/(\S+)', d, re.M)))
    bugs.setdefault(m['property'], []).append(m)
fixed = json.load(open(os.path.join(root, 'known_findings.json')))
o = [open(os.path.join(here, 'design_head.md')).read().rstrip(), '', '## Properties', '',
     'Every claimed property: level `model_checking`, deciding method symbolic execution of the real sources + z3, as described',
     'above. `checks` lists the scenario families (each is run for several parameter sets; `scenarios(tier)` in the module gives them).', '']
for p in meta.PROPS:
    if p['id'] in na:
        continue
    m = module(p['id'])
    o += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '']
    o += ['- over: %s' % p['quantifier']['text']]
    o += ['- code: ' + '; '.join('%s (%s)' % (x['name'], x['where']) for x in p['anchors']['mechanism'])]
    if m['doc']:
        o += ['- oracle: ' + ' '.join(m['doc'].split())]
    o += ['- checks: ' + '; '.join('`%s`%s' % (a, ': ' + ' '.join(d.split()) if d else '') for a, d in m['funcs'])]
    o += ['- bounds: ' + ' '.join(m.get('BOUNDS', '').split())]
    if m.get('OUTSIDE'):
        o += ['- outside: ' + ' '.join(m['OUTSIDE'].split())]
    for a in m.get('ASSUMPTIONS', []):
        o += ['- assumes: ' + a]
    for b in bugs.get(p['id'], []):
        o += ['- planted %s (%s): %s; needs %s' % (b['id'], ', '.join(os.path.basename(f) for f in b['files']), b['what_it_breaks'], b['needs'])]
    o += ['- tests cannot settle it: ' + p['why_tests_cant'], '']
o += ['## Not applicable', '']
for p in meta.PROPS:
    if p['id'] in na:
        o += ['- **%s %s**: %s' % (p['id'], p['title'], na[p['id']])]
o += ['', '## Defects found by the checks and repaired in /repo', '',
      'No unrepaired finding is listed (known_findings.json `findings` is empty: no KNOWN-FINDING lines). Repaired:', '']
for f in fixed['fixed']:
    o += ['- ' + f.replace('fixed: property=', '')]
o += ['', open(os.path.join(here, 'design_tail.md')).read().rstrip(), '']
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(o))
print(sum(len(v) for v in bugs.values()), 'bugs')
