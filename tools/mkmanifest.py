"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for l in open(here + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    f = here + '/gamon/checks/%s.py' % i.lower()
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'monitor not built yet'})
        continue
    src = ast.parse(open(f).read())
    c = {}
    for n in src.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('ASSUMPTIONS', 'TECHNIQUE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        'property': i,
        'quick_cmd': './check %s --tier quick' % i,
        'thorough_cmd': './check %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': c.get('TECHNIQUE', 'runtime monitoring: hooked public API under generated workloads, judged online by an independent reference model'),
        'level': 'exploration',
        'level_note': 'Violations are decided by an oracle on real executions; absence is only shown for the executions observed. Trusts: '
                      + '; '.join(c.get('ASSUMPTIONS', [])),
    })
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are compiled into /repo: monitors attach to the public API from the harness at run time. '
              'sympy-only pure Python: compiler sanitizers and race detectors have nothing to instrument.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
