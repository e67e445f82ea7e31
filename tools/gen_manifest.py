"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules present."""
import json, os, re, subprocess, sys, ast
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
TECH = {
 'exploration': 'bounded exhaustive enumeration of executions of the real code against a reference model',
 'model_checking': 'explicit-state / stateless model checking: exhaustive exploration of operation histories or schedules of the real code, every step compared with a reference model',
 'fault_enumeration': 'exhaustive fault enumeration on the real code',
}
for p in props:
    f = os.path.join(root, 'mc', 'props', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'not built yet: no check is claimed for this property at this commit'})
        continue
    tree = ast.parse(open(f).read())
    c = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'TECHNIQUE', 'BOUNDS', 'NOTE', 'ASSUME', 'RULE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    b = c.get('BOUNDS')
    note = c.get('NOTE') or ''
    note += (' ' if note else '') + 'Exhaustive within stated bounds, on the compiled extension itself. Bounds (quick): ' + (b['quick'] if isinstance(b, dict) else str(b))
    if c.get('ASSUME'):
        note += ' Assumes: ' + '; '.join(c['ASSUME'])
    checks.append({'property': p['id'], 'quick_cmd': f'bash ./check.sh {p["id"]} quick', 'thorough_cmd': f'bash ./check.sh {p["id"]} thorough',
                   'evidence_file': f'evidence/{p["id"]}.json', 'technique': c.get('TECHNIQUE') or TECH[c['LEVEL']], 'level': c['LEVEL'], 'level_note': note})
m = {'version': 1, 'setup_cmd': 'bash ./setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Each check rebuilds the extension from /repo (incremental maturin build), then enumerates its space in 8 worker processes. replay.sh <artefact> re-runs a recorded violation.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'checks', len(na), 'not built')
