"""Writes /verif/DESIGN.md: tools/design_head.md, one section per property (from properties.jsonl, the property's module, the
evidence of the last quick and thorough run), known_findings.json and seeded/*/meta.json with tools/seed_results.json."""
import json, os, ast, re, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
R = lambda *p: os.path.join(root, *p)
props = [json.loads(l) for l in open(R('properties.jsonl'))]
kf = json.load(open(R('known_findings.json')))['findings']
costs = json.load(open(R('tools', 'costs.json'))) if os.path.exists(R('tools', 'costs.json')) else {}
seeds = json.load(open(R('tools', 'seed_results.json'))) if os.path.exists(R('tools', 'seed_results.json')) else {}
out = [open(R('tools', 'design_head.md')).read().rstrip(), '', '## The properties, one by one', '']
for p in props:
    t = ast.parse(open(R('mc', 'props', p['id'].lower() + '.py')).read())
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'BOUNDS', 'ASSUME', 'RULE', 'ORACLE')}
    doc = ' '.join((ast.get_docstring(t) or '').split())
    doc = re.sub(r'^C\d\d: ', '', doc)
    out += [f"### {p['id']} — {p['title']}", '', f"*Level:* `{c['LEVEL']}`. *Module:* `mc/props/{p['id'].lower()}.py`.", '', f'**What is done, against which oracle.** {doc[0].upper() + doc[1:]}', '', f"**What is enumerated.** {c['RULE']}.", '']
    b = c.get('BOUNDS')
    if b: out += [f"**Bounds.** Quick: {b['quick']}. Thorough: {b['thorough']}." if isinstance(b, dict) else f'**Bounds.** {b}', '']
    if c.get('ASSUME'): out += ['**Assumed / not judged.** ' + '; '.join(c['ASSUME']) + '.', '']
    out += [f"**Why tests cannot settle it.** {p['why_tests_cant']}", '']
    k = costs.get(p['id'])
    if k: out += ['**Cost (8 cores).** ' + '; '.join(f"{tier}: {v['evaluations']:,} executions judged, {v['wall']} s" + (f", {v['states']:,} states, {v['transitions']:,} transitions" if v.get('states') else '') for tier, v in k.items()) + '.', '']
    s = [f for f in kf if f['property'] == p['id']]
    kn = [f for f in s if f['status'] == 'known']
    if s: out += [f"**Defects of the code found here.** {len(s) - len(kn)} repaired" + (f", {len(kn)} recorded as known findings" if kn else '') + ' (list below).', '']
out += ['## Genuine defects found', '', 'Every entry was demonstrated on the real code. "fixed" entries name the `fix:` commit in /repo; each was checked against the whole test suite.', '', '| property | status | what |', '|---|---|---|']
for f in kf:
    w = f['what']
    m = re.match(r'fixed: property=\S+ (\S+) (.*)', w, re.S)
    out.append(f"| {f['property']} | {'fixed ' + m[1] if m else 'known finding `' + f['match'] + '`'} | {(m[2] if m else w).replace('|', '/')} |")
out += ['', '## Planted bugs (seeded/)', '', 'Written from the statement of a property and the code; each compiles, passes the 5559 stable tests and has a demonstration. "caught by" lists the quick checks that report it.', '', '| id | property | what it breaks | needs | caught by | remark |', '|---|---|---|---|---|---|']
for d in sorted(glob.glob(R('seeded', '*'))):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    s = seeds.get(i, {})
    out.append('| ' + ' | '.join(str(x).replace('|', '/').replace('\n', ' ') for x in (i, m['property'], m['what_it_breaks'], m['needs'], ', '.join(s.get('caught', [m['property']])), s.get('remark', ''))) + ' |')
open(R('DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print('DESIGN.md', len(out))
