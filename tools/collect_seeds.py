"""Collect the outcomes of tools/seed runs (given log files) into seed_results.json."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, 'seed_results.json')
res = json.load(open(p)) if os.path.exists(p) else {}
for fn in sys.argv[1:]:
    cur = None
    for l in open(fn, errors='replace'):
        if m := re.match(r'##### (\w+)', l):
            cur = m[1]
        elif cur and (m := re.match(r'CHECK rc (\d+)', l)):
            meta = os.path.join(here, '..', 'seeded', cur, 'meta.json')
            if os.path.exists(meta):
                prop = json.load(open(meta))['property']
                old = res.get(cur, {})
                c = {prop} if m[1] == '1' else set()
                res[cur] = {'caught': sorted(c), 'remark': old.get('remark', '')}
for k in list(res):
    if not os.path.exists(os.path.join(here, '..', 'seeded', k, 'meta.json')):
        del res[k]
json.dump(dict(sorted(res.items())), open(p, 'w'), indent=1)
print(len(res), 'recorded; missing', sorted(set(os.listdir(os.path.join(here, '..', 'seeded'))) - set(res)), 'not caught', [k for k in res if not res[k]['caught']])
