"""tools/costs.json from evidence/*.json (run after a check)"""
import json, os, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
f = os.path.join(root, 'tools', 'costs.json')
c = json.load(open(f)) if os.path.exists(f) else {}
for e in glob.glob(os.path.join(root, 'evidence', 'C*.json')):
    d = json.load(open(e))
    k = d['coverage']
    c.setdefault(d['property'], {})[d['tier']] = {'evaluations': k['evaluations'], 'wall': round(d.get('wall_s', k.get('wall_s', d.get('wall_seconds', 0)))), 'states': k.get('states'), 'transitions': k.get('transitions')}
json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
