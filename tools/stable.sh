#!/bin/bash
# run the repository's tests and compare with the baseline list
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/stable.json'))
def names(x,k): 
    v=x.get(k); return set(v) if isinstance(v,(list,dict)) else set()
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}); print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
P
