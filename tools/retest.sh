#!/bin/bash
# run the repository's tests and compare with the baseline of stable tests
bash /opt/vp/test.sh /tmp/w/out.json > /tmp/w/test.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
def names(x):
    for k in ('passed','pass','stable','stable_pass','tests'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}, {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
bp=names(b); op=names(o)
print('baseline tests no longer passing:', sorted(bp-op)[:30], len(bp-op))
PY
