#!/bin/bash
# build + stable tests of a tree, compared with the baseline
bash /opt/vp/build.sh >/tmp/rt.build 2>&1 || { tail -5 /tmp/rt.build; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
def passed(x):
    for k in('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x: 
            v=x[k]; return set(v if isinstance(v,list) else [t for t in v])
    return None
pb,pr=passed(b),passed(r)
if pb is None or pr is None: print({k:type(v).__name__ for k,v in b.items()},{k:type(v).__name__ for k,v in r.items()})
else:
    m=pb-pr; print('missing',len(m),'of',len(pb)); [print('  ',x) for x in sorted(m)[:20]]
P
