#!/bin/bash
# build and run the stable tests of /repo; prints the ones that do not pass any more
bash /opt/vp/build.sh >/tmp/rt-build.log 2>&1 || { tail -5 /tmp/rt-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt-test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
def passed(x):
    for k in ('passed','stable','tests','pass'):
        if isinstance(x.get(k),list): return set(x[k])
    return None
pb,pr=passed(b),passed(r)
print(sorted(b.keys()),sorted(r.keys()))
print('baseline',len(pb or []),'now',len(pr or []),'lost',sorted((pb or set())-(pr or set())))
P
