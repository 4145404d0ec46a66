#!/bin/bash
# rebuild /repo, run its tests, compare with the baseline list
bash /opt/vp/build.sh >/tmp/rt.build 2>&1 || { tail -30 /tmp/rt.build; echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
def passed(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return set(x[k])
    print(list(x)[:10])
bp,rp=passed(b),passed(r)
print('baseline',len(bp),'passing now',len(rp),'missing',sorted(bp-rp)[:20])
P
