#!/bin/bash
# dev helper: rebuilds /repo and compares the tests with the baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
st=set(b['stable']); 
passed=set(o.get('passed',[])) if isinstance(o.get('passed'),list) else {k for k,v in o.items() if v=='passed'}
print('stable',len(st),'missing/failed',sorted(st-passed)[:10])
P
