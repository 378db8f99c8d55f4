#!/bin/sh
# rebuild /repo and compare its tests with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
print('missing:',[x for x in b['stable'] if x not in t['passed']], len(t['passed']),'passed')
P
