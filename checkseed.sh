#!/bin/bash
# checkseed.sh ID [notests]: apply to /repo, build, test, demo; then undo.
id=$1; d=/verif/seeded/$id
cd /repo
git diff --quiet || { echo "/repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/b0.log 2>&1
bash $d/demo.sh >/tmp/demo0.log 2>&1 && echo "demo clean: ok" || { echo "demo fails on clean tree"; tail -3 /tmp/demo0.log; exit 1; }
git apply $d/patch.diff || exit 1
if bash /opt/vp/build.sh >/tmp/b1.log 2>&1; then
 bash $d/demo.sh >/tmp/demo1.log 2>&1 && echo "demo PASSES with patch (bad)" || { echo "demo patched: fails (good)"; tail -2 /tmp/demo1.log; }
 if [ -z "$2" ]; then
  bash /opt/vp/test.sh /tmp/t1.json >/tmp/t1.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t1.json'))
m=[x for x in b['stable'] if x not in t['passed']]
print("tests ok" if not m else "TESTS FAIL %s"%m)
P
 fi
 cd /verif; python3 run.py $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])") --brief 2>&1 | tail -6
else
 echo BUILD FAILED; grep -m3 error: /tmp/b1.log
fi
git -C /repo checkout -- .
