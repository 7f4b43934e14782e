#!/bin/bash
# usage: trybug.sh ID   -- confirm a planted change (applies, builds, stable tests pass, demo 0 / nonzero) and run its check
set -u
id=$1; d=/verif/seeded/$id
cd /repo || exit 1
git diff --quiet || { echo "/repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/tb.build 2>&1 || { echo BUILD0; exit 1; }
bash $d/demo.sh >/tmp/tb.demo0 2>&1; r0=$?
git apply $d/patch.diff || { echo NOAPPLY; exit 1; }
bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.test 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
base=b.get('passed') or b.get('tests') or b.get('stable') or []
miss=[t for t in base if t not in r['passed']]
print('tests: baseline %d, missing %d %s'%(len(base),len(miss),miss[:5]))
PY
bash $d/demo.sh >/tmp/tb.demo1 2>&1; r1=$?
echo "demo clean=$r0 (want 0) patched=$r1 (want nonzero)"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "${2:-}" != nocheck ]; then (cd /verif && python3 run.py --property $p | tail -6; echo "check exit ${PIPESTATUS[0]}"); fi
git checkout -- . ; bash /opt/vp/build.sh >/tmp/tb.build 2>&1
