#!/bin/bash
# try.sh ID...: apply each planted bug to /repo, build, test, demo, check; undo.
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo; git diff --quiet || { echo dirty; exit 1; }
  if [ -z "$NODEMO" ]; then bash /opt/vp/build.sh >/tmp/plant/b.log 2>&1; bash $D/demo.sh >/tmp/plant/$id.demo0 2>&1; d0=$?; else d0=-; fi
  git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/plant/b.log 2>&1; then
    if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/plant/out.json >/dev/null 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant/out.json'))
m=set(b['stable'])-set(o['passed']);print('tests ok' if not m else 'TESTS FAIL: %s'%sorted(m)[:3])"); else t=-; fi
    if [ -z "$NODEMO" ]; then bash $D/demo.sh >/tmp/plant/$id.demo1 2>&1; d1=$?; else d1=-; fi
    if grep -q "exe=" /verif/tools/checks.py && grep -q "\"$P\": c(" /verif/tools/checks.py; then
    (cd /verif; VERIF_SEED=${SEED:-1} timeout 900 python3 vf.py $P >/tmp/plant/$id.check 2>&1); c=$?; else c=none; fi
  else t="BUILD FAILS"; d1=-; c=-; fi
  git checkout -q -- .
  echo "$id ($P): demo $d0/$d1, $t, check exit $c $(grep -a VIOLATION /tmp/plant/$id.check 2>/dev/null | head -1)"
done
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1
