#!/bin/bash
# seed_try.sh ID... : confirms planted bugs in /repo (applied, then undone) and runs the checks.
# Prints one line per bug: build, tests, demo without and with it, the verdict of its property's check.
cd /repo; git diff --quiet || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "no build"; exit 2; }
declare -A before
for id in "$@"; do
  d=/verif/seeded/$id; timeout 300 bash $d/demo.sh >/tmp/seed-$id.ok.log 2>&1; before[$id]=$?
done
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/seed-$id.build.log 2>&1 || b=FAILS
  t=$(bash /opt/vp/test.sh /tmp/seed-$id.json >/dev/null 2>&1; python3 -c "
import json;r=json.load(open('/tmp/seed-$id.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('ok' if set(s)<=set(r['passed']) else 'FAILS '+str(sorted(set(s)-set(r['passed']))))")
  timeout 300 bash $d/demo.sh >/tmp/seed-$id.bad.log 2>&1; a=$?
  [ -n "$CHECKS" ] && ps="$CHECKS" || ps=$p
  v=""
  for q in $ps; do python3 /verif/check.py $q >/tmp/seed-$id.$q.log 2>&1; r=$?; v="$v $q:$r"; grep -q "VIOLATION property=$q" /tmp/seed-$id.$q.log && v="$v!"; done
  git checkout -q -- .
  echo "$id: build $b, tests $t, demo ${before[$id]} -> $a, check$v"
done
bash /opt/vp/build.sh >/dev/null 2>&1
