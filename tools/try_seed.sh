#!/bin/bash
# Tries planted bugs on /repo itself: demonstration without and with the change,
# build, stable tests, and the check of the bug's property. Leaves /repo as it was.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh > /tmp/ts.build 2>&1 || { echo "$id: clean build failed"; exit 1; }
  bash "$d/demo.sh" > /tmp/ts.demo0 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/ts.build 2>&1; b=$?
  t=-
  if [ $b = 0 ]; then
    bash /opt/vp/test.sh /tmp/ts.json > /tmp/ts.test 2>&1
    t=$(python3 - <<'P'
import json
a=json.load(open('/tmp/ts.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(a['passed'])
print('tests-FAIL %s'%sorted(m)[:3] if m else 'tests-ok')
P
)
    bash "$d/demo.sh" > /tmp/ts.demo1 2>&1; c=$?
    e=-; : > /tmp/ts.check
    [ -n "$DEMO_ONLY" ] || { python3 /verif/bin/check.py $prop > /tmp/ts.check 2>&1; e=$?; }
  fi
  git checkout -q -- . ; git status --porcelain
  echo "$id ($prop): demo clean=$a patched=$c build=$b $t check=$e $(grep -m1 '^\[' /tmp/ts.check | cut -c1-160)"
done
bash /opt/vp/build.sh > /tmp/ts.build 2>&1
