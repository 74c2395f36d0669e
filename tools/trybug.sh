#!/bin/bash
# trybug.sh ID...: for each seeded change: demo on the clean tree, then apply, build, tests, demo, check; restore.
# Development aid: no check uses it.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo not clean"; exit 2; }
  bash /opt/vp/build.sh >/tmp/tb_build.log 2>&1 || { echo "$id clean build failed"; continue; }
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/tb_demo0.log 2>&1); c0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/tb_build.log 2>&1; then b=ok; else b=FAIL; tail -5 /tmp/tb_build.log; fi
  t=$(bash /opt/vp/test.sh /tmp/tb_test.json 2>&1 | tail -1)
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/tb_demo1.log 2>&1); c1=$?
  (cd /verif && timeout 900 python3 tools/check.py $prop >/tmp/tb_check.log 2>&1); ck=$?
  git -C /repo checkout -- .
  ok=CAUGHT; [ $ck = 1 ] || ok=MISSED
  valid=valid; { [ $c0 = 0 ] && [ $c1 != 0 ] && [ $b = ok ] && [[ "$t" == "166 passed, 0 failed" ]]; } || valid=INVALID
  echo "$id $prop build=$b tests='$t' demo clean=$c0 patched=$c1 check=$ck => $valid $ok"
done
bash /opt/vp/build.sh >/tmp/tb_build.log 2>&1
