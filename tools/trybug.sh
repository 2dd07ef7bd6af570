#!/bin/bash
# trybug.sh ID...: demo on the clean tree, then apply, demo, tests (unless NOTEST), the property's check; undo.
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ( cd /repo && bash $d/demo.sh >/tmp/w/demo0.log 2>&1 ); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  ( cd /repo && bash $d/demo.sh >/tmp/w/demo1.log 2>&1 ); b=$?
  t=skipped
  [ -z "$NOTEST" ] && t=$(/verif/tools/retest.sh | tail -1)
  out=$(./check $prop 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id prop=$prop demo_clean=$a demo_bug=$b tests=[$t] check_rc=$rc $(echo "$out" | grep -c '^VIOLATION')"
done
