#!/bin/bash
# usage: seed.sh ID...   confirms planted bugs: tests pass, demo passes without and fails with, check catches
cd /verif/seeded || exit 1
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ( cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1 ); r0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(bash /tmp/t.sh 2>&1 | tail -3 | tr '\n' ' ' | cut -c1-200)
  ( cd /repo && bash $d/demo.sh >/tmp/demo2.out 2>&1 ); r1=$?
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/check $prop >/tmp/check.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id [$prop]: demo $r0/$r1 tests: $t check rc=$rc $(grep -m1 VIOLATION /tmp/check.out)"
done
