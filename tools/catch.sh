#!/bin/bash
# tools/catch.sh ID... : run the check of each planted change's property against a scratch copy with the change
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  wt=/tmp/catch_$id; rm -rf "/tmp/catch_$id"; mkdir -p $wt; git -C /repo archive HEAD | tar -x -C $wt
  (cd $wt && git init -q . && git apply $OLDPWD/seeded/$id/patch.diff) || (cd $wt && patch -sp1 < $OLDPWD/seeded/$id/patch.diff)
  s=$(date +%s); VERIF_REPO=$wt VERIF_OUT=/tmp/ev_$id python3 check.py $p ${TIER:-quick} > /tmp/catch_$id.log 2>&1; rc=$?
  echo "$id: property=$p rc=$rc $(( $(date +%s) - s )) s $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/catch_$id.log)"
  rm -rf "/tmp/catch_$id" "/tmp/ev_$id"
done
