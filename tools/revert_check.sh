#!/bin/bash
# tools/revert_check.sh [COMMIT...] : undoes each repair (default: all in known_findings.txt) in a scratch clone and runs its property's check, which has to report the defect again.
cd "$(dirname "$0")/.."
grep '^fixed:' known_findings.txt | sed 's/fixed: property=\([A-Z0-9]*\) \([0-9a-f]*\) .*/\1 \2/' | while read -r p h; do
  if [ $# -gt 0 ] && ! [[ " $* " == *" $h "* ]]; then continue; fi
  wt=/tmp/revert_$h; rm -rf "/tmp/revert_$h"; git clone -q /repo $wt
  if ! git -C $wt -c user.name=x -c user.email=x@x revert --no-edit $h >/tmp/revert_$h.log 2>&1; then echo "$h: property=$p conflict"; rm -rf "/tmp/revert_$h"; continue; fi
  s=$(date +%s); VERIF_REPO=$wt VERIF_OUT=/tmp/rv_$h nice -n 5 python3 check.py $p ${TIER:-quick} > /tmp/revert_$h.log 2>&1; rc=$?
  echo "$h: property=$p rc=$rc $(( $(date +%s) - s )) s $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/revert_$h.log)"
  rm -rf "/tmp/revert_$h" "/tmp/rv_$h"
done
