#!/bin/bash
# Confirms planted bugs: seed_check.sh ID... ; builds, tests and runs the demonstration in a scratch copy of /repo.
# Prints per bug whether it counts: builds, stable tests pass, demo passes without and fails with the patch.
W=/tmp/seedwt$SEEDW; V=$(cd "$(dirname "$0")/.." && pwd)
if [ ! -d $W ]; then cp -a /repo $W; rm -rf $W/_build; fi
git -C $W fetch -q "${VERIF_REPO:-/repo}" HEAD && git -C $W checkout -q -f FETCH_HEAD
mkdir -p /tmp/seedvp$SEEDW; for f in /opt/vp/*.sh /opt/vp/*.py; do sed "s|/repo|$W|g; s|/opt/vp/|/tmp/seedvp$SEEDW/|g" "$f" > /tmp/seedvp$SEEDW/$(basename "$f"); done; cp /opt/vp/*.json /opt/vp/*.txt /tmp/seedvp$SEEDW/
for id in "$@"; do
  S=$V/seeded/$id; D=/tmp/seeddemo$SEEDW/$id; rm -rf "/tmp/seeddemo$SEEDW/$id"; mkdir -p $D; cp $S/* $D/; rm -f $D/*.diff $D/meta.json
  git -C $W checkout -q -- .
  (cd $W && timeout 300 bash $D/demo.sh >/tmp/seeddemo$SEEDW/$id.clean 2>&1); c=$?
  if ! git -C $W apply $S/patch.diff; then echo "$id: patch does not apply"; continue; fi
  (cd $W && timeout 300 bash $D/demo.sh >/tmp/seeddemo$SEEDW/$id.bug 2>&1); b=$?
  if [ -z "$NOTEST" ]; then bash /tmp/seedvp$SEEDW/test.sh /tmp/seeddemo$SEEDW/$id.json >/tmp/seeddemo$SEEDW/$id.log 2>&1; t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/seeddemo$SEEDW/$id.json'))['passed']);print(sorted(b-p) or 'pass')"); else t=skipped; fi
  git -C $W checkout -q -- .
  echo "$id: demo clean=$c bug=$b tests=$t $([ $c = 0 ] && [ $b != 0 ] && [ "$t" = pass ] && echo COUNTS)"
done
