#!/bin/bash
# tools/seedtest.sh [--suite] [--check] ID...: validate planted bugs in scratch copies of /repo's HEAD
# --suite: run the repository's tests with the bug; --check: run the property's check (and those in ALSO) with it
S=0; C=0
while [[ $1 == --* ]]; do [ $1 = --suite ] && S=1; [ $1 = --check ] && C=1; shift; done
V=$(cd $(dirname $0)/.. && pwd)
for id in "$@"; do
  B=$V/seeded/$id; D=$(mktemp -d /tmp/vseed.XXXXXX); chmod a+rx $D
  git -C /repo archive HEAD | tar x -C $D; mkdir $D.demo; cp $B/demo* $D.demo/
  r="$id:"
  (cd $D && PYTHONDONTWRITEBYTECODE=1 timeout 300 bash $D.demo/demo.sh >$D.log 2>&1) && r="$r clean-ok" || { r="$r CLEAN-FAILS"; tail -5 $D.log; }
  (cd $D && git init -q . 2>/dev/null; git -C $D apply $B/patch.diff) || r="$r DOES-NOT-APPLY"
  (cd $D && PYTHONDONTWRITEBYTECODE=1 timeout 300 bash $D.demo/demo.sh >$D.log 2>&1) && r="$r DEMO-PASSES-WITH-BUG" || r="$r demo-fails"
  if [ $S = 1 ]; then
    sed "s#/repo#$D#g; s#^export PYTHONPATH=#export PYTHONPATH=$D:#" /opt/vp/test.sh > $D.test.sh
    bash $D.test.sh $D.json >$D.log 2>&1
    r="$r $(/opt/venv/bin/python -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$D.json'))
m=sorted(set(b['stable'])-set(t['passed'])); print('suite-ok' if not m else 'SUITE-BREAKS %s' % m)")"
  fi
  if [ $C = 1 ]; then
    P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$B/meta.json'))['property'])")
    for p in $P $ALSO; do
      VERIF_REPO=$D timeout 1200 $V/run.sh $p >$D.log 2>&1; rc=$?
      r="$r | $p rc=$rc $(grep -m1 '^facet' $D.log | cut -c1-130)"
    done
  fi
  echo "$r"; rm -rf "$D" "$D.demo" "$D.log" "$D.json" "$D.test.sh"
done
