#!/bin/bash
# tools/try.sh (revert COMMIT | patch FILE) PID...: run checks against a scratch copy of /repo with a fix reverted or a patch applied
K=$1; W=$2; shift 2
D=$(mktemp -d /tmp/vtry.XXXXXX)
git -C /repo archive HEAD | tar x -C $D
if [ $K = revert ]; then git -C /repo diff $W $W^ | (cd $D && patch -p1 -s -F3 >/dev/null) || { echo "$W does not revert"; rm -rf "$D"; exit 3; }
else (cd $D && patch -p1 -s <"$W") || { echo "$W does not apply"; rm -rf "$D"; exit 3; }; fi
for p in "$@"; do
  VERIF_REPO=$D timeout 1200 $(dirname $0)/../run.sh $p >$D/out.txt 2>&1; rc=$?
  echo "$W $p rc=$rc $(grep -m1 '^facet' $D/out.txt | cut -c1-150)"
done
rm -rf "$D"
