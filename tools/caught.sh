#!/bin/bash
# maintenance helper: tools/caught.sh [ids]: does the check of a planted bug's property report it (on a scratch copy)?
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for b in $ids; do
  w=/tmp/caught.$b; mkdir -p $w; cp -a /repo/src $w/; (cd $w && git init -q . 2>/dev/null; git apply seeded/$b/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$b/patch.diff)
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  MUDLINT_EVID=$w/ev MUDLINT_SRC=$w/src/mud timeout 880 python3 -m mudlint.run $p > $w/out 2>&1; rc=$?
  echo "$b $p rc=$rc $(grep -m1 ^obligation $w/out | cut -c1-150) $(grep -c ^UNDECIDED $w/out)"
  rm -rf $w
done
