#!/bin/bash
# tools/try.sh BUG PROP [args]: run a check on a scratch copy with a planted bug applied
b=$1; p=$2; shift 2; w=/tmp/try.$$; mkdir -p $w; cp -a /repo/src $w/; (cd $w; patch -s -p1 < /verif/seeded/$b/patch.diff)
cd /verif; MUDLINT_EVID=$w/ev MUDLINT_SRC=$w/src/mud python3 -m mudlint.run $p "$@"; rm -rf $w
