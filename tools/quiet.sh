#!/bin/bash
# maintenance helper: every client (or those named after OUT) on the source tree SRC: tools/quiet.sh SRC OUT [ids]
cd "$(dirname "$0")/.."; src=$1; out=$2; shift 2; mkdir -p $out
ids="$*"; [ -z "$ids" ] && ids="$(cd clients; ls C*.py | sed s/.py//) C36"
for i in $ids; do MUDLINT_EVID=$out MUDLINT_SRC=$src timeout 880 python3 -m mudlint.run $i > $out/$i 2>&1; rc=$?; echo "rc=$rc $(grep -m1 "^$i:" $out/$i)"; done
