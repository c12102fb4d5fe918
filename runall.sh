#!/bin/sh
# maintenance helper: every client once
cd "$(dirname "$0")"
for f in clients/C*.py; do i=$(basename $f .py); timeout 880 python3 -m mudlint.run $i "$@" > /tmp/run.$i 2>&1; echo "rc=$? $(grep -m1 "^$i:" /tmp/run.$i)"; done
