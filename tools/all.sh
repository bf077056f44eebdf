#!/bin/bash
# run every check, one after another; prints the last line of each
cd "$(dirname "$0")/.."
for c in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13}; do
  python3 check.py run $c > /tmp/all_$c.out 2>&1; rc=$?
  echo "$(tail -1 /tmp/all_$c.out) [rc=$rc]"; [ $rc = 0 ] && rm -f /tmp/all_$c.out
done
