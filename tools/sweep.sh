#!/bin/bash
# sweep.sh "seeds" [checks...]: run quick checks for several seeds, print what is not quiet
seeds=${1:-"1 2 3"}; shift
cd "$(dirname "$0")/.."
ids=${*:-$(ls checks | grep -o '^c[0-9][0-9]' | tr c C)}
for s in $seeds; do for c in $ids; do
  out=$(/opt/venv/bin/python check.py $c --seed $s 2>&1); rc=$?
  echo "$rc $(echo "$out" | tail -1 | cut -c1-150)"
  [ $rc -ne 0 ] && echo "$out" | cut -c1-600 | head -20
done; done
