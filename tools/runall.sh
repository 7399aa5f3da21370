#!/bin/bash
# every check on the current tree; then every planted bug against its own check
cd "$(dirname "$0")/.."
for c in $(ls checks | grep -E '^c[0-9]+\.py' | sed 's/\.py//' | tr a-z A-Z); do (./check $c -v > /tmp/run_$c.log 2>&1; echo "$c rc=$?" >> /tmp/run_$c.log) & 
  while [ $(jobs -r | wc -l) -ge 7 ]; do sleep 0.2; done
done; wait
for f in /tmp/run_C*.log; do tail -2 $f | cut -c1-150 | paste -sd' '; grep -E "analysis error|^VIOLATION" $f | cut -c1-200; done
if [ "$1" = seeds ]; then for s in seeded/*; do git -C /repo apply $PWD/$s/patch.diff || continue
  P=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])"); ./check $P -v > /tmp/seedrun.log 2>&1
  echo "$s $(grep -E '^(VIOL|OK)' /tmp/seedrun.log | cut -c1-100 | head -1)"; grep "analysis error" /tmp/seedrun.log | cut -c1-200; git -C /repo checkout -- .; done; fi
