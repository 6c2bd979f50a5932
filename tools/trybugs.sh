#!/bin/bash
# run the check of each planted bug's property against it; trybugs.sh [ID ..]
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  timeout 900 python3 lib/check.py $p quick > /tmp/trybugs.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(grep -o 'VIOLATION.*' /tmp/trybugs.out | head -1) $(python3 -c "
import json
try: d=json.load(open('replay/$p.json')); print(repr(d.get('input'))[:80], (d.get('what') or '')[:80])
except Exception as e: print()" 2>/dev/null)"
done
