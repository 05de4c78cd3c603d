#!/bin/bash
# tryseed.sh ID...: runs the property's quick check against each planted change
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  s=$(date +%s)
  timeout 900 bash /verif/check.sh $p quick > /tmp/tryseed.$i.log 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$i $p exit $r $(($(date +%s)-s))s: $(grep -m1 VIOLATION /tmp/tryseed.$i.log) $(grep -m1 -i 'assert\|violat' /tmp/tryseed.$i.log | head -c 200)"
done
