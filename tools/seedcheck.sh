#!/bin/bash
# apply each planted change to /repo, run the check of its property, undo (development helper)
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(jq -r .property seeded/$i/meta.json)
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i apply failed"; continue; }
  s=$(date +%s); bash check.sh $p quick > /tmp/sc.$i 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/sc.$i | cut -c1-160)"
done
