#!/bin/bash
# recheck_seeds.sh [id…]: run each planted change's property check (quick) against /repo with the change applied.
cd /verif; [ $# -gt 0 ] && L="$*" || L=$(ls seeded)
for i in $L; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  o=$(./run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(echo "$o" | grep -m1 VIOLATION)"
done
