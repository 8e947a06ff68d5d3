#!/bin/bash
# run the check of each planted bug on a scratch clone: tools/trial.sh [id...]   (own property unless PROP is set)
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  d=/tmp/trial_$id
  rm -rf "$d"; git clone -q /repo "$d" && git -C "$d" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  for q in $p; do
    t=$(date +%s)
    ORANSSI_REPO=$d python3-vt check.py $q > /tmp/trial.$id.$q.log 2>&1; rc=$?
    echo "$id $q rc=$rc $(( $(date +%s) - t ))s $(grep -m1 -B1 VIOLATION /tmp/trial.$id.$q.log | head -1 | cut -c1-110) $( [ $rc = 1 ] || tail -2 /tmp/trial.$id.$q.log | cut -c1-200)"
  done
  rm -rf "$d"
done
