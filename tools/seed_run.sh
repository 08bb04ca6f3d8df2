#!/bin/bash
# seed_run.sh ID...: runs the planted bug's own check (or $CHECKS) against it, in /repo, and undoes it.
cd /verif
for id in "$@"; do
  p=${CHECKS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for q in $p; do
    s=$(date +%s)
    VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} python3 check.py $q ${TIER:-quick} >/tmp/sr.log 2>&1; r=$?
    echo "$id: $q exit=$r $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/sr.log)"
  done
  git -C /repo checkout -q -- .
done
