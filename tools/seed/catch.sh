#!/bin/bash
# catch.sh ID...: run the property's own check against each planted bug (applied to /repo and undone again)
cd "$(dirname "$0")/../.." || exit 2
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh $p quick >/tmp/catch.$id 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$r $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' /tmp/catch.$id) $(grep -v '^VIOLATION' /tmp/catch.$id | tail -1 | cut -c1-200)"
done
