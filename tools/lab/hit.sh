#!/bin/bash
# hit.sh ids...: as /tmp/seed/hit.sh, in the lab
bash /tmp/lab/sync.sh
cd /tmp/lab/verif
export OAK_REPO=/tmp/lab/repo
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $OAK_REPO checkout -q -- . ; git -C $OAK_REPO apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  t=$(date +%s)
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 check.py ${PROP:-$p} > /tmp/seed/hit-$id.log 2>&1; rc=$?
  git -C $OAK_REPO checkout -q -- .
  echo "$id ${PROP:-$p} rc=$rc $(( $(date +%s) - t ))s $(grep -c '^VIOLATION property='${PROP:-$p} /tmp/seed/hit-$id.log) $(grep -v '^VIOLATION' /tmp/seed/hit-$id.log | tail -2 | cut -c1-160 | tr '\n' '|')"
done
