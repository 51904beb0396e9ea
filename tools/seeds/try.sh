#!/bin/bash
# try.sh [ids]: run the planted bug's own property check against it, then undo.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  s=$(date +%s)
  timeout 900 bash check.sh $p quick > /tmp/try.$id.out 2>/tmp/try.$id.err; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/try.$id.out)"
done
