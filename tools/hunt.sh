#!/bin/bash
# hunt.sh ID [TIER]: applies seeded/ID to /repo, runs the check of its property, undoes it.
id=$1; tier=${2:-quick}; s=/verif/seeded/$id
p=${3:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
git -C /repo apply $s/patch.diff || exit 2
t0=$(date +%s)
bash /verif/run.sh check $p $tier > /tmp/plant/hunt-$id-$p.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id $p: rc=$rc $(( $(date +%s) - t0 ))s $(grep -a '^VIOLATION' /tmp/plant/hunt-$id-$p.log | head -1)"
