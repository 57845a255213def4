#!/bin/bash
# seedrun.sh id...: does the property's check catch the seed?
D=${MUT:-/tmp/mut}; [ -d $D ] || git clone -q /repo $D
for s in "$@"; do
cd $D && git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD
git apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
cd /verif; S=$(date +%s); VERIF_REPO=$D timeout 900 python3 check.py $p > /tmp/sr.out 2>&1; rc=$?
echo "$s: $p rc=$rc viol=$(grep -ac ^VIOLATION /tmp/sr.out) $(( $(date +%s)-S ))s $(grep -am1 '^--' /tmp/sr.out | cut -c1-160)"; [ $rc -gt 1 ] && tail -3 /tmp/sr.out
done; rm -f /verif/replays/*
