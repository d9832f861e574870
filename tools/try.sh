#!/bin/bash
# try.sh <id> [property]: runs the check of a planted bug's property against it.
id=$1; D=/verif/seeded/$id
p=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
git -C /repo apply $D/patch.diff || exit 1
s=$(date +%s)
out=$(bash /verif/check.sh $p 2>&1); rc=$?
git -C /repo checkout -q -- .
echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 -A1 '^VIOLATION' | tail -1 | cut -c1-150)"
