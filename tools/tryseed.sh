#!/bin/bash
# tryseed.sh ID... : applies each planted bug to /repo, runs its property's check (or $PROPS), undoes it
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  for q in $p; do out=$(timeout 900 python3 check.py $q quick 2>&1); r=$?; echo "$id $q rc=$r $(echo "$out" | grep -m1 'VIOLATION\|ERROR')"; [ -n "$V" ] && echo "$out" | head -5; done
  git -C /repo checkout -- .
done
