#!/bin/bash
# seedrun.sh [ID...]: runs the check of each planted bug's property against a scratch copy of /repo with the bug applied.
V=$(cd "$(dirname "$0")/.." && pwd)
ids=${*:-$(ls "$V/seeded")}
for id in $ids; do
  w=/tmp/seedrun-$id
  /bin/rm -rf "$w"; mkdir "$w"
  git -C /repo archive HEAD | tar -x -C "$w"
  if ! git -C "$w" apply --unsafe-paths --directory="$w" "$V/seeded/$id/patch.diff" 2>/dev/null; then (cd "$w" && patch -s -p1 < "$V/seeded/$id/patch.diff") || { echo "$id: patch does not apply"; continue; }; fi
  p=${PROP:-$(python3 -c "import json,sys; print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
  t=$(date +%s)
  out=$(cd "$V" && REPO=$w python3 check.py "$p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s: $(echo "$out" | grep -v '^  ' | tail -2 | tr '\n' ' ' | cut -c1-300)"
  /bin/rm -rf "$w"
done
