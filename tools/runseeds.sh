#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to a scratch copy of /repo and runs the quick check of its property there
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V/seeded"
for id in ${@:-*}; do
  w=$(mktemp -d /tmp/rs-XXXX)
  cp -a /repo "$w/repo"; git -C "$w/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
  s=$(date +%s)
  REPO="$w/repo" "$V/check" "$p" quick > "$w/out" 2>&1; r=$?
  echo "$id $p exit $r $(( $(date +%s) - s ))s $(grep -m1 -A1 VIOLATION "$w/out" | tr '\n' ' ' | cut -c1-300)"
  grep -m1 'violation\|class' "$w/out" | cut -c1-200
  rm -rf "$w"
done
