#!/bin/bash
# seedcheck.sh ID...: run the property's check on a scratch copy of /repo with the planted bug applied
cd "$(dirname "$0")/.."
for i in "$@"; do
  t=$(mktemp -d)
  git clone -q /repo "$t/repo" && git -C "$t/repo" apply "$PWD/seeded/$i/patch.diff"
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$i/meta.json'))['property'])")
  SA_REPO="$t/repo" SA_EVID="$t/evid" python3 check.py $p > "$t/out" 2>&1
  echo "$i $p exit=$? $(tail -1 "$t/out" | cut -c1-150)"
  rm -rf "$t"
done
