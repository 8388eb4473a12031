#!/bin/bash
# seedcheck.sh ID...: apply each planted bug to a scratch copy of /repo and run its property's quick check on it.
w=$(mktemp -d)
trap '/bin/rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C "$w/repo" apply $d/patch.diff || { echo "$id: patch fails"; continue; }
  (cd /verif; VSYM_REPO=$w/repo timeout 900 ${VSYM_BIN:-bin/vsym} check $p --tier quick >/tmp/seedcheck.out 2>&1; echo "$id ($p): exit $? $(grep -c '^VIOLATION' /tmp/seedcheck.out) violations $(grep -o 'wall [0-9.]*s' /tmp/seedcheck.out|tail -1)")
  git -C "$w/repo" checkout -q -- .
done
