#!/bin/bash
# trycopy.sh SEEDED-ID...: like trybug.sh, on a scratch copy of /repo (so that /repo stays usable meanwhile).
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/tryXXXX); cp -a /repo "$w/r"; git -C $w/r apply $d/patch.diff || { echo "$id DOES NOT APPLY"; rm -rf "$w"; continue; }
s=$SECONDS; out=$(VERIF_REPO=$w/r ${VERIF:-/verif}/check.py $p quick 2>&1); rc=$?
echo "$id $p rc=$rc $((SECONDS-s))s: $(echo "$out" | grep -E 'VIOLATION' | head -1)"; echo "$out" | grep -iE 'failed|FAILING' | head -3 | cut -c1-300
rm -rf "$w"
done
