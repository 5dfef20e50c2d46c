#!/bin/bash
# trybug.sh SEEDED-ID [PROP]: applies a seeded bug to /repo, runs the check of its property, undoes it.
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 3
/verif/check.py $p quick | tail -${LINES_:-6}; rc=${PIPESTATUS[0]}
git -C /repo checkout -- .
echo "$1 $p rc=$rc"
