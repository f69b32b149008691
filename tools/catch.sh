#!/bin/bash
# catch.sh <seeded id> [check ids...]: apply a planted bug to /repo, run the checks, undo it (development aid)
b=$1; shift
d=/verif/seeded/$b
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for c in ${@:-$p}; do (cd /verif && ./run.sh check $c > /tmp/w/catch.$b.$c.log 2>&1; echo "$b $c exit=$? $(grep -h 'VIOLATION\|violation kind' /tmp/w/catch.$b.$c.log | cut -c1-200 | tr '\n' ' ')"); done
