#!/bin/bash
# tools/catch.sh NAME...   -- which seeded bugs does their own check report?  (works on the scratch copy /tmp/mut)
git -C /tmp/mut checkout -q -- . ; git -C /tmp/mut pull -q /repo HEAD
for n in "$@"; do
	d=/verif/seeded/$n
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	git -C /tmp/mut apply $d/patch.diff || { echo "$n: patch does not apply"; continue; }
	out=$(cd /verif; VP_REPO=/tmp/mut timeout 900 ./check $p 2>&1); rc=$?
	git -C /tmp/mut checkout -q -- .
	echo "$n: exit $rc $(echo "$out" | grep VIOLATION | cut -c1-160)"
done
