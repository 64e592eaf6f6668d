#!/bin/bash
# tools/fixes.sh PROP  -- take over the fix commits made in the scratch copy /tmp/fixw
set -e
old=$(git -C /repo rev-parse HEAD)
git -C /repo pull -q --ff-only /tmp/fixw HEAD
for c in $(git -C /repo rev-list --reverse $old..HEAD); do
	echo "fixed: property=$1 $(git -C /repo log -1 --format='%h' --abbrev=10 $c) $(git -C /repo log -1 --format=%s $c | sed 's/^fix: //')" >>/verif/known_findings.txt
done
tail -4 /verif/known_findings.txt
