#!/bin/bash
# fix.sh PROP "what" : commit /repo working changes as fix and record
cd /repo && git add -u && git commit -qm "fix: $2" && h=$(git rev-parse --short=10 HEAD) && echo "fixed: property=$1 $h $2" >> /verif/known_findings.txt && echo $h
