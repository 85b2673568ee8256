#!/bin/bash
# Repository tests after a change to /repo: the stable list, then package meta by hand.
out=$(mktemp)
bash /opt/vp/test.sh $out 2>&1 | tail -1
python3 - $out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
miss=[t for t in b['stable'] if t not in o['passed']]
print("stable missing:",miss)
P
rm -f $out
. /opt/vp/env.sh; cd /repo; GODEBUG=cgocheck=0,randautoseed=0 go test -count=1 -vet=off ./meta 2>&1 | tail -5
git -C /repo status --short
