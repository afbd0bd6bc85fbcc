#!/bin/bash
# seed.sh ID  — checks a planted bug: applies, builds, stable tests pass, demo passes without and fails with it; then runs the property's check against it.
# uses /tmp/seedwt as scratch copy of /repo
ID=$1; S=/verif/seeded/$ID
W=/tmp/seedwt; rm -rf /tmp/seedwt; cp -a /repo $W; cd $W
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp -a $S /tmp/seeddemo.$ID; rm -f /tmp/seeddemo.$ID/patch.diff /tmp/seeddemo.$ID/meta.json
D=/tmp/seeddemo.$ID/demo.sh
(timeout 280 bash $D >/tmp/seed.out0 2>&1); r0=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
go build ./... || { echo "$ID does not build"; exit 1; }
for i in 1 2; do timeout 120 go test -timeout 100s -count=1 ./frame ./server/... ./testutil >/tmp/seed.test 2>&1 || echo "$ID: TESTS FAIL"; timeout 120 go test -timeout 100s -vet=off -count=1 . >/tmp/seed.test2 2>&1 || echo "$ID: ROOT TESTS FAIL"; done
(timeout 280 bash $D >/tmp/seed.out1 2>&1); r1=$?
[ $r0 = 0 ] && [ $r1 != 0 ] && echo "$ID demo ok" || { echo "$ID DEMO BAD $r0 $r1"; tail -n 5 /tmp/seed.out0 /tmp/seed.out1; }
rm -rf /tmp/seeddemo.$ID
[ "$2" = nocheck ] && exit
cd /verif; GOCV_REPO=$W ./check $P quick > /tmp/seed.chk 2>&1; echo "$ID check $P exit $?: $(grep VIOLATION /tmp/seed.chk | head -2)"
rm -rf /tmp/seedwt
