#!/bin/bash
# seedtest.sh ID [SECS]: does planted bug ID count, and does the check of its property catch it?
# Everything happens in bind-mounted scratch copies; /repo and /verif are not touched.
ID=$1; SECS=${2:-28}
SC=${SCRATCH:-/tmp/sc-$ID}; rm -rf "$SC"; mkdir -p "$SC/verif" "$SC/demo"
cp -a /repo "$SC/repo"
git -C "$SC/repo" checkout -q -- . 
(cd /verif && tar cf - --exclude=./.git --exclude=./seeded --exclude=./replays --exclude=./evidence .) | tar xf - -C "$SC/verif"
cp -r ${SEEDED:-/verif/seeded}/$ID/. "$SC/demo/"; rm -f "$SC/demo/"*.diff "$SC/demo/meta.json"
P=$(python3 -c "import json;print(json.load(open('${SEEDED:-/verif/seeded}/$ID/meta.json'))['property'])")
cp ${SEEDED:-/verif/seeded}/$ID/patch.diff $SC/patch.diff; export SC ID P SECS
unshare -Urm bash -c '
mount --bind $SC/repo /repo; mount --bind $SC/verif /verif; mkdir -p /verif/evidence
cd /repo
bash /opt/vp/build.sh >$SC/b0 2>&1 || echo "$ID: base does not build"
timeout 300 bash $SC/demo/demo.sh >$SC/d0 2>&1; echo "$ID: demo clean rc=$?"
git apply $SC/patch.diff || { echo "$ID: does not apply"; exit 3; }
bash /opt/vp/build.sh >$SC/b1 2>&1 || { echo "$ID: patched tree does not build"; tail -5 $SC/b1; }
bash /opt/vp/test.sh $SC/o.json >$SC/t1 2>&1; python3 -c "
import json;d=json.load(open(\"$SC/o.json\"));print(\"$ID: tests\",len(d[\"passed\"]),\"passed\",d[\"failed\"])"
timeout 300 bash $SC/demo/demo.sh >$SC/d1 2>&1; echo "$ID: demo patched rc=$? ($(tail -1 $SC/d1|cut -c1-120))"
cd ${V:-/verif}; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P --secs $SECS >$SC/c1 2>&1; rc=$?
echo "$ID: check $P rc=$rc $(grep -m1 "VIOLATION" $SC/c1) | $(grep -m1 -i "violat\|kind" $SC/c1 | cut -c1-160)"
' 
