#!/bin/bash
# try_bug.sh ID: demo on the clean tree, then build, tests, demo and check with the patch applied.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
git diff --quiet || { echo "/repo is not clean"; exit 2; }
bash $d/demo.sh >/tmp/try.$id.log 2>&1; c=$?
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/try.$id.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/try.$id.json >/tmp/try.$id.test 2>&1; t=$?
bash $d/demo.sh >>/tmp/try.$id.log 2>&1; x=$?
cd /verif; VERIF_SEED=1 ./check.sh $prop ${SECS:+--secs $SECS} >/tmp/try.$id.check 2>&1; k=$?
echo "$id: demo clean=$c build=$b tests=$(tail -1 /tmp/try.$id.test) demo patched=$x check $prop=$k $(grep -B2 VIOLATION /tmp/try.$id.check | head -1 | cut -c1-150)"
