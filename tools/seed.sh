#!/bin/bash
# seed.sh <id>: /tmp/w carries the change; /verif/seeded/<id> has demo.sh; validates and stores patch.diff
id=$1; d=/verif/seeded/$id; cd /tmp/w || exit 1
git diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo empty; exit 1; }
git checkout -q -- . ; bash /tmp/vpw/build.sh > /tmp/vpw/b.log 2>&1 || { echo base build failed; exit 1; }
timeout 300 bash $d/demo.sh > /tmp/vpw/d0.log 2>&1; a=$?
git apply $d/patch.diff; bash /tmp/vpw/build.sh > /tmp/vpw/b.log 2>&1 || { echo PATCHED BUILD FAILED; tail -5 /tmp/vpw/b.log; exit 1; }
bash /tmp/vpw/test.sh /tmp/vpw/o.json > /tmp/vpw/t.log 2>&1; tail -1 /tmp/vpw/t.log
timeout 300 bash $d/demo.sh > /tmp/vpw/d1.log 2>&1; b=$?
echo "seed $id: demo clean=$a patched=$b"; tail -3 /tmp/vpw/d1.log
if [ -z "$NOCHECK" ]; then p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); cd /verif; VX_REPO=/tmp/w python3 check.py $p ${TIER:-quick} > /tmp/vpw/c.log 2>&1; echo "check rc=$?"; tail -4 /tmp/vpw/c.log; fi
cd /tmp/w; git checkout -q -- .
