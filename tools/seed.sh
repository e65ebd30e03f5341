#!/bin/bash
# usage: seed.sh ID PROP DIFF: plants DIFF as /verif/seeded/ID ({demo.sh,meta.json,...} present)
id=$1; prop=$2; d=/verif/seeded/$id
[ "$3" -ef $d/patch.diff ] || cp "$3" $d/patch.diff
cd /repo || exit 1
echo "=== $id $prop"
[ -z "$(git status --porcelain)" ] || { echo "dirty tree"; exit 1; }
git apply $d/patch.diff || exit 1
bash /verif/tools/full.sh
echo "demo with patch (want nonzero):"; (cd /repo; timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1; echo rc=$?); tail -3 /tmp/demo.out
cd /verif; echo "check:"; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $prop 2>&1 | grep -E "^---|VIOLATION|evaluations|error" | cut -c1-300
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "demo clean (want 0):"; (cd /repo; timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1; echo rc=$?); tail -3 /tmp/demo.out
