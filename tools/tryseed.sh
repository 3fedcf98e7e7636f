#!/bin/bash
# tools/tryseed.sh ID [--nocheck]: confirms a planted bug (builds, stable tests pass, demo fails with it
# and passes without) and runs the property's quick check against it.
ID=$1; D=/verif/seeded/$ID
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
if [ "$2" != "--checkonly" ]; then
bash "$D/demo.sh" >/tmp/d0.log 2>&1; echo "$ID demo clean: $?"
fi
git apply "$D/patch.diff" || { echo "apply failed"; exit 1; }
if [ "$2" != "--checkonly" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1; echo "$ID build: $?"
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; echo "$ID tests: $(python3 -c "
import json;t=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));print({k:(v if not isinstance(v,list) or len(v)<5 else len(v)) for k,v in t.items()})")"
timeout 300 bash "$D/demo.sh" >/tmp/d1.log 2>&1; echo "$ID demo patched: $? $(tail -c 300 /tmp/d1.log)"
fi
if [ "$2" != "--nocheck" ]; then
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/check.sh $P >/tmp/c.log 2>&1; echo "$ID check $P: $? $(grep -m1 VIOLATION /tmp/c.log)"
fi
git checkout -- .
