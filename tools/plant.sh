#!/bin/bash
# plant.sh <id> [nocheck]: confirms the planted bug seeded/<id> (patch applies, builds, stable tests pass, demo fails with it and
# passes without it) and reports what the property's check says about it.  Works on /repo and restores it.
id=$1; d=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null' EXIT
bash /opt/vp/build.sh >/dev/null
timeout 300 bash $d/demo.sh >/tmp/plant.demo0 2>&1; echo "$id demo unchanged: $?"
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/dev/null || { echo "$id DOES NOT BUILD"; exit 1; }
timeout 300 bash $d/demo.sh >/tmp/plant.demo1 2>&1; echo "$id demo patched: $?"
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); b=base if isinstance(base,list) else base.get('passed') or base.get('stable') or base.get('tests')
r=set(json.load(open('/tmp/plant.json'))['passed']); m=[x for x in b if x not in r]
print("$id tests: %d of %d pass %s"%(len(b)-len(m),len(b),m[:5]))
P
if [ "$2" != nocheck ]; then cd /verif; python3 check.py $prop 2>&1 | tail -6; echo "$id check $prop: ${PIPESTATUS[0]}"; fi
