#!/bin/bash
# plant.sh ID: makes seeded/ID/patch.diff out of the uncommitted change in /repo's working tree,
# and checks the demonstration both ways, the build and the tests. Leaves /repo unchanged.
set -u
d=/verif/seeded/$1
cd /repo || exit 1
if ! git diff --quiet; then git diff > "$d/patch.diff"; git checkout -q -- .; fi
bash "$d/demo.sh" > /tmp/plant.a 2>&1; a=$?
git apply "$d/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/plant.build 2>&1; b=$?
bash "$d/demo.sh" > /tmp/plant.b 2>&1; c=$?
[ "${2:-}" = notest ] || bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.test 2>&1
python3 - <<P
import json
r=json.load(open('/tmp/plant.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('demo unpatched $a patched $c build $b', {k:(len(v) if isinstance(v,list) else v) for k,v in r.items()})
P
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif && timeout 900 ./run.sh check.ts "$p" 2>&1 | grep -v "^  " | cut -c1-250 | tail -4
