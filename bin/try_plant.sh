#!/bin/bash
# Usage: try_plant.sh ID [CHECK...]: applies seeded/ID/patch.diff to /repo, builds, runs the stable
# tests, the demo and the given checks (default: the property in meta.json), then undoes it.
set -u
id=$1; shift
d=/verif/seeded/$id
cd /verif
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
echo "== $id demo on clean tree"
if [ "${SKIP_CLEAN:-0}" = 0 ]; then (cd /repo && bash $d/demo.sh >/tmp/tp.demo0 2>&1); echo "clean demo rc=$?"; fi
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/tp.build 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/tp.build; exit 1; }
bash /opt/vp/test.sh /tmp/tp.json >/tmp/tp.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/tp.json'))
m=[x for x in b if x not in set(o['passed'])]
print("stable tests broken:",len(m),m[:5])
P
(cd /repo && bash $d/demo.sh >/tmp/tp.demo1 2>&1); echo "patched demo rc=$?"
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for p in $props; do
  bash check.sh $p quick >/tmp/tp.check 2>&1; rc=$?
  echo "check $p rc=$rc: $(grep -m1 VIOLATION /tmp/tp.check) $(tail -1 /tmp/tp.check | cut -c1-300)"
done
