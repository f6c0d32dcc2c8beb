#!/bin/bash
# Development tool (not a check): tries planted bugs from /verif/seeded in a scratch copy of /repo, shown at /repo in a
# mount namespace of its own. usage: plant.sh ID...   (needs: cp -a /repo /tmp/plant/repo; cp -a /verif/build /tmp/plant/build)
if [ -z "$PLANT_NS" ]; then exec env PLANT_NS=1 unshare -Urm bash "$0" "$@"; fi
mount --bind /tmp/plant/repo /repo || exit 9
export SIM_BUILD=/tmp/plant/build
cd /repo
git config --global --add safe.directory /repo 2>/dev/null
for id in "$@"; do
    D=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    git checkout -q -- .
    if [ ! -f $D/.clean_ok ]; then
        bash /opt/vp/build.sh > /tmp/plant/build.log 2>&1 || { echo "$id: clean build fails"; continue; }
        timeout 300 bash $D/demo.sh > /tmp/plant/demo_clean_$id.log 2>&1 && { echo "$id: demo passes on the clean tree"; } || { echo "$id: DEMO FAILS ON THE CLEAN TREE"; tail -5 /tmp/plant/demo_clean_$id.log; }
    fi
    git apply $D/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
    if bash /opt/vp/test.sh /tmp/plant/o.json > /tmp/plant/test_$id.log 2>&1; then :; fi
    python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant/o.json'))
bad=[t for t in b['stable'] if t not in o['passed']]
print("$id: tests", "pass" if not bad else "FAIL %s"%bad[:5])
PY
    timeout 300 bash $D/demo.sh > /tmp/plant/demo_bug_$id.log 2>&1; rc=$?
    [ $rc -ne 0 ] && echo "$id: demo detects ($rc): $(tail -1 /tmp/plant/demo_bug_$id.log)" || echo "$id: DEMO DOES NOT DETECT"
    for s in ${SEEDS:-1}; do
    VERIF_SEED=$s SIM_EVIDENCE=/tmp/plant SIM_REPLAYS=/tmp/plant/replays timeout 900 /verif/check $prop > /tmp/plant/check_$id.log 2>&1; rc=$?
    [ $rc -eq 1 ] && echo "$id: CAUGHT by $prop seed $s: $(grep violates /tmp/plant/check_$id.log | head -1 | cut -c1-220)" || { echo "$id: MISSED by $prop (rc $rc)"; tail -2 /tmp/plant/check_$id.log; }
    done
    git checkout -q -- .
done
