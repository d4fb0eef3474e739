#!/bin/bash
# seed.sh ID [--notest] [CHECK...]: tries a planted bug in private copies of /repo and /verif:
# demo passes on the unchanged tree; patch applies, builds, passes the stable tests; demo fails; which checks catch it.
id=$1; shift
test=1; [ "$1" = --notest ] && { test=0; shift; }
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
checks=${*:-$prop}
w=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$w/repo"; mkdir "$w/verif" "$w/demo"; cp -a /verif/. "$w/verif/"; cp -a /verif/seeded/$id/. "$w/demo/"
export w test checks id prop
unshare -Urm bash -c '
mount --bind $w/repo /repo; mount --bind $w/verif /verif; rm -f $w/demo/*.diff $w/demo/meta.json
git config --global --add safe.directory /repo 2>/dev/null
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >$w/b0 2>&1 || echo "BASE BUILD FAILED"
timeout 300 bash $w/demo/demo.sh >$w/d0 2>&1; echo "demo on unchanged tree: $? (want 0)"
git apply /verif/seeded/$id/patch.diff || { echo NOAPPLY; exit; }
bash /opt/vp/build.sh >$w/b1 2>&1 || { echo "BUILD FAILED"; tail -20 $w/b1; exit; }
timeout 300 bash $w/demo/demo.sh >$w/d1 2>&1; echo "demo on patched tree: $? (want nonzero)"; tail -3 $w/d1
if [ $test = 1 ]; then bash /opt/vp/test.sh $w/t.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); t=json.load(open(\"$w/t.json\"))
bad=[x for x in b[\"stable\"] if x not in t[\"passed\"]]
print(\"stable tests not passing:\",len(bad),bad[:5])"; fi
cd /verif
for c in $checks; do s=$(date +%s); python3 tools/check.py $c --tier quick >$w/c 2>&1; r=$?; echo "check $c: exit $r in $(( $(date +%s)-s )) s, $(grep -c ^VIOLATION $w/c) violation lines (want 1)"; grep ^VIOLATION $w/c | head -2; [ $r -gt 1 ] && tail -5 $w/c; done
'
rm -rf "$w"
