#!/bin/bash
# tryseed.sh ID [RUNS]: apply seeded/ID to a scratch copy of /repo, build it, run the stable tests,
# the demonstration on both trees, and this property's check against the copy.  Development aid only.
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedtry/$ID
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"
for f in build test; do sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/$f.sh > "$W/$f.sh"; done
rm -rf "$W/repo/_build"
cd "$W/repo" || exit 1
bash "$W/build.sh" > "$W/b0.log" 2>&1 || echo "base build FAILED"
timeout 300 bash "$S/demo.sh" > "$W/d0.log" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$W/test.sh" "$W/t.json" > "$W/t.log" 2>&1 || true
t=$(python3 - "$W/t.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1]))['passed'])
print('pass' if b<=p else 'FAIL '+','.join(b-p))
P
)
timeout 300 bash "$S/demo.sh" > "$W/d1.log" 2>&1; d1=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif
c=$( [ -n "$2" ] && export SIM_RUNS=$2; SIM_REPO=$W/repo python3 check.py $P 2>&1 | tail -3 )
echo "== $ID ($P): tests $t; demo clean=$d0 patched=$d1"
echo "$c" | tail -3
cd /; rm -rf "$W"
