#!/usr/bin/env bash
# confirm_seed.sh <id>: scratch copy, demo without / with the patch, build, baseline tests.
set -u
ID=$1; W=/tmp/seedwork; D=/verif/seeded/$ID
export VP_DEMO_TARGET=/tmp/seedtarget
[ -d $W ] || cp -a /repo $W
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
cd $W; bash $D/demo.sh >/tmp/seed-$ID.clean 2>&1; A=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash $D/demo.sh >/tmp/seed-$ID.patched 2>&1; B=$?
sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/seedbuild.sh; sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/seedtest.sh
FULL=${FULL:-0}
if [ $FULL = 1 ]; then bash /tmp/seedbuild.sh >/tmp/seed-$ID.build 2>&1; C=$?; else C=0; fi
bash /tmp/seedtest.sh /tmp/seed-$ID.json >/dev/null 2>&1
T=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-$ID.json'))
bp=set(b['stable']); rp=set(r.get('passed'))
print('ok' if bp<=rp else 'LOST %s'%sorted(bp-rp)[:5])
P
)
git checkout -q -- .
echo "$ID: clean demo=$A (want 0) patched demo=$B (want !=0) build=$C tests=$T"
