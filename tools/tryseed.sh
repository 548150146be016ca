#!/bin/bash
# tryseed.sh ID: confirms seeded/ID in a scratch copy of /repo: builds, passes the
# stable tests, demo exits 0 without and nonzero with the patch.
id=$1; W=/tmp/seedwork/$id; rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a /verif/seeded/$id "$W/seed"
for f in build test; do sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/$f.sh > $W/$f.sh; done
cd $W/repo; rm -rf _build; git checkout -q -- . ; bash $W/build.sh > $W/b0.log 2>&1 || { echo "$id: base build failed"; tail -5 $W/b0.log; exit 1; }
rm -f $W/seed/patch.diff.copy; bash $W/seed/demo.sh > $W/d0.log 2>&1; r0=$?
git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $W/test.sh $W/out.json > $W/t.log 2>&1
bash $W/seed/demo.sh > $W/d1.log 2>&1; r1=$?
python3 - "$W/out.json" $id $r0 $r1 <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); s=set(b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b)
o=json.load(open(sys.argv[1])); miss=[t for t in s if t not in o['passed']]
ok = not miss and sys.argv[3]=='0' and sys.argv[4]!='0'
print(sys.argv[2], 'OK' if ok else 'BAD', 'demo base', sys.argv[3], 'patched', sys.argv[4], 'tests failing', miss)
P
[ "$r0" = 0 ] || tail -5 $W/d0.log
rm -rf "$W"
