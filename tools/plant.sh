#!/bin/bash
# plant.sh ID [notest]: confirm a planted bug in a scratch copy mounted over /repo
id=$1; d=/tmp/plant/$id; s=/verif/seeded/$id
rm -rf "/tmp/plant/$id"; mkdir -p "$d/tmp" "$d/demo"; cp -a /repo "$d/repo"
cp "$s"/* "$d/demo/"; rm -f "$d/demo/patch.diff" "$d/demo/meta.json"
unshare -m bash -c "
mount --bind $d/repo /repo
mount --bind $d/demo /mnt
mount --bind $d/tmp /tmp
cd /repo
bash /mnt/demo.sh > /tmp/demo0.log 2>&1; echo demo-unpatched \$?
git apply --check /dev/stdin < $s/patch.diff || exit 3
git apply $s/patch.diff || exit 3
if [ '$2' = notest ]; then bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; exit 4; }
else bash /opt/vp/test.sh /tmp/out.json > /tmp/build.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
o=json.load(open('/tmp/out.json'))
p=set(o.get('passed',[]))
m=[x for x in b if x not in p]
print('stable missing', len(m), m[:5])
P
fi
bash /mnt/demo.sh > /tmp/demo1.log 2>&1; echo demo-patched \$?
tail -3 /tmp/demo1.log
"
rm -rf "/tmp/plant/$id"
