#!/bin/bash
# try.sh ID [PROP..]: confirms a seeded change (demo on clean/patched tree, stable tests) and runs checks against it.
id=$1; shift
d=/verif/seeded/$id
cd /repo
git -C /repo diff --quiet || { echo "dirty /repo"; exit 9; }
bash $d/demo.sh >/tmp/try.clean 2>&1; a=$?
git -C /repo apply $d/patch.diff || exit 8
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/try.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/try.json >/tmp/try.test 2>&1
t=$(python3 -c "
import json
r=json.load(open('/tmp/try.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=r.get('passed',r)
print(sum(1 for x in b if x in p), 'of', len(b))")
bash $d/demo.sh >/tmp/try.demo 2>&1; c=$?
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
res=""
for p in $props; do
  (cd /verif && timeout 900 python3 checks/run.py $p >/tmp/try.$id.$p 2>&1); rc=$?
  res="$res $p:rc=$rc:$(grep -c '^VIOLATION' /tmp/try.$id.$p)"
done
echo "$id demo-clean=$a build=$b tests=$t demo-patched=$c checks:$res"
