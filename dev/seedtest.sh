#!/bin/bash
# dev/seedtest.sh ID [notest]: demo on the clean tree, apply, build, tests, demo, undo
ID=$1; D=/verif/seeded/$ID
cd /repo && git diff --quiet || { echo "dirty repo"; exit 1; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "clean build failed"; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/sd0.log 2>&1; a=$?
git apply $D/patch.diff || exit 1
if bash /opt/vp/build.sh >/tmp/sb.log 2>&1; then
  timeout 300 bash $D/demo.sh >/tmp/sd1.log 2>&1; b=$?
  if [ "$2" != notest ]; then
    bash /opt/vp/test.sh /tmp/so.json >/dev/null 2>&1
    t=$(python3 -c "
import json;o=json.load(open('/tmp/so.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=set(b.get('stable',b.get('tests',b if isinstance(b,list) else [])) ) if not isinstance(b,list) else set(b)
print('failed',[x for x in o['failed']][:8])")
  fi
  (cd /verif && python3 check.py $P > /tmp/sc.log 2>&1); c=$?
else echo BUILD FAILED; tail -3 /tmp/sb.log; fi
git checkout -- . ; bash /opt/vp/build.sh >/tmp/sb.log 2>&1
echo "$ID prop=$P clean_demo=$a patched_demo=$b tests=$t check=$c $(tail -n 3 /tmp/sc.log | head -c 400)"
