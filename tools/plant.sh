#!/bin/bash
# tools/plant.sh <id>...: confirms planted bugs in /repo (applied, tested, checked, undone)
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 [ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 1; }
 (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $d/demo.sh >/tmp/plant-demo0.txt 2>&1); r0=$?
 git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
 bash /opt/vp/test.sh /tmp/plant-o.json > /tmp/plant-t.txt 2>&1; t=$(tail -1 /tmp/plant-t.txt)
 st=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant-o.json'))
l=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
print('lost:',[x for x in l if x not in o['passed']][:4])")
 (cd /repo && timeout 300 bash $d/demo.sh >/tmp/plant-demo1.txt 2>&1); r1=$?
 (cd /verif && timeout 900 ./check $p > /tmp/plant-c.txt 2>&1); c=$?
 git -C /repo checkout -- .
 echo "$id [$p] demo $r0->$r1 | $t $st | check $c $(grep -c '^VIOLATION' /tmp/plant-c.txt)"; grep -v "^UNDEC\|^VIOL" /tmp/plant-c.txt | head -3 | cut -c1-220
done
