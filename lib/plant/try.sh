#!/bin/bash
# try.sh ID...: does the patch apply, build, pass the tests; does the demo tell; which checks catch it (CHECKS="C01 ..", default its property)
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
bash $d/demo.sh > /tmp/demo.out 2>&1; a=$?
git apply $d/patch.diff || { echo "$id does not apply"; continue; }
bash /opt/vp/build.sh > /tmp/build.out 2>&1 || echo "$id does not build"
t=$(bash /opt/vp/test.sh /tmp/t.json 2>&1 | tail -1)
bash $d/demo.sh > /tmp/demo2.out 2>&1; b=$?
echo "$id: demo unchanged=$a patched=$b [$(tail -1 /tmp/demo2.out)] tests: $t"
for c in ${CHECKS:-$p}; do (cd /verif; timeout 900 ./check.py $c > /tmp/check.$c.out 2>&1; echo "   $c exit $? $(grep -c ^VIOLATION /tmp/check.$c.out) $(grep -A1 ^VIOLATION /tmp/check.$c.out | sed -n 2p | cut -c1-200) [$(tail -1 /tmp/check.$c.out | cut -c1-100)]"); done
git checkout -q -- .
done
bash /opt/vp/build.sh > /tmp/build.out 2>&1
