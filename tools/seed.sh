#!/bin/bash
# tools/seed.sh NAME [nocheck]: confirms a planted bug: demo passes on the clean tree, tests pass and the
# demo fails with the patch, and says whether the property's check catches it.
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
[ "$1" != "" ] || exit 2
t=$(mktemp -d); cp -r $d/. $t/; rm -f $t/patch.diff $t/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $t/demo.sh >/tmp/seed.clean 2>&1; a=$?
git apply $d/patch.diff || exit 2
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
n=$(python3 -c "import json;j=json.load(open('/tmp/seed.json'));print(len(j['passed']),len(j['failed']))")
timeout 300 bash $t/demo.sh >/tmp/seed.bad 2>&1; b=$?
c=-
if [ "$2" != nocheck ]; then
  timeout 880 env VERIF_SEED=1 /verif/run.py $p >/tmp/seed.check 2>&1; c=$?
  l=$(grep -c "VIOLATION property=$p " /tmp/seed.check)
fi
git checkout -q -- .
rm -rf "$t"
echo "$1 property=$p demo clean=$a patched=$b tests=$n check exit=$c violation=$l sig=$(grep -o 'PBT-VIOLATION sig=[^ ]*\|AddressSanitizer: [a-z-]*\|PBT-HANG' /tmp/seed.check | head -1)"
