#!/bin/bash
# usage: seedtest.sh ID [--no-check] : confirms the planted bug /verif/seeded/ID by hand: demo on the clean tree,
# build, stable tests and demo with the patch, then the property's check. Undoes the patch.
id=$1; d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" != --no-demo ]; then
t=$(mktemp -d); cp $d/* $t; rm -f $t/*.diff $t/meta.json
bash $t/demo.sh >/tmp/demo.clean 2>&1; a=$?
git apply $d/patch.diff || { echo "$id patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id BUILD FAILS"; tail -20 /tmp/seed.build; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
n=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];d=json.load(open('/tmp/seed.json'));print(len(set(b)-set(d['passed'])))")
bash $t/demo.sh >/tmp/demo.bug 2>&1; b=$?
rm -rf "$t"
echo "$id ($prop): stable tests failing=$n demo clean=$a patched=$b"
[ $a != 0 ] && tail -5 /tmp/demo.clean
else git apply $d/patch.diff || exit 1; fi
cd /verif; timeout 900 ./check $prop quick >/tmp/seed.check 2>&1; echo "   check rc=$? $(grep -v '^C[0-9]*:' /tmp/seed.check | tail -2 | cut -c1-400)"
