#!/bin/bash
# seedtest.sh <id> [--fast|--check]: in a scratch clone of /repo: confirm the demo (clean=0, patched!=0), build+tests with the patch, then the property's check
id=$1; S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/seed/w-$id; mkdir -p /tmp/seed; cd /tmp/seed
rm -rf "/tmp/seed/w-$id"; git clone -q /repo $W; cd $W
a=-; b=-; t=skipped
D=/tmp/seed/d-$id
if [ "$2" != --check ]; then
rm -rf "/tmp/seed/d-$id"; cp -r $S $D; rm -f $D/*.diff $D/meta.json
bash $D/demo.sh >/tmp/seed/demo-$id.log 2>&1; a=$?
fi
git apply $S/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 9; }
if [ "$2" != --check ]; then bash $D/demo.sh >>/tmp/seed/demo-$id.log 2>&1; b=$?; rm -rf "/tmp/seed/d-$id"; fi
if [ -z "$2" ]; then
  for f in build.sh test.sh; do sed "s#/repo#$W#g; s#/opt/vp/build.sh#/tmp/seed/w-$id/build.sh#g" /opt/vp/$f > $W/$f; done
  bash $W/test.sh /tmp/seed/t-$id.json >/tmp/seed/test-$id.log 2>&1; t=$(python3 -c "import json;j=json.load(open('/tmp/seed/t-$id.json'));print(len(j['passed']),'passed',j['failed'])")
  rm -rf "/tmp/seed/w-$id/_build"
fi
cd /verif; ( time MC_REPO=$W ./check $P quick ) >/tmp/seed/check-$id.log 2>&1; c=$?
rm -rf "/tmp/seed/w-$id"
echo "$id [$P] demo clean=$a patched=$b tests=$t check=$c $(grep real /tmp/seed/check-$id.log) $(grep -B1 -m1 VIOLATION /tmp/seed/check-$id.log | head -1 | cut -c1-200)"
