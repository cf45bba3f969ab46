#!/bin/bash
# mkseed.sh ID...: completes seeded/ID and confirms it: the demonstration passes on the
# unchanged tree and fails with the change; with the change the tree builds and its tests pass.
for id in "$@"; do
here=/verif/seeded/$id
[ -f $here/patch.diff ] || { echo "no patch $id"; continue; }
cp --update=none /verif/tools/seedkit/demo.sh $here/demo.sh; cp /verif/tools/seedkit/dk.h $here/
w=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo/. $w/
cd $w; git checkout -q -- .
if ! bash $here/demo.sh > $w/log 2>&1; then echo "$id: BAD demo fails on the unchanged tree"; tail -5 $w/log
elif ! git apply $here/patch.diff; then echo "$id: BAD patch does not apply"
elif bash $here/demo.sh > $w/log 2>&1; then echo "$id: BAD demo passes with the change"; tail -5 $w/log
elif grep -q "build failed" $w/log; then echo "$id: BAD build"; tail $w/log
else
	tail -2 $w/log | head -1
	git -C /repo apply $here/patch.diff && bash /opt/vp/build.sh > $w/blog 2>&1 && bash /opt/vp/test.sh $w/t.json > /dev/null 2>&1
	python3 - $w/t.json $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
try: t=json.load(open(sys.argv[1]))
except Exception as e: print(sys.argv[2],'BAD build or tests'); sys.exit()
base=b.get('passed') or b.get('stable') or b
miss=[x for x in base if x not in t['passed']]
print(sys.argv[2], 'confirmed' if not miss else 'BAD tests %s'%miss)
P
	git -C /repo checkout -- .
fi
cd /; rm -rf $w
done
bash /opt/vp/build.sh > /dev/null 2>&1
