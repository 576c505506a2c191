#!/bin/bash
# trybug.sh ID: apply a planted bug to /repo, build, run tests and demo, run the check, undo
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo dirty; exit 2; }
if [ -z "$FAST" ]; then
bash $d/demo.sh >/tmp/w/demo.log 2>&1 || { echo "demo fails on the unchanged tree"; tail -5 /tmp/w/demo.log; exit 2; }
fi
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$FAST" ]; then
bash /opt/vp/build.sh >/tmp/w/bb.log 2>&1 || { echo "does not build"; tail -5 /tmp/w/bb.log; exit 2; }
bash /opt/vp/test.sh /tmp/w/bt.json >/tmp/w/bt.log 2>&1; tail -1 /tmp/w/bt.log | grep -q "." ; grep -h "passed," /tmp/w/bt.log
bash $d/demo.sh >/tmp/w/demo.log 2>&1 && { echo "demo passes with the bug"; exit 2; }
fi
cd /verif; python3 check.py $prop > /tmp/w/chk.log 2>&1; rc=$?
echo "$id $prop check exit $rc"; grep -m3 -E "VIOLATION|BROKEN|open|TIMEOUT" /tmp/w/chk.log
