#!/bin/bash
# plant.sh ID : confirms a planted bug of /verif/seeded/ID in a scratch copy of /repo:
# demo passes without, patch applies, builds, the stable tests pass, demo fails with it.
set -u
id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/plant-XXXX)
trap "rm -rf $w" EXIT
cp -a /repo $w/repo; cp -r $d $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
cd $w/repo || exit 2
# the demo and the tests name /repo: run them under a private mount of the copy
run() { unshare -Urm bash -c "mount --bind $w/repo /repo && cd /repo && $1"; }
run "bash $w/demo/demo.sh" >$w/o1 2>&1 || { echo "demo fails on the unchanged tree"; tail -20 $w/o1; exit 1; }
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
run "bash /opt/vp/build.sh" >$w/o2 2>&1 || { echo "does not build"; tail $w/o2; exit 1; }
run "bash /opt/vp/test.sh $w/t.json" >$w/o3 2>&1
python3 - $w/t.json <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
want=b.get('passed') or b.get('stable') or b.get('tests')
miss=set(want)-set(t['passed'])
print("tests missing:",sorted(miss)[:5]) if miss else None
sys.exit(1 if miss else 0)
P
if run "bash $w/demo/demo.sh" >$w/o4 2>&1; then echo "demo passes with the bug"; exit 1; fi
echo "OK $id: $(grep -m1 -E 'FAIL|demo' $w/o4 | head -c 200)"
