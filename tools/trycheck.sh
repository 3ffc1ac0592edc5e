#!/bin/bash
# trycheck.sh ID|PATCHFILE [PROPERTY...] : runs checks against a planted bug, on a copy of /repo mounted in its place
id=$1; shift
d=/verif/seeded/$id/patch.diff; [ -f "$id" ] && d=$id
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
w=$(mktemp -d /tmp/try-XXXX); trap "rm -rf $w" EXIT
cp -a /repo $w/repo; mkdir $w/verif
(cd /verif && cp -a bin spec java harness known_findings.txt properties.jsonl MANIFEST.json $w/verif/; mkdir $w/verif/evidence)  # so that /verif can be edited meanwhile
git -C $w/repo apply $d || exit 2
for p in $props; do
  unshare -Urmn bash -c "ip link set lo up; mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && VERIF_SEED=${VERIF_SEED:-1} python3 bin/check.py $p" >$w/out.$p 2>&1; r=$?
  cp $w/out.$p /tmp/tc.$(basename $id).$p
  echo "$(basename $id) $p exit=$r $(grep -m1 -E '^line|BROKEN' $w/out.$p | head -c 260)"
done
