"""Writes /verif/seeded/<id>/ from edits of a scratch clone of /repo.  Used as a library by ad hoc scripts:
   seed(id, property, needs, breaks, [(file, old, new), ...], demo_go, pkg="oracle")"""
import json, os, subprocess, tempfile, shutil

DEMO = '''#!/bin/bash
# exit 0: the property held in this scenario
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > $tmp/o.json
export DEMO_DIR=$tmp
go test -vet=off -count=1 -timeout 120s -overlay $tmp/o.json -run '^TestDemo$' ./%(pkg)s
'''


def seed(sid, prop, needs, breaks, edits, demo_go, pkg="oracle", demo_sh=None, files=None):
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.run(["cp", "-a", "/repo", w + "/r"], check=True)
    for f, old, new in edits:
        p = w + "/r/" + f
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w + "/r", capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    if demo_go is not None:
        open(d + "/demo_test.go", "w").write(demo_go)
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % {"pkg": pkg})
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
