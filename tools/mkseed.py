#!/usr/bin/env python3
"""mkseed.py: (re)creates /verif/seeded/<id>/ from an edit list.

usage in a script: seed(id, prop, needs, breaks, [(file, old, new)], demo_go, kind)
"""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves; nonzero: broken. Runs in /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 3
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"/repo/%s/zz_demo_test.go":"%%s"}}' "$here/demo_test.go" > "$tmp/o.json"
%s
'''
def seed(id, prop, needs, breaks, edits, demo, pkg=".", cmd=None, env=""):
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in edits:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    open(os.path.join(d, "demo_test.go"), "w").write(demo)
    c = cmd or f'{env} go test -vet=off -count=1 -timeout 200s -run TestDemo -overlay "$tmp/o.json" ./{pkg}'
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (pkg, c))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
