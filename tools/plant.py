#!/usr/bin/env python3
"""Plants the bugs described in tools/bugs/*.py-like specs into /verif/seeded.

usage: plant.py SPECFILE...   where SPECFILE holds  ID / PROP / NEEDS / BREAKS / EDITS / PKG / DEMO
EDITS is a list of (file, old, new); DEMO is the text of an external test file of package PKG.
A bug is kept only when it builds, the tests of the repository pass, and the demo fails with it and passes without.
"""
import json, os, subprocess, sys, tempfile, shutil
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, 1 when the property is broken.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_verif_test.go": "%%s/demo_test.go"}}' "$PWD" "$tmp" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$tmp/overlay.json" -run '^TestZZDemo' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, **k)
ok = True
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for b in ns["BUGS"]:
        bid = b["id"]
        d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
        try:
            subprocess.run("git -C /repo archive HEAD | tar -x -C %s; cd %s; git init -q .; git add -A; git -c user.email=a@b -c user.name=a commit -qm base" % (d, d), shell=True, check=True)
            out = "/verif/seeded/" + bid
            os.makedirs(out, exist_ok=True)
            open(out + "/demo.sh", "w").write(DEMO % {"pkg": b["pkg"], "flags": b.get("flags", "")})
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo_test.go.txt", "w").write(b["demo"].lstrip())
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            r = sh(out + "/demo.sh", d)
            if r.returncode != 0:
                print(bid, "DEMO FAILS WITHOUT PATCH\n", r.stdout[-3000:], r.stderr[-2000:]); ok = False; shutil.rmtree(out); continue
            bad = False
            for file, old, new in b["edits"]:
                p = os.path.join(d, file)
                t = open(p).read()
                if t.count(old) != 1:
                    print(bid, "EDIT matches", t.count(old), "in", file, repr(old[:60])); bad = True; break
                open(p, "w").write(t.replace(old, new))
            if bad: ok = False; shutil.rmtree(out); continue
            r = sh("go build ./... && go vet ./... && go test -vet=off -count=1 ./...", d)
            if r.returncode != 0:
                print(bid, "TESTS OR BUILD FAIL", r.stdout[-3000:], r.stderr[-3000:]); ok = False; shutil.rmtree(out); continue
            r = sh(out + "/demo.sh", d)
            if r.returncode == 0:
                print(bid, "DEMO PASSES WITH PATCH"); ok = False; shutil.rmtree(out); continue
            diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
            open(out + "/patch.diff", "w").write(diff)
            print(bid, "planted;", [l for l in r.stdout.splitlines() if "zz_demo" in l or "DATA RACE" in l][:2])
        finally:
            shutil.rmtree(d)
sys.exit(0 if ok else 1)
