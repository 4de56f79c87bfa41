#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: makes /verif/seeded/ID from the planted-bug specs.

A spec file defines BUGS, a list of dict(id, property, pkg, edits=[(file, old,
new)...], demo=Go test source, needs, breaks). Each is confirmed in a scratch copy: it
builds, passes the stable tests, and the demo fails with it and passes without."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo, built; exit 0 when the property holds on this demonstration
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GO111MODULE=on
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
r=$(pwd)
cp "$d/demo_test.go.txt" "$t/demo_test.go"
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$r" "$t" >"$t/overlay.json"
TMPDIR=$t go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo' ./%s
'''
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        tmp = tempfile.mkdtemp(prefix="plant-")
        repo = tmp + "/repo"
        sh("cp -a /repo " + repo)
        out = VERIF + "/seeded/" + b["id"]
        stage = tmp + "/bug"
        os.makedirs(stage)
        open(stage + "/demo.sh", "w").write(DEMO % (b["pkg"], b["pkg"]))
        os.chmod(stage + "/demo.sh", 0o755)
        open(stage + "/demo_test.go.txt", "w").write(b["demo"])
        r0 = sh("bash %s/demo.sh" % stage, cwd=repo)
        ok = True
        for f, old, new in b["edits"]:
            s = open(repo + "/" + f).read()
            if s.count(old) != 1:
                print(b["id"], "edit does not apply:", s.count(old), repr(old)); ok = False; break
            open(repo + "/" + f, "w").write(s.replace(old, new))
        if not ok:
            shutil.rmtree(tmp); continue
        diff = sh("git diff", cwd=repo).stdout
        env = dict(os.environ)
        rt = sh(". /verif/env.sh; go build ./... && go test -vet=off -count=1 -json ./... > %s/t.json; python3 /verif/tools/stable.py %s/t.json" % (tmp, tmp), cwd=repo)
        r1 = sh("bash %s/demo.sh" % stage, cwd=repo)
        stable = "missing: []" in rt.stdout
        print(b["id"], "demo clean rc", r0.returncode, "stable", stable, "demo bug rc", r1.returncode)
        if r0.returncode != 0: print(r0.stdout[-1500:])
        if not stable: print(rt.stdout[-1500:])
        if r0.returncode == 0 and stable and r1.returncode != 0:
            if "build failed" in r1.stdout or "setup failed" in r1.stdout:
                print(r1.stdout[-1500:])
            else:
                open(stage + "/patch.diff", "w").write(diff)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(stage + "/meta.json", "w"), indent=1)
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(stage, out)
                c = sh("VERIF_REPO=%s VERIF_SEED=1 ./check.sh %s" % (repo, b["property"]), cwd=VERIF)
                lines = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION") or "not discharged" in l or "note" in l][:6]
                print("   check rc", c.returncode, "|", "\n      ".join(l[:220] for l in lines))
        shutil.rmtree(tmp)
main()
