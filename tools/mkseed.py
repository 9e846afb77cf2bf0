"""Development helper: writes seeded/<id>/ from edits of a scratch copy of /repo."""
import json, os, shutil, subprocess
W = "/tmp/mkseed"
DEMO = '''#!/bin/bash
# run with cwd = root of the repository
export PATH=/opt/veriftools/go1.23.12/bin:$PATH HOME=${HOME:-/root} GOENV=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/opt/vp/gocache} CGO_ENABLED=1
unset GOROOT
D="$(cd "$(dirname "$0")" && pwd)"
O="$(mktemp)"
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$O"
exec timeout 250 go test RACE-overlay "$O" -vet=off -count=1 -run ZZDemo ./PKG
'''
def mk(id, prop, needs, breaks, edits, pkg, test, race=False, demo=None):
    subprocess.check_call(["rsync", "-a", "--delete", "/repo/", W + "/"])
    for f, old, new in edits:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    subprocess.check_call(["gofmt", "-l", "-w"] + [os.path.join(W, e[0]) for e in edits if e[0].endswith(".go")], stdout=subprocess.DEVNULL)
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
    open(d + "/demo.sh", "w").write(demo or DEMO.replace("PKG", pkg).replace("RACE", "-race " if race else ""))
    os.chmod(d + "/demo.sh", 0o755)
    if test: open(d + "/demo_test.go", "w").write(test)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
