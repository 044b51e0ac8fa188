"""Builds and validates planted bugs: mk(...) makes /verif/seeded/<id> only if the change builds, passes the tests and
its demonstration fails with it and passes without."""
import subprocess, os, shutil, json, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=${HOME:-/root} GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$R/go.mod" "$T/m.mod" && cat "$R/go.sum" "$D/extra.sum" | sort -u > "$T/m.sum" || exit 3
go mod edit -require=github.com/golang/protobuf@v1.5.4 "$T/m.mod" || exit 3
export GOFLAGS="-mod=mod -modfile=$T/m.mod"
echo "{\\"Replace\\":{\\"$R/@PKG@/zz_demo_verif_test.go\\":\\"$D/demo_test.go.txt\\"}}" > "$T/o.json"
cp "$D/demo_test.go.txt" "$T/demo_test.go"
sed -i "s|$D/demo_test.go.txt|$T/demo_test.go|" "$T/o.json"
timeout 250 go test -overlay "$T/o.json" -vet=off -count=1 -timeout 200s @RACE@-run '^TestVerifDemo$' ./@PKG@
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ENV = "export HOME=/root GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off;"
def mk(id, prop, pkg, edits, needs, breaks, demo, race=False):
    if os.path.exists(f"{ROOT}/seeded/{id}") and id not in sys.argv[1:]: return
    shutil.rmtree(W, ignore_errors=True)
    sh(f"git -C /repo worktree prune; cp -a /repo {W}")
    def fail(m):
        print(id, "REJECTED:", m); shutil.rmtree(W, ignore_errors=True)
    d = f"{W}.out/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+"/demo.sh","w").write(DEMO.replace("@PKG@", pkg).replace("@RACE@", ""))
    os.chmod(d+"/demo.sh", 0o755)
    open(d+"/demo_test.go.txt","w").write(demo.lstrip())
    shutil.copy("/opt/vp/mods/root.extra.sum", d+"/extra.sum")
    r = sh(f"bash {d}/demo.sh", cwd=W)
    if r.returncode: return fail("demo fails on clean tree\n"+r.stdout[-1500:]+r.stderr[-1500:])
    for f, old, new in edits:
        s = open(f"{W}/{f}").read()
        if s.count(old) != 1: return fail(f"{f}: {s.count(old)} matches of {old!r}")
        open(f"{W}/{f}","w").write(s.replace(old, new))
    open(d+"/patch.diff","w").write(sh(f"git -C {W} diff").stdout)
    mod = f"cp {W}/go.mod {W}.m.mod; cat {W}/go.sum /opt/vp/mods/root.extra.sum | sort -u > {W}.m.sum; go mod edit -require=github.com/golang/protobuf@v1.5.4 {W}.m.mod; export GOFLAGS='-mod=mod -modfile={W}.m.mod';"
    r = sh(ENV+mod+"gofmt -l $(git diff --name-only); go build ./... && go test -vet=off -count=1 $(go list ./... | grep -vx github.com/renthraysk/xtorm) && go test -vet=off -count=1 -run XXX .", cwd=W)
    if r.returncode: return fail("build/tests\n"+r.stdout[-1500:]+r.stderr[-1500:])
    if ".go\n" in r.stdout.split("ok")[0]: print("gofmt:", r.stdout[:100])
    r = sh(f"bash {d}/demo.sh", cwd=W)
    if r.returncode == 0: return fail("demo passes with the change")
    tail = [l for l in r.stdout.split("\n") if l.strip()][:4]
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d+"/meta.json","w"), indent=1)
    shutil.rmtree(f"{ROOT}/seeded/{id}", ignore_errors=True)
    shutil.copytree(d, f"{ROOT}/seeded/{id}")
    shutil.rmtree(W, ignore_errors=True); shutil.rmtree(W+".out", ignore_errors=True)
    print(id, "ok", " | ".join(tail)[:300])
