#!/usr/bin/env python3
"""Plants a bug: seed.py ID SPEC.py. SPEC.py defines PROP, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO (Go source of a main package). Confirms it in
a scratch copy and writes seeded/ID; --check also runs the property's check."""
import json, os, shutil, subprocess, sys, tempfile
ID, spec = sys.argv[1], sys.argv[2]
ns = {}
exec(open(spec).read(), ns)
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
t = tempfile.mkdtemp(prefix="seed-")
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
try:
    sh("git clone -q /repo %s/r" % t)
    for f, a, b in ns["EDITS"]:
        p = "%s/r/%s" % (t, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    patch = sh("git diff", cwd=t + "/r").stdout
    out = os.path.join(root, "seeded", ID)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(patch)
    open(out + "/demo.go", "w").write(ns["DEMO"].lstrip())
    race = ns.get("RACE", "")
    open(out + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go" "$d/main.go"
cat > "$d/go.mod" <<EOF
module demo

go 1.18

require github.com/timtadh/data-structures v0.0.0

replace github.com/timtadh/data-structures => $repo
EOF
cd "$d" && go build %s -o demo . || exit 3
timeout 120 ./demo
''' % race)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(out + "/meta.json", "w"), indent=1)
    # all of it happens in the copy, /repo is not touched
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    R = t + "/r"
    sh("git stash -q", cwd=R)
    r = sh("bash %s/demo.sh" % out, cwd=R)
    assert r.returncode == 0, "demo fails on the unchanged tree:\n" + r.stdout
    r = sh("git apply %s/patch.diff" % os.path.abspath(out), cwd=R)
    assert r.returncode == 0, r.stdout
    r = sh("go build ./...", cwd=R, env=env)
    assert r.returncode == 0, r.stdout
    r = sh("bash %s/demo.sh" % out, cwd=R)
    assert r.returncode not in (0, 3), "demo passes with the patch:\n" + r.stdout
    print("demo:", r.stdout.strip()[-300:])
    o, log = t + "/o.json", t + "/log"
    sh("go test -json -vet=off -count=1 -timeout 10m ./... > %s; python3 /opt/vp/results.py %s gojson:%s" % (log, o, log), cwd=R, env=env)
    res = json.load(open(o))
    base = json.load(open("/opt/vp/BASELINE.json"))
    def names(x):
        for k in ("stable", "passed"):
            if k in x:
                return set(x[k])
        return {k for k, v in x.items() if v in ("pass", "passed", True)}
    miss = names(base) - names(res)
    assert names(base), base.keys()
    assert not miss, ("tests fail", sorted(miss)[:5])
    if "--check" in sys.argv:
        for tier in ("quick", "thorough"):
            r = sh("bin/check %s %s" % (ns["PROP"], tier), cwd=root, env=dict(env, VERIF_REPO=R))
            print("CHECK", tier, r.returncode, r.stdout.strip()[-700:])
            if r.returncode == 1:
                break
except AssertionError as e:
    print('REJECTED', ID, e)
    shutil.rmtree(out)
finally:
    shutil.rmtree(t)
