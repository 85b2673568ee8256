"""Makes and validates a planted bug. seed(id, prop, needs, what, edits=[(file, old, new)], demo=go source[, race]).
Works on a copy of /repo under /tmp; keeps /verif/seeded/<id>/ only when everything holds."""
import json, os, shutil, subprocess, sys
V = "/verif/seeded"
W = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# Exit 0 when the library behaves, nonzero otherwise. Run in the repository root.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp go.mod "$t/golearn.mod"
cp /opt/vp/mod/golearn.sum "$t/golearn.sum"
export GOFLAGS="-modfile=$t/golearn.mod -mod=mod" GODEBUG=cgocheck=0,randautoseed=0,randseednop=0
printf '{"Replace":{"%%s/zz_demo/main.go":"%%s/demo.go"}}' "$PWD" "$here" > "$t/o.json"
export DEMO_DIR="$t"
go build -buildvcs=false %s -overlay "$t/o.json" -o "$t/demo" ./zz_demo && cd "$t" && timeout 120 "$t/demo" >"$t/out" 2>&1
rc=$?
tail -5 "$t/out" 2>/dev/null
exit $rc
'''
def sh(cmd, cwd=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def fresh():
    if not os.path.isdir(W):
        sh("git clone -q /repo %s" % W)
    sh("git fetch -q origin && git reset -q --hard origin/main && git clean -qfdx", W)
    sh("git -C %s reset -q --hard $(git -C /repo rev-parse HEAD)" % W)

def stable(cwd):
    """Runs the tests of cwd and says which stable ones did not pass."""
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    rc, out = sh(". /opt/vp/env.sh; cp go.mod /tmp/seed.mod; cp /opt/vp/mod/golearn.sum /tmp/seed.sum; GOFLAGS='-modfile=/tmp/seed.mod -mod=mod' GODEBUG=cgocheck=0,randautoseed=0 go test -vet=off -count=1 -json ./...", cwd)
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return [t for t in base if t not in ok]

def seed(id, prop, needs, what, edits, demo, race=False, check=True, tests=True):
    fresh()
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    rc, patch = sh("git diff", W)
    rc, out = sh("bash -c '. /opt/vp/env.sh; GOFLAGS=\"-modfile=/opt/vp/mod/golearn.mod -mod=mod\" go build ./...'", W)
    if rc:
        print(id, "DOES NOT BUILD", out[-800:]); return False
    if tests:
        miss = stable(W)
        if miss:
            miss = [m for m in stable(W) if m in miss]
        if miss:
            print(id, "BREAKS TESTS", miss); return False
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(DEMO % ("-race" if race else ""))
    open(d + "/demo.go", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    os.chmod(d + "/demo.sh", 0o755)
    r1, o1 = sh("bash %s/demo.sh" % d, "/repo")
    r2, o2 = sh("bash %s/demo.sh" % d, W)
    if r1 != 0 or r2 == 0:
        print(id, "DEMO WRONG: clean", r1, o1[-600:], "patched", r2, o2[-600:])
        shutil.rmtree(d)
        return False
    res = ""
    if check:
        rc, out = sh("VERIF_REPO=%s VERIF_SEED=1 /verif/bin/check %s" % (W, prop))
        res = "caught" if rc == 1 and "VIOLATION property=%s" % prop in out else "MISSED rc=%d %s" % (rc, out[-500:])
    print(id, "ok", res)
    return True
