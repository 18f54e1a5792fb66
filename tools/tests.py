#!/usr/bin/env python3
"""tests.py TREE: builds a copy of /repo and runs all its tests: the stable ones, and those of the
packages which need the decimal stand-in. Exit 0 if nothing fails which passes on /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(tree):
    t = "/tmp/plant-tests"
    subprocess.run("rm -rf %s; mkdir %s" % (t, t), shell=True, check=True)
    env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GODEBUG="randautoseed=0")
    subprocess.run("rsync -a --exclude .git %s/ %s/" % (tree, t), shell=True, check=True)
    with open(t + "/go.mod", "a") as f:
        f.write("\nrequire github.com/ericlagergren/decimal v0.0.0\nreplace github.com/ericlagergren/decimal => %s/shim/decimal\n" % V)
    rc = subprocess.run("go build ./pkg/... && GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/keyaddr", shell=True, cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if rc.returncode:
        return None, rc.stdout
    p = subprocess.run("go test -json -vet=off -timeout 5m ./pkg/...", shell=True, cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res = {}
    for l in p.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") in ("pass", "fail") and e.get("Test"):
            res[e["Package"] + " " + e["Test"]] = e["Action"]
    return res, ""


base = "/tmp/plant-base.json"
head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True)
b = None
if os.path.exists(base):
    b = json.load(open(base))
    if b["head"] != head:
        b = None
if b is None:
    r, e = run("/repo")
    assert r is not None, e
    b = {"head": head, "res": r}
    json.dump(b, open(base, "w"))
r, e = run(sys.argv[1])
if r is None:
    print("does not build:", e)
    sys.exit(1)
bad = [t for t, a in b["res"].items() if a == "pass" and r.get(t) != "pass"]
print(len(b["res"]), "tests,", len(bad), "broken:", bad[:5])
sys.exit(1 if bad else 0)
