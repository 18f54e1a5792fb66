#!/usr/bin/env python3
"""plant.py DIR...: makes planted bugs out of specs, and confirms them in a scratch copy of /repo.

DIR/spec.py defines property, needs, breaks and edits = [(file, old, new)]; DIR/main.go (or
DIR/demo.sh) is the demonstration. Writes /verif/seeded/<name of DIR>. A spec is kept when it
compiles, the tests pass, and the demonstration fails with it and passes without it.
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
ENV = dict(os.environ, GOFLAGS="-mod=readonly")


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def plant(d):
    name = os.path.basename(os.path.abspath(d))
    spec = {}
    exec(open(os.path.join(d, "spec.py")).read(), spec)
    sh("rm -rf /tmp/plant; cp -a /repo /tmp/plant")
    for f, old, new in spec["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: %d matches of %r in %s" % (name, s.count(old), old[:60], f)
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", W)
    if not diff:
        return name + ": no change"
    rc, blame = sh("gofmt -l $(git diff --name-only)", W, dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"]))
    out = os.path.join(V, "seeded", name)
    sh("rm -rf '%s'; mkdir -p '%s'" % (out, out))
    for f in os.listdir(d):
        if f not in ("spec.py",):
            (shutil.copytree if os.path.isdir(os.path.join(d, f)) else shutil.copy)(os.path.join(d, f), os.path.join(out, f))
    if not os.path.exists(os.path.join(out, "demo.sh")):
        shutil.copy(os.path.join(V, "tools/demo/demo.sh"), out)
    if not os.path.exists(os.path.join(out, "lib")):
        shutil.copytree(os.path.join(V, "tools/demo/lib"), os.path.join(out, "lib"))
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    bad = []
    rc, t = sh("bash '%s/demo.sh'" % out, "/repo")
    if rc != 0:
        bad.append("demo fails on the unchanged tree (%d): %s" % (rc, t[-1500:]))
    rc, t = sh("bash '%s/demo.sh'" % out, W)
    if rc == 0 or rc == 8:
        bad.append("demo with the change: %d %s" % (rc, t[-1500:]))
    witness = t.strip()[-200:]
    rc, t = sh("python3 %s/tools/tests.py /tmp/plant" % V)
    if rc != 0:
        bad.append("tests: " + t[-1500:])
    # lines taken away must be lines of the original repository
    orig = set(subprocess.run("git grep -hI '' 9087e82", shell=True, cwd="/repo", stdout=subprocess.PIPE).stdout.decode("utf-8", "replace").split("\n"))
    orig = {l.split(":", 1)[-1] if l.startswith("9087e82:") else l for l in orig}
    removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
    if removed and not any(l in orig for l in removed):
        bad.append("changes no line of the original")
    if bad:
        sh("rm -rf '%s'" % out)
        return name + ": NOT KEPT\n  " + "\n  ".join(bad)
    return "%s: kept; %s" % (name, witness.replace("\n", " | "))


for d in sys.argv[1:]:
    print(plant(d), flush=True)
