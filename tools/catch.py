#!/usr/bin/env python3
"""catch.py ID...: runs the check of each planted bug's property (or those named by CHECKS=C01,C02)
against a scratch copy of /repo with the bug."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = "/tmp/catch-" + i
    subprocess.run("rm -rf '%s'; cp -a /repo '%s' && git -C '%s' apply '%s/patch.diff'" % (w, w, w, d), shell=True, check=True)
    for c in os.environ.get("CHECKS", prop).split(","):
        t = time.time()
        p = subprocess.run(["python3", "check.py", c], cwd=V, env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = {0: "missed", 1: "caught"}.get(p.returncode, "NO ANSWER %d" % p.returncode)
        first = [l for l in p.stdout.splitlines() if l.startswith("  [")][:1]
        print("%-12s %s %-8s %4.0fs %s" % (i, c, v, time.time() - t, (first or [p.stdout[-300:] if p.returncode != 0 else ""])[0][:170]), flush=True)
    subprocess.run("rm -rf '%s'" % w, shell=True)
