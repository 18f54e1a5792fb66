#!/usr/bin/env python3
"""Decide one property: check.py ID

Builds the driver of the property from /repo's current working tree (and /verif/harness),
runs it, judges what its monitors recorded, and writes evidence/ID.json.
Exit 0: the property held on everything observed. Exit 1: VIOLATION. Else: no verdict.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
T0 = time.time()


def goenv(tmp):
    env = dict(os.environ)
    for d in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.isdir(d):
            env["PATH"] = d + ":" + env.get("PATH", "")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", GO111MODULE="on",
               GOSUMDB="off", CGO_ENABLED=env.get("CGO_ENABLED", "1"), VERIF_REPO=REPO)
    env.setdefault("HOME", "/root")
    env.pop("MON_DIV", None)
    env.pop("GOOS", None)
    env.pop("GOARCH", None)
    env.pop("GODEBUG", None)
    env.setdefault("VERIF_SEED", "1")
    env.setdefault("VERIF_TIER", "quick")
    env["VERIF_TMP"] = tmp
    env["VERIF_DIR"] = VERIF
    return env


def die(msg, code=2):
    print(msg)
    sys.stdout.flush()
    sys.exit(code)


def build(tmp, env, pkg, out, flags=(), soft=False):
    """Build a program of the harness. The go.mod of /repo is replaced by our copy, so it need not exist."""
    overlay = os.path.join(tmp, "overlay.json")
    with open(overlay, "w") as f:
        json.dump({"Replace": {os.path.join(REPO, "go.mod"): os.path.join(HARNESS, "repo.mod")}}, f)
    modfile = os.path.join(tmp, "go.mod")
    with open(os.path.join(HARNESS, "go.mod")) as f:
        mod = f.read()
    mod = mod.replace("=> /repo", "=> " + REPO).replace("=> ../shim", "=> " + os.path.join(VERIF, "shim"))
    with open(modfile, "w") as f:
        f.write(mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "go.sum"))
    cmd = ["go", "build", "-modfile", modfile, "-overlay", overlay, "-o", out, *flags, pkg]
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 and soft:
        return False
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die("BUILD-ERROR: %s does not build" % pkg)
    return True


def brief(s):
    return s if len(s) <= 20000 else s[:10000] + "\n...\n" + s[-10000:]


def run(cmd, env, tmp, timeout, cwd):
    err = open(os.path.join(tmp, "stderr"), "wb")
    out = open(os.path.join(tmp, "stdout"), "wb")
    p = subprocess.Popen(cmd, env=env, stdout=out, stderr=err, cwd=cwd, start_new_session=True)
    try:
        p.wait(timeout)
        timed_out = False
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    err.close()
    out.close()
    def tail(n):
        with open(os.path.join(tmp, n), "rb") as f:
            return f.read().decode("utf-8", "replace")
    return p.returncode, tail("stdout"), tail("stderr"), timed_out


def coverage(tmp, env):
    """Which statements of ndau/ndaumath the run executed (thorough tier only)."""
    d = os.path.join(tmp, "cov")
    prof = os.path.join(tmp, "cov.txt")
    p = subprocess.run(["go", "tool", "covdata", "textfmt", "-i", d, "-o", prof], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None
    pk, un = {}, []
    for line in open(prof):
        m = re.match(r"github.com/ndau/ndaumath/(.*?):(\d+)\.\d+,(\d+)\.\d+ (\d+) (\d+)", line)
        if not m:
            continue
        f, a, b, n, c = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5))
        t = pk.setdefault(f, [0, 0])
        t[1] += n
        if c:
            t[0] += n
        else:
            un.append("%s:%d-%d" % (f, a, b))
    return {"statements_executed": {f: "%d/%d" % tuple(t) for f, t in sorted(pk.items()) if t[0]},
            "blocks_not_executed_in_those_files": [u for u in un if pk[u.split(":")[0]][0]]}


def judge(pid, env, what, rc, err, timed_out, timeout):
    """What a run of the driver says: its result, the violations, or why it says nothing."""
    res = None
    try:
        with open(env["MON_OUT"]) as f:
            res = json.load(f)
    except (OSError, ValueError):
        pass
    violations = []
    if timed_out:
        return {}, [], "INCONCLUSIVE: %s%s: the run took more than %d s" % (pid, what, timeout)
    if rc == 66 and "WARNING: DATA RACE" in err:
        violations.append({"class": "data race", "case": "see detail", "detail": brief(err)})
        res = res or {}
    elif res is None:
        if rc in (4, -9, -15) or rc == 0 or not re.search(r"^(fatal error: |panic: |SIG|unexpected fault|runtime: )", err, re.M):
            print(err[-4000:])
            return {}, [], "INCONCLUSIVE: %s%s: the driver ended with %s" % (pid, what, rc)
        if "out of memory" in err and "ndaumath" not in err:
            return {}, [], "INCONCLUSIVE: %s%s: out of memory" % (pid, what)
        violations.append({"class": "crash", "case": "see detail", "detail": brief(err)})
        res = {}
    elif rc != 0:
        print(err[-4000:])
        return {}, [], "INCONCLUSIVE: %s%s: the driver ended with %s" % (pid, what, rc)
    violations += res.get("violations") or []
    return res, violations, None


def other(pid, env, tmp, tier):
    """Run the driver once more, with less work, as a program whose int has 32 bits (the packages are
    built for such platforms too). It can only add violations: where such programs do not run, or
    time is short, the evidence says so."""
    left = (820 if tier == "quick" else 3600 * 2) - (time.time() - T0)
    if left < 60:
        return {"platform": "386", "note": "no time left", "violations": [], "known": []}
    env = dict(env, GOARCH="386", CGO_ENABLED="0", MON_DIV="4", MON_OUT=os.path.join(tmp, "result32.json"))
    env.pop("GOCOVERDIR", None)
    driver = os.path.join(tmp, "driver32")
    none = {"platform": "386", "violations": [], "known": []}
    if not build(tmp, env, "./cmd/" + pid.lower(), driver, soft=True):
        return dict(none, note="does not build")
    try:
        rc, out, err, timed_out = run([driver], env, tmp, left, tmp)
    except OSError as e:
        return dict(none, note="does not run here: %s" % e)
    if "out of memory" in err:
        return dict(none, note="out of memory")
    res, violations, why = judge(pid, env, " (386)", rc, err, timed_out, left)
    why = why or (res.get("missing") and "too few events: " + "; ".join(res["missing"])) or None
    for v in violations:
        v["case"] = "(386) " + v["case"]
    r = {"platform": "386", "evaluations": res.get("evaluations", 0), "distinct_nontrivial": res.get("distinct_nontrivial", 0),
         "events": res.get("events") or {}, "violations": violations, "known": res.get("known") or []}
    if why:
        r["note"] = why
    return r


def main():
    if len(sys.argv) != 2:
        die(__doc__)
    pid = sys.argv[1]
    with open(os.path.join(VERIF, "checks.json")) as f:
        conf = json.load(f)[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier != "thorough":
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = decide(pid, conf, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(pid, conf, tier, seed, tmp):
    env = goenv(tmp)
    env["MON_OUT"] = os.path.join(tmp, "result.json")
    flags = list(conf.get("flags", []))
    cov = tier == "thorough" and "-race" not in flags and not conf.get("nocover")
    if cov:
        flags += ["-cover", "-covermode=set", "-coverpkg=verif/harness/cmd/%s,github.com/ndau/ndaumath/..." % pid.lower()]
        os.mkdir(os.path.join(tmp, "cov"))
        env["GOCOVERDIR"] = os.path.join(tmp, "cov")
    driver = os.path.join(tmp, "driver")
    build(tmp, env, "./cmd/" + pid.lower(), driver, flags)
    if conf.get("wasm"):
        wenv = dict(env, GOOS="js", GOARCH="wasm", CGO_ENABLED="0")
        build(tmp, wenv, "github.com/ndau/ndaumath/cmd/keyaddr", os.path.join(tmp, "keyaddr.wasm"))
    if "-race" in flags:
        env["GORACE"] = "halt_on_error=1 exitcode=66"
    timeout = 780 if tier == "quick" else 3600 * 2
    rc, out, err, timed_out = run([driver], env, tmp, timeout, tmp)
    res, violations, why = judge(pid, env, "", rc, err, timed_out, timeout)
    if why:
        die(why)
    further = None
    if not violations and conf.get("arch32", True):
        further = other(pid, env, tmp, tier)
        if further:
            violations += further.pop("violations")
            res["known"] = (res.get("known") or []) + further.pop("known")
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        listed = {(k["property"], k["id"]) for k in json.load(f)["known"]}
    known = []
    for k in res.get("known") or []:
        if (pid, k["id"]) in listed:
            known.append(k)
        else:
            violations.append({"class": "finding not listed: " + k["id"], "case": k["what"], "detail": ""})

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    wall = time.time() - T0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res.get("evaluations", 0),
            "distinct_nontrivial": res.get("distinct_nontrivial", 0),
            "rule": res.get("rule", ""),
            "samples": res.get("samples") or [],
            "events": res.get("events") or {},
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if further:
        ev["coverage"]["further_run"] = further
    if cov:
        c = coverage(tmp, env)
        if c:
            ev["coverage"]["code"] = c
    if known:
        ev["coverage"]["known_findings_observed"] = known
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, seed))
        with open(replay, "w") as f:
            json.dump({"property": pid, "command": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (seed, tier, pid),
                       "violations": violations}, f, indent=1)
            f.write("\n")
        for v in violations[:5]:
            print("  [%s] %s: %s" % (v["class"], v["case"][:600], v["detail"][:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if res.get("missing"):
        die("INCONCLUSIVE: %s: too few events: %s" % (pid, "; ".join(res["missing"])))
    if not res.get("done"):
        die("INCONCLUSIVE: %s: the run is incomplete" % pid)
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], wall))
    return 0


main()
