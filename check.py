#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and decides one property.

  check.py C07                 run the check (VERIF_TIER, VERIF_SEED from the environment)
  check.py C07 --sub name      only one sub-check
  check.py --replay FILE       re-execute a recorded violation
  check.py --build OUT [-race] only build the harness binary
Exit status: 0 held, 1 violated (with a VIOLATION line), 2 the check itself failed.
"""
import argparse, base64, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LEVEL = "exploration"
RACE = {"C13"}
FATAL = ("fatal error: stack overflow", "stack exceeds", "fatal error: runtime: out of memory",
         "fatal error: out of memory", "cannot allocate memory", "fatal error: concurrent map",
         "fatal error: all goroutines are asleep", "WARNING: DATA RACE")


def go_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e["GO111MODULE"] = "on"
    e["GOPROXY"] = "off"
    e["GOTOOLCHAIN"] = "local"
    e["GOWORK"] = "off"
    e["GOFLAGS"] = "-mod=mod"
    e["GOSUMDB"] = "off"
    e.pop("GODEBUG", None)
    if "/usr/local/go/bin" not in e.get("PATH", ""):
        e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
    return e


def build(scratch, out, race=False, cover=False):
    """The harness package lives at the virtual path /repo/zzverif, so that internal packages can be imported."""
    replace = {}
    hd = os.path.join(HERE, "harness")
    for f in sorted(os.listdir(hd)):
        if f.endswith(".go"):
            replace[os.path.join(REPO, "zzverif", f)] = os.path.join(hd, f)
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": replace}, open(ov, "w"))
    mod = open(os.path.join(REPO, "go.mod")).read()
    m = re.search(r"^go (\d+)\.(\d+)(\S*)", mod, re.M)
    if (int(m.group(1)), int(m.group(2))) < (1, 23):
        mod = mod[:m.start()] + "go 1.23.0\n\ngodebug default=go%s.%s\n" % (m.group(1), m.group(2)) + mod[m.end():]
    mod += "\nrequire pgregory.net/rapid v1.3.0\n"
    mf = os.path.join(scratch, "verif.mod")
    open(mf, "w").write(mod)
    sums = open(os.path.join(REPO, "go.sum")).read()
    open(os.path.join(scratch, "verif.sum"), "w").write(sums)
    cmd = ["go", "build", "-tags", "verif", "-overlay", ov, "-modfile", mf, "-o", out]
    if race:
        cmd.append("-race")
    if cover:
        cmd += ["-cover", "-covermode=atomic", "-coverpkg=github.com/avast/apkverifier/..."]
    p = subprocess.run(cmd + ["./zzverif"], cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print("BUILD FAILED\n" + p.stdout)
        return False
    return True


def known_findings():
    out = {}
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def run_env(scratch):
    e = go_env()
    e["TMPDIR"] = scratch
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    e["GOTRACEBACK"] = "single"
    return e


def save_replay(f):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    b = json.dumps(f, indent=1).encode()
    p = os.path.join(d, "%s-%s-%s.json" % (f["property"], f.get("sub", "x"), hashlib.sha256(b).hexdigest()[:10]))
    open(p, "wb").write(b)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--build")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--race", action="store_true")
    ap.add_argument("--cover")
    ap.add_argument("--sub", default="")
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--scale", default="1")
    ap.add_argument("--times", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & (2**40 - 1)
    except ValueError:
        seed = 1
    base = tempfile.mkdtemp(prefix="verif-")
    procs = []
    try:
        if a.setup:
            return 0 if build(base, os.path.join(base, "h")) and build(base, os.path.join(base, "hr"), True) else 2
        if a.build:
            return 0 if build(base, os.path.abspath(a.build), a.race, bool(a.cover)) else 2
        if a.replay:
            return replay(a, base)
        return check(a, base, tier, seed, procs)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(base, ignore_errors=True)


def replay(a, base):
    f = json.load(open(a.replay))
    binp = os.path.join(base, "h")
    if not build(base, binp, f["property"] in RACE):
        return 2
    cmd = [binp, "-check", f["property"], "-tier", f.get("tier", "quick"), "-vseed", "1", "-sub", f["sub"],
           "-known", ",".join(known_findings().get(f["property"], {}))]
    if f.get("rapid_failfile"):
        ff = os.path.join(base, "replay.fail")
        open(ff, "w").write(f["rapid_failfile"])
        cmd += ["-replay-failfile", ff, "-scale", "0"]
    else:
        # a fatal run-time error: the failing shard is run again
        cmd += ["-vseed", str(f.get("vseed", 1)), "-shard", str(f.get("shard", 0)), "-shards", str(f.get("shards", 1))]
    cmd += ["-out", os.path.join(base, "out.json")]
    p = subprocess.run(cmd, cwd=base, env=run_env(base))
    try:
        o = json.load(open(os.path.join(base, "out.json")))
    except (OSError, ValueError):
        print("the harness died (exit %d)" % p.returncode)
        return 1
    for x in o["failures"] or []:
        print("REPRODUCED property=%s %s" % (x["property"], x["message"]))
        for n in x.get("notes") or []:
            print("   " + n)
    for x in o["internal"] or []:
        print("INTERNAL " + x)
    if not o["failures"]:
        print("not reproduced")
    return 1 if o["failures"] else 0


def check(a, base, tier, seed, procs):
    t0 = time.time()
    pid = a.id
    binp = os.path.join(base, "h")
    if not build(base, binp, pid in RACE, bool(a.cover)):
        return 2
    tb = time.time() - t0
    known = known_findings().get(pid, {})
    n = a.shards or max(1, min(8, os.cpu_count() or 8))
    budget = int(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "7200"))
    env = run_env(base)
    if a.cover:
        os.makedirs(a.cover, exist_ok=True)
        env["GOCOVERDIR"] = os.path.abspath(a.cover)
    for i in range(n):
        d = os.path.join(base, "s%d" % i)
        os.mkdir(d)
        cmd = [binp, "-check", pid, "-vseed", str(seed), "-tier", tier, "-shard", str(i), "-shards", str(n),
               "-out", os.path.join(d, "out.json"), "-cur", os.path.join(d, "cur"), "-known", ",".join(known),
               "-sub", a.sub, "-scale", a.scale, "-budget", str(budget)]
        if a.times and i == 0:
            cmd.append("-times")
        log = open(os.path.join(d, "log"), "wb")
        procs.append(subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=log))
    hard = time.time() + budget + 300
    for p in procs:
        try:
            p.wait(max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    subs, fails, internal, knownhit, rule = {}, [], [], {}, ""
    for i, p in enumerate(procs):
        d = os.path.join(base, "s%d" % i)
        txt = open(os.path.join(d, "log"), errors="replace").read()
        if a.times and i == 0:
            print(txt)
        try:
            o = json.load(open(os.path.join(d, "out.json")))
        except (OSError, ValueError):
            o = None
        if o is None or p.returncode not in (0,):
            why = next((x for x in FATAL if x in txt), None)
            if why:
                cur = b""
                try:
                    cur = open(os.path.join(d, "cur"), "rb").read()
                except OSError:
                    pass
                fails.append({"property": pid, "sub": current_sub(d), "tier": tier, "vseed": seed, "shard": i, "shards": n,
                              "message": "the process died: %s\n%s" % (why, txt[:6000]),
                              "artifacts_base64": {"input": base64.b64encode(cur[:3 << 20]).decode()}})
            else:
                internal.append("shard %d ended with status %s\n%s" % (i, p.returncode, txt[-4000:]))
            if o is None:
                continue
        rule = o["rule"]
        knownhit.update(o["known"] or {})
        for f in o["failures"] or []:
            f.update(vseed=seed, shard=i, shards=n)
            fails.append(f)
        internal += o["internal"] or []
        for name, s in o["subs"].items():
            m = subs.setdefault(name, {"evaluations": 0, "hashes": set(), "classes": {}, "samples": []})
            m["evaluations"] += s["evaluations"]
            m["hashes"].update(s["hashes"] or [])
            for k, v in (s["classes"] or {}).items():
                m["classes"][k] = m["classes"].get(k, 0) + v
            for x in s["samples"] or []:
                if len(m["samples"]) < 3:
                    m["samples"].append(x)
    rc = 0
    seen = set()
    for f in fails:
        if f["sub"] in seen:
            continue
        seen.add(f["sub"])
        f["property"] = pid
        path = save_replay(f)
        print("  sub-check %s: %s" % (f["sub"], f["message"][:1500]))
        for x in (f.get("notes") or [])[:12]:
            print("    " + x[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    for k, v in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, v, k))
    ev = sum(s["evaluations"] for s in subs.values())
    nt = sum(len(s["hashes"]) for s in subs.values())
    wall = time.time() - t0
    samples = ["[%s] %s" % (k, x) for k, s in subs.items() for x in s["samples"]]
    cov = {"evaluations": ev, "distinct_nontrivial": nt, "rule": rule, "samples": samples or ["(none)"],
           "sub_checks": {k: {"evaluations": s["evaluations"], "distinct_nontrivial": len(s["hashes"]),
                              "classes": dict(sorted(s["classes"].items()))} for k, s in subs.items()},
           "shards": n, "known_findings_seen": sorted(knownhit), "violations": len(seen)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.sub:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov, "wall_s": round(wall, 2)},
                  open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)%s" % (
        pid, tier, ev, nt, wall, tb, "" if rc == 0 else ", VIOLATED"))
    if rc == 0 and internal:
        for x in internal[:4]:
            print("CHECK ERROR: " + x[:4000])
        return 2
    return rc


def current_sub(d):
    try:
        return open(os.path.join(d, "cur.sub")).read().strip() or "unknown"
    except OSError:
        return "unknown"


if __name__ == "__main__":
    sys.exit(main())
