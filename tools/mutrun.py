#!/usr/bin/env python3
"""mutrun.py MUTANTS.jsonl RESULTS.jsonl [--files a,b] [--sample N] [--seed S] [--jobs 8] [--scale X] [--full]
Runs the checks that watch a file against single changes of it (tools/mutate lists them). Every check runs one shard of
the quick tier; survivors are also run against the repository's tests. Only used while developing the checks."""
import argparse, json, os, random, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
REL = {
 "signingblock/signingblock.go": "C25 C01 C02 C24 C03 C07 C06 C14 C16 C21 C13 C15 C12 C10 C11 C08 C23",
 "signingblock/schemev2.go": "C03 C01 C06 C23 C24 C12 C08 C14 C07",
 "signingblock/schemev3.go": "C09 C03 C01 C06 C08 C23 C07 C12 C14 C24",
 "signingblock/schemev31.go": "C09 C03 C01 C06 C08 C23 C07 C12 C14 C02 C21",
 "signingblock/schemev3lineage.go": "C09 C01 C03 C06 C12 C20",
 "signingblock/signer.go": "C03 C01 C21 C23 C24 C08 C09 C10 C02 C12",
 "signingblock/datasource.go": "C21 C02 C01 C16 C12",
 "signingblock/verity.go": "C21 C02 C01 C12 C16",
 "signingblock/frosting.go": "C11 C12 C16",
 "signingblock/sourcestamp.go": "C10 C12 C16",
 "signingblock/utils.go": "C03 C01 C09 C20 C12 C10 C24 C23",
 "signingblock/verificationresult.go": "C01 C03 C23 C08 C10 C14",
 "schemev1.go": "C04 C05 C29 C23 C22 C06 C14 C08 C15 C13 C12 C16 C07",
 "manifest.go": "C22 C05 C04 C29 C12 C16",
 "certinfo.go": "C20 C01 C04",
 "apkverifier.go": "C07 C15 C14 C13 C16 C01 C04 C06 C05 C08 C12",
 "apilevel/levels.go": "C07 C06 C01 C20 C09",
 "fullsailor/pkcs7/ber.go": "C26 C28 C19 C27 C04",
 "fullsailor/pkcs7/pkcs7.go": "C19 C27 C26 C28 C04 C05",
 "fullsailor/pkcs7/x509.go": "C19 C26 C27",
 "internal/asn1andr/asn1.go": "C17 C18 C28",
 "internal/asn1andr/common.go": "C17 C18 C28 C30",
 "internal/asn1andr/marshal.go": "C17 C30 C19",
 "internal/x509andr/x509.go": "C18 C30 C28",
 "internal/x509andr/pkcs1.go": "C30 C18 C28", "internal/x509andr/pkcs8.go": "C30 C28", "internal/x509andr/sec1.go": "C30 C28",
 "internal/x509andr/pem_decrypt.go": "C30 C28", "internal/x509andr/verify.go": "C30 C28", "internal/x509andr/cert_pool.go": "C30 C28",
 "internal/ioerror/ioerror.go": "C16 C13 C12",
}
ap = argparse.ArgumentParser()
ap.add_argument("mutants"); ap.add_argument("results")
ap.add_argument("--files", default=""); ap.add_argument("--sample", type=int, default=0); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--scale", default="1"); ap.add_argument("--skip-top", action="store_true")
ap.add_argument("--only", default="", help="file with a list of mutants (JSON lines) to run again")
a = ap.parse_args()
ms = [json.loads(l) for l in open(a.mutants)]
key = lambda m: (m["File"], m["Off"], m["End"], m["New"])
done = set()
if os.path.exists(a.results):
    done = {key(json.loads(l)) for l in open(a.results)}
ms = [m for m in ms if m["File"] in REL and (not a.files or any(m["File"].startswith(f) for f in a.files.split(",")))]
NOISE = ("addWarning", "fmt.Fprintf", ".String()", "String")
ms = [m for m in ms if not m["Func"].endswith(".String") and not m["Func"].endswith(".Dump") and not m["Func"].endswith("Error") and "addWarning" not in m["What"]]
if a.sample:
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.sample]
ms = [m for m in ms if key(m) not in done]
print(len(ms), "mutants")
lock = threading.Lock()
out = open(a.results, "a")
known = {p: ",".join(k) for p, k in check.known_findings().items()}
q = iter(ms)
stat = {}
scratch = tempfile.mkdtemp(prefix="mut-")
harness = {}
for f in sorted(os.listdir(os.path.join(check.HERE, "harness"))):
    if f.endswith(".go"):
        shutil.copy(os.path.join(check.HERE, "harness", f), scratch)
        harness["/repo/zzverif/" + f] = os.path.join(scratch, f)
env = check.go_env(); env["GOMAXPROCS"] = "2"


def modfile(d):
    mod = open("/repo/go.mod").read()
    import re
    m = re.search(r"^go (\d+)\.(\d+)(\S*)", mod, re.M)
    mod = mod[:m.start()] + "go 1.23.0\n\ngodebug default=go%s.%s\n" % (m.group(1), m.group(2)) + mod[m.end():]
    open(d + "/v.mod", "w").write(mod + "\nrequire pgregory.net/rapid v1.3.0\n")
    shutil.copy("/repo/go.sum", d + "/v.sum")


def run(cmd, d, t, e=env):
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def one(m, d):
    src = open("/repo/" + m["File"], "rb").read()
    open(d + "/m.go", "wb").write(src[:m["Off"]] + m["New"].encode() + src[m["End"]:])
    rep = dict(harness); rep["/repo/" + m["File"]] = d + "/m.go"
    json.dump({"Replace": rep}, open(d + "/o.json", "w"))
    modfile(d)
    rc, o = run(["go", "build", "-tags", "verif", "-overlay", d + "/o.json", "-modfile", d + "/v.mod", "-o", d + "/h", "./zzverif"], "/repo", 300)
    if rc:
        return "nobuild", ""
    for c in REL[m["File"]].split():
        for f in ("out.json",):
            if os.path.exists(d + "/" + f):
                os.remove(d + "/" + f)
        rc, o = run([d + "/h", "-check", c, "-vseed", "1", "-shard", "0", "-shards", "8", "-out", d + "/out.json", "-cur", d + "/cur", "-known", known.get(c, ""),
                     "-scale", a.scale, "-shrink", "0s", "-first", "-budget", "120"], d, 400, check.run_env(d))
        try:
            r = json.load(open(d + "/out.json"))
        except (OSError, ValueError):
            return "killed", c + " died"
        if r["failures"]:
            return "killed", c + " " + r["failures"][0]["sub"] + ": " + r["failures"][0]["message"][:160]
        if rc:
            return "killed?", c + " internal " + str(r["internal"])[:200]
    json.dump({"Replace": {"/repo/" + m["File"]: d + "/m.go"}}, open(d + "/o2.json", "w"))
    shutil.copy("/repo/go.mod", d + "/t.mod"); shutil.copy("/repo/go.sum", d + "/t.sum")
    rc, o = run(["go", "test", "-overlay", d + "/o2.json", "-vet=off", "-count=1", "-modfile", d + "/t.mod", "./..."], "/repo", 120)
    if rc:
        return "tests", ""
    return "SURVIVED", ""


def worker(i):
    d = os.path.join(scratch, "w%d" % i)
    os.makedirs(d, exist_ok=True)
    while True:
        with lock:
            m = next(q, None)
        if m is None:
            return
        t = time.time()
        v, why = one(m, d)
        with lock:
            m["verdict"], m["why"], m["s"] = v, why, round(time.time() - t, 1)
            out.write(json.dumps(m) + "\n"); out.flush()
            stat[v] = stat.get(v, 0) + 1
            if v == "SURVIVED":
                print("%s:%d %s: %s" % (m["File"], m["Line"], m["Func"], m["What"][:150].replace("\n", " ")), flush=True)

try:
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
finally:
    shutil.rmtree(scratch)
print(stat)
