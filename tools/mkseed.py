#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ for every entry of SPEC.S (used while planting bugs)."""
import os, re, subprocess, sys, shutil, tempfile, json, runpy
BASE = "4b780f4"
HELP = '''
func demoLoad(t *testing.T, name string) []byte {
	f, err := os.Open(filepath.Join(os.Getenv("DEMO_DIR"), name+".gz"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		t.Fatal(err)
	}
	b, err := io.ReadAll(z)
	if err != nil {
		t.Fatal(err)
	}
	return b
}
'''
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0: it behaves as the property says.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} PATH=$PATH:/usr/local/go/bin GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
cp go.mod "$t/demo.mod" && cp go.sum "$t/demo.sum" || exit 2
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD%(slash)s" "$d" > "$t/o.json"
DEMO_DIR=$d GOFLAGS="-mod=mod -modfile=$t/demo.mod" go test %(race)s-overlay "$t/o.json" -vet=off -run '^TestSeededDemo$' -count=1 ./%(pkg)s
'''
EMITLIB = '''
func mkZip(min int32, es ...*ZEntry) *ZipSpec {
	return &ZipSpec{Entries: append([]*ZEntry{{Name: "AndroidManifest.xml", Data: ManifestSpec{Min: i32p(min), Target: i32p(29)}.Encode()}}, es...)}
}
func mkSigner(key string, v3 bool, algs ...uint32) *SignerSpec {
	k := keyByName[key]
	return &SignerSpec{Key: k, Algs: algs, Chain: [][]byte{selfCert(k, 0)}, V3: v3, Min: 28, Max: anyMax}
}
func mkJar(key, base string) *JarSigner {
	k := keyByName[key]
	return &JarSigner{Base: base, Ext: extFor(k), Key: k, Alg: defaultV1Alg(k), Chain: [][]byte{selfCert(k, 0)}, Digests: []string{"SHA1"}, Whole: true, Layout: mfLayout{EOL: "\\r\\n", Width: 70}}
}

'''
S = runpy.run_path(sys.argv[1])["S"]
only = sys.argv[2:]
for s in S:
    if only and s["id"] not in only:
        continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for f, old, new in s["edits"]:
            p = w + "/r/" + f
            src = open(p).read()
            assert src.count(old) == 1, (s["id"], f, src.count(old), old)
            open(p, "w").write(src.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=w + "/r", capture_output=True, text=True, check=True).stdout
        b = subprocess.run(["go", "build", "./..."], cwd=w + "/r", capture_output=True, text=True)
        if b.returncode:
            print(s["id"], "BUILD", b.stderr)
            continue
        base = {}
        removed = 0
        cur = ""
        for l in patch.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                if cur not in base:
                    base[cur] = set(subprocess.run(["git", "show", BASE + ":" + cur], cwd=w + "/r", capture_output=True, text=True).stdout.splitlines())
                if l[1:].strip() and l[1:] not in base[cur]:
                    print(s["id"], "NOT AN ORIGINAL LINE:", l[1:])
        if not removed:
            print(s["id"], "no line removed")
        open(d + "/patch.diff", "w").write(patch)
        if s.get("emit"):
            g = w + "/emit.go"
            imp = s.get("emit_imports", [])
            open(g, "w").write('package main\n\nimport (\n\t"bytes"\n\t"compress/gzip"\n' + "".join('\t"%s"\n' % i for i in imp) + ')\n\n'
                'func out(n string, b []byte) {\n\tvar w bytes.Buffer\n\tz, _ := gzip.NewWriterLevel(&w, 9)\n\tz.Write(b)\n\tz.Close()\n\temit(n+".gz", w.Bytes())\n}\n\n'
                + EMITLIB + 'func init() { register("EMIT", "", Sub{"x", 1, 1, emitCase}) }\n\nfunc emitCase(t *T) {\n' + s["emit"] + '\n}\n')
            r = subprocess.run([sys.executable, "/verif/tools/emit.py", g, d, str(s.get("seed", 1))], capture_output=True, text=True)
            if r.returncode or "FAIL" in r.stdout or "INTERNAL" in r.stdout:
                print(s["id"], "EMIT", r.stdout[-1500:], r.stderr[-1500:])
        pkg = s.get("pkg", ".")
        slash = "" if pkg == "." else "/" + pkg
        name = s.get("package", "apkverifier")
        imps = ["compress/gzip", "io", "os", "path/filepath", "testing"] + s.get("imports", []) if s.get("emit") else ["testing"] + s.get("imports", [])
        open(d + "/demo_test.go", "w").write("package %s\n\nimport (\n%s)\n%s\nfunc TestSeededDemo(t *testing.T) {%s}\n" % (
            name, "".join('\t"%s"\n' % i if not i.endswith('"') else "\t" + i + "\n" for i in sorted(set(imps))), HELP if s.get("emit") else "", s["test"]))
        subprocess.run(["gofmt", "-w", d + "/demo_test.go"])
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": "" if pkg == "." else pkg, "slash": slash, "race": "-race " if s.get("race") else ""})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
