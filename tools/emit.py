#!/usr/bin/env python3
"""emit.py FILE.go OUTDIR [SEED]: runs a generator written against the harness, to make fixtures for /verif/seeded.
FILE.go is package main, registers check "EMIT" with a sub "x", and calls emit(name, bytes)."""
import os, sys, tempfile, shutil, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
src, out, seed = sys.argv[1], os.path.abspath(sys.argv[2]), (sys.argv[3:] or ["1"])[0]
os.makedirs(out, exist_ok=True)
t = tempfile.mkdtemp()
try:
    shutil.copytree(os.path.join(check.HERE, "harness"), t + "/harness")
    shutil.copy(src, t + "/harness/zz_emit.go")
    open(t + "/harness/zz_emit2.go", "w").write('package main\nimport ("os";"path/filepath")\nfunc emit(n string, b []byte) { if err := os.WriteFile(filepath.Join(os.Getenv("EMIT_DIR"), n), b, 0o644); err != nil { panic(err) } }\n')
    check.HERE = t
    if not check.build(t, t + "/h"):
        sys.exit(2)
    e = check.run_env(t)
    e["EMIT_DIR"] = out
    sys.exit(subprocess.run([t + "/h", "-check", "EMIT", "-sub", "x", "-vseed", seed], cwd=t, env=e).returncode)
finally:
    shutil.rmtree(t)
