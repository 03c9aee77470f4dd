#!/usr/bin/env python3
"""Writes MANIFEST.json: every property whose check file exists is claimed."""
import json, os, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {  # property: (technique, level note)
 "C01": ("property-based testing: independent APK signer generates valid APKs, oracle = known signers", ""),
}
try:
    from notes import NOTES
    T.update(NOTES)
except ImportError:
    pass
claimed, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".go")):
        t, note = T.get(i, ("property-based testing with an independent generator and reference oracle", ""))
        claimed.append({"property": i, "quick_cmd": "python3 check.py " + i,
                        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                        "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration",
                        "level_note": note or "Random search over generated inputs; trusts the harness's own signer and reference model and Go's crypto library."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": claimed, "not_applicable": na,
     "notes": "All checks share the harness in harness/ (Go, pgregory.net/rapid), built over /repo through an overlay by check.py."}
hook = os.path.join(ROOT, "tools", "hooks.json")
if os.path.exists(hook):
    m["hooks"] = json.load(open(hook))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed", len(na), "not")
