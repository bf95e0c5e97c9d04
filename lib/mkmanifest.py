#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
checks, na = [], []
NOTE = {
 "model": "TLC checks the specification exhaustively within stated bounds, and judges every recorded execution of the code (rebuilt from /repo) against it; assurance for the code is that of the executions explored (exhaustive small scopes + seeded random). Trusts TLC, the Go toolchain and the JSON driver.",
}
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists("%s/lib/p_%s.py" % (HERE, p.lower())):
        checks.append({"property": p, "quick_cmd": "python3 lib/check.py " + p, "thorough_cmd": "python3 lib/check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "level": "model_checking",
                       "technique": "TLA+ specification checked with TLC; behaviours replayed into the code, recorded executions validated by TLC",
                       "level_note": NOTE["model"]})
    else:
        na.append({"property": p, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": {"guard": "verif", "enable": "go build -tags verif -overlay (the driver in /verif/driver is overlaid in a package of its own; no hook was needed in /repo)", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
