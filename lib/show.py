#!/usr/bin/env python3
"""show.py FILE: readable form of a replay file for line breaking"""
import json, sys, re
r = json.load(open(sys.argv[1]))
for s in r["stimuli"]:
    for c in s.get("calls", []):
        print("cfg", s["cfgs"][c["b"]], "w", c["w"])
        print("tokens", [ "".join(map(chr, t)) for t in c["tokens"]])
m = re.search(r"^record: (.*)$", r["detail"], re.M)
try:
    rec = json.loads(m.group(1))
    print("lines", ["".join(map(chr, l)) for l in rec["lines"]], rec["err"])
except Exception as e:
    m = re.search(r'"lines": (\[\[.*?\]\])', m.group(1) if m else "")
    if m: print(["".join(map(chr, l)) for l in json.loads(m.group(1))])
