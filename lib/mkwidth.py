#!/usr/bin/env python3
"""Made /verif/data/width.json once, from the tables of the pinned commit, after this audit against Python's own
Unicode 15.0 data. The checks read the committed file only: they do not read the tables of the working tree."""
import json, re, sys, unicodedata
assert unicodedata.unidata_version == "15.0.0"
src = open(sys.argv[1]).read() + open(sys.argv[2]).read()
T = {}
for m in re.finditer(r"(\w+)\s*= table\{(.*?)\n\s*\}\n", src, re.S):
    T[m.group(1)] = [[int(a, 16), int(b, 16)] for a, b in re.findall(r"\{(0x\w+), (0x\w+)\}", m.group(2))]
print({k: len(v) for k, v in T.items()})
for k, v in T.items():
    for a, b in zip(v, v[1:]):
        assert a[0] <= a[1] < b[0], (k, a, b)
S = {k: {c for a, b in v for c in range(a, b + 1)} for k, v in T.items()}
ea = {}
for c in range(0x110000):
    ea.setdefault(unicodedata.east_asian_width(chr(c)), set()).add(c)
def diff(name, a, b):
    d1, d2 = sorted(a - b), sorted(b - a)
    print(name, "only in table:", [hex(x) for x in d1[:20]], len(d1), "only in python:", [hex(x) for x in d2[:20]], len(d2))
diff("doublewidth", S["doublewidth"], ea["W"] | ea["F"])
diff("ambiguous", S["ambiguous"], ea["A"])
diff("narrow", S["narrow"], ea["Na"])
comb = {c for c in range(0x110000) if "COMBINING" in unicodedata.name(chr(c), "")}
diff("combining", S["combining"], comb)
del T["neutral"]
json.dump(T, open(sys.argv[3], "w"), separators=(",", ":"))
