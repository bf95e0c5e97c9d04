#!/usr/bin/env python3
"""Extracts the patterns and exceptions of the original TeX files of the languages (tex/, with their comments), once, into data/patterns.

The committed result is the reference for C12 and C13: one file per language; '=' lines are exceptions."""
import glob, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(HERE + "/data/patterns", exist_ok=True)
for f in sorted(glob.glob("/repo/wordbreak/hyphenator/languages/tex/*.tex")):
    pats, excs, cur = [], [], None
    for line in open(f, encoding="utf-8"):
        line = re.sub(r"%.*", "", line).strip()
        if line.startswith("\\patterns{"):
            cur, line = pats, line[len("\\patterns{"):]
        elif line.startswith("\\hyphenation{"):
            cur, line = excs, line[len("\\hyphenation{"):]
        if cur is None:
            continue
        end = "}" in line
        cur += line.replace("}", " ").split()
        if end:
            cur = None
    with open(HERE + "/data/patterns/" + os.path.basename(f)[:-4] + ".txt", "w", encoding="utf-8") as o:
        for p in pats:
            o.write(p + "\n")
        for e in excs:
            o.write("=" + e + "\n")
    letters = {}
    for p in pats:
        l = re.sub(r"\d", "", p)
        if l in letters and letters[l] != p:
            print("dup", f, letters[l], p)
        letters[l] = p
    print(f, len(pats), len(excs), max(len(l) for l in letters), sorted(set("".join(letters))))
