#!/usr/bin/env python3
"""Writes data/ucd<v>.json from a UnicodeData.txt per version (run once; the results are committed,
so that the specification's character data does not follow changes to /repo).
usage: mkucd.py <dir with bits7..bits16>"""
import json, os, sys
SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/source"
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data")
for v in range(7, 17):
    assigned, lower, upto = set(), {}, None
    for line in open(f"{SRC}/bits{v}/UnicodeData.txt"):
        f = line.rstrip("\n").split(";")
        if len(f) < 15: continue
        c, name, gc = int(f[0], 16), f[1], f[2]
        if name.endswith(", First>"): upto = c; continue
        lo = upto if name.endswith(", Last>") else c
        upto = None
        if gc in ("Cs", "Co"): continue
        assigned.update(range(lo, c + 1))
        if f[13]: lower[c] = int(f[13], 16)
    iv = []
    for c in sorted(assigned):
        if iv and iv[-1][1] == c - 1: iv[-1][1] = c
        else: iv.append([c, c])
    runs = []       # [lo, hi, step, delta]
    for c in sorted(lower):
        d = lower[c] - c
        if runs:
            lo, hi, st, dd = runs[-1]
            if dd == d and ((lo == hi and c - hi in (1, 2)) or (lo != hi and c - hi == st)):
                runs[-1] = [lo, c, c - hi, d]; continue
        runs.append([c, c, 1, d])
    with open(f"{OUT}/ucd{v}.json", "w") as o:
        json.dump({"v": v, "assigned": iv, "lower": runs}, o, separators=(",", ":")); o.write("\n")
    print(v, len(assigned), len(iv), len(lower), len(runs))
