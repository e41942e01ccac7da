#!/usr/bin/env python3
"""One-off: trims the Unicode 9.0.0 files into /verif/ref/unicode9.txt (committed).
The checks read only that file, never the copies in /repo, so that an edit to /repo cannot move the oracle."""
import sys, re
src, dst = sys.argv[1:3]
o = open(dst, "w")
o.write("# Unicode 9.0.0: U cp ccc decomposition | A assigned range | X composition exclusion | G gcb range\n")
first = None; runs = []
for l in open(src + "/UnicodeData.txt"):
    f = l.rstrip("\n").split(";")
    cp = int(f[0], 16)
    if f[1].endswith(", First>"): first = cp; continue
    lo = cp
    if f[1].endswith(", Last>"): lo = first
    if runs and runs[-1][1] == lo - 1: runs[-1][1] = cp
    else: runs.append([lo, cp])
    if f[3] != "0" or f[5]:
        o.write("U %X %s %s\n" % (cp, f[3], f[5]))
for a, b in runs: o.write("A %X %X\n" % (a, b))
for l in open(src + "/CompositionExclusions.txt"):
    l = l.split("#")[0].strip()
    if l: o.write("X %s\n" % l)
for l in open(src + "/GraphemeBreakProperty.txt"):
    l = l.split("#")[0].strip()
    if not l: continue
    r, v = [x.strip() for x in l.split(";")]
    a, _, b = r.partition("..")
    o.write("G %s %s %s\n" % (a, b or a, v))
