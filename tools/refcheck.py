#!/usr/bin/env python3
"""Compares the C++ reference model with Python's unicodedata (four forms, UTF-8) and perl's \\X (clusters without the
emoji classes, whose rules changed after Unicode 9). Python and perl know a later Unicode version; only codepoints assigned
in 9.0 are used, for which normalization is stable by policy."""
import sys, os, itertools, subprocess, unicodedata, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refmodel
exe = sys.argv[1]
texts = []
cps = [c for a, b in refmodel.assigned for c in range(a, b + 1) if not 0xD800 <= c <= 0xDFFF]
interesting = [c for c in cps if c in refmodel.dec or c in refmodel.ccc]
texts += [[c] for c in interesting + list(range(0xAC00, 0xD7A4, 13)) + [0x41, 0x3042, 0x10FFFD]]
marks = [0x300, 0x301, 0x323, 0x327, 0x345, 0x344, 0x5B4, 0x9BE, 0x1161, 0x11A8]
texts += [[c, m] for c in interesting for m in marks[:6]]
al = [0x61, 0x300, 0x301, 0x323, 0x327, 0x345, 0x344, 0xAC00, 0x1100, 0x1161, 0x11A8, 0x9C7, 0x9BE, 0x1E69, 0x212B, 0x958, 0x200D, 0xFB01, 0x3131]
for n in (2, 3, 4): texts += [list(t) for t in itertools.product(al, repeat=n)]
r = subprocess.run([exe], input="\n".join(" ".join("%X" % c for c in t) for t in texts) + "\n", capture_output=True, text=True)
out = r.stdout.splitlines(); bad = []
assert len(out) == len(texts)
for t, l in zip(texts, out):
    f = l.split(";"); s = "".join(map(chr, t))
    for i, form in enumerate(("NFD", "NFC", "NFKD", "NFKC")):
        w = " ".join("%X" % ord(c) for c in unicodedata.normalize(form, s))
        if w != f[i]: bad.append((form, [hex(c) for c in t], w, f[i]))
    if s.encode("utf-8").hex().upper() != f[5]: bad.append(("utf8", t))
print(len(texts), "texts x 4 forms compared with unicodedata;", len(bad), "differences", bad[:3])
reps = [0x61, 0x600, 0xD, 0xA, 0x1, 0x300, 0x1F1E6, 0x903, 0x1100, 0x1160, 0x11A8, 0xAC00, 0xAC01, 0x200D]
seqs = [list(t) for n in (1, 2, 3, 4) for t in itertools.product(reps, repeat=n)] + [[0x1F1E6] * k + x for k in range(1, 8) for x in ([], [0x300], [0x61], [0x1F1E6, 0x200D, 0x1F1E6])]
inp = "\n".join(" ".join("%X" % c for c in t) for t in seqs) + "\n"
mine = [l.split(";")[4].split() for l in subprocess.run([exe], input=inp, capture_output=True, text=True).stdout.splitlines()]
perl = r'''while(<>){chomp;my $s=join"",map{chr hex}split;my @b=(0);while($s=~/(\X)/gs){push @b,pos $s}print"@b\n"}'''
try:
    theirs = [l.split() for l in subprocess.run(["perl", "-e", perl], input=inp, capture_output=True, text=True, check=True).stdout.splitlines()]
    d = [(s, a, b) for s, a, b in zip(seqs, mine, theirs) if a != b]
    print(len(seqs), "texts segmented by perl too;", len(d), "differences", [([hex(c) for c in s], a, b) for s, a, b in d[:3]])
    bad += d
except (OSError, subprocess.CalledProcessError) as e:
    print("perl not usable, segmentation cross-check skipped:", e)
sys.exit(1 if bad else 0)
