"""Python twin of the reference model; used only to validate the reference data and the C++ model."""
import os, unicodedata
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "ref", "unicode9.txt")
ccc, dec, assigned, excl, gcb = {}, {}, [], set(), []
for l in open(D):
    if l[0] == "#": continue
    f = l.split()
    if f[0] == "U":
        cp = int(f[1], 16)
        if f[2] != "0": ccc[cp] = int(f[2])
        if len(f) > 3:
            tag = f[3].startswith("<")
            dec[cp] = (tag, [int(x, 16) for x in f[(4 if tag else 3):]], f[3] if tag else "")
    elif f[0] == "A": assigned.append((int(f[1], 16), int(f[2], 16)))
    elif f[0] == "X": excl.add(int(f[1], 16))
    elif f[0] == "G": gcb.append((int(f[1], 16), int(f[2], 16), f[3]))

def selftest():
    """The trimmed data against Python's own Unicode database (a later version; both properties are
    stable for codepoints assigned in 9.0 by Unicode's stability policies)."""
    bad = []
    n = 0
    for a, b in assigned:
        for cp in range(a, b + 1):
            if 0xD800 <= cp <= 0xDFFF: continue
            n += 1
            c = chr(cp)
            if unicodedata.combining(c) != ccc.get(cp, 0): bad.append(("ccc", hex(cp)))
            d = unicodedata.decomposition(c)
            if 0xAC00 <= cp <= 0xD7A3: d = ""
            t, m, tag = dec.get(cp, (False, [], ""))
            mine = " ".join(([tag] if tag else []) + ["%04X" % x for x in m])
            if d != mine: bad.append(("dec", hex(cp), d, mine))
            # primary composite status: NFC(x) == x  <=>  not excluded/singleton/non-starter decomposition
            if m and not t:
                full_excl = cp in excl or len(m) == 1 or ccc.get(cp, 0) or ccc.get(m[0], 0)
                if (unicodedata.normalize("NFC", c) != c) != bool(full_excl): bad.append(("excl", hex(cp)))
    return n, bad
if __name__ == "__main__":
    n, bad = selftest()
    print(n, "codepoints compared;", len(bad), "differences", bad[:10])
    raise SystemExit(1 if bad else 0)
