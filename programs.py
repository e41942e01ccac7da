"""S02: every client program of a small grammar is given to the compiler; which are accepted is compared with a table, and the
accepted ones are run.   I01: every order of linking the library with two client objects is linked and run."""
import concurrent.futures as cf, glob, itertools, os, shutil, subprocess

HEAD = "".join("#include <%s>\n" % h for h in
    ["string", "experimental/string_view", "iterator", "vector", "u5e/utf8_string.hpp", "u5e/utf8_string_view.hpp", "u5e/utf32ne_string.hpp", "u5e/utf32ne_string_view.hpp",
     "u5e/utf8_string_grapheme.hpp", "u5e/utf8_string_grapheme_iterator.hpp", "u5e/filter.hpp", "u5e/canonical_decomposition.hpp",
     "u5e/compatibility_and_canonical_decomposition.hpp", "u5e/normalization_form_c.hpp", "u5e/normalization_form_d.hpp", "u5e/normalization_form_kc.hpp", "u5e/normalization_form_kd.hpp"])

TEXT = [0x65, 0x301, 0xAC01, 0x10348]           # one codepoint of each UTF-8 length from 1 to 4, a grapheme of two codepoints
NF = {"d": [0x65, 0x301, 0x1100, 0x1161, 0x11A8, 0x10348], "kd": [0x65, 0x301, 0x1100, 0x1161, 0x11A8, 0x10348], "c": [0xE9, 0xAC01, 0x10348], "kc": [0xE9, 0xAC01, 0x10348]}
def enc(cps, wide): return list(cps) if wide else list("".join(map(chr, cps)).encode())
def lit(units): return "{" + ",".join("0x%X" % u for u in units) + "}"

# name: (encoding, unit, native type, wide, owning)
ST = {
    "string8": ("u5e::utf8", "char", "std::string", 0, 1), "view8": ("u5e::utf8", "char", "std::experimental::string_view", 0, 0),
    "string32": ("u5e::utf32ne", "int", "std::basic_string<int>", 1, 1), "view32": ("u5e::utf32ne", "int", "std::experimental::basic_string_view<int>", 1, 0),
    "u32string": ("u5e::utf32ne", "char32_t", "std::u32string", 1, 1), "vector-like view of wchar_t": ("u5e::utf32ne", "wchar_t", "std::experimental::wstring_view", 1, 0),
}
def typ(s): return "u5e::basic_encodedstring<%s, %s >" % (ST[s][0], ST[s][2])
def decl(s, var, cps):
    e, u, nat, wide, own = ST[s]
    return "static std::vector<%s> %s_v{%s}; %s %s(%s(%s_v.data(), %s_v.size()));" % (u, var, ",".join("(%s)0x%X" % (u, x) for x in enc(cps, wide)), typ(s), var, nat, var, var)
def want(s, var, cps):
    return "{ unsigned long w[] = %s; unsigned n = sizeof w / sizeof *w; if (%s.native_string.size() != n) return 10; for (unsigned i = 0; i < n; i++) if (((unsigned long)%s.native_string[i] & %s) != w[i]) return 11; }" % (
        lit(enc(cps, ST[s][3])), var, var, "0xFFFFFFFFul" if ST[s][3] else "0xFFul")


def programs():
    """(name, base statements, the operation, what must then hold, accepted? (None: may be rejected, but if accepted it must convert))"""
    out = []
    dst = [s for s in ST if ST[s][4]]
    for d, s in itertools.product(dst, ST):
        same = ST[d][0] == ST[s][0]; nat = ST[s][2]
        base = decl(d, "d", [0x70]) + decl(s, "s", TEXT)
        n = "%s <- %s" % (d, s)
        out.append((n + ": append codepoints", base, "d.append<%s >(s.codepoint_cbegin(), s.codepoint_cend());" % nat, want(d, "d", [0x70] + TEXT), same))
        out.append((n + ": append graphemes", base, "{ auto b = s.grapheme_begin(); auto e = s.grapheme_end(); d.append(b, e); }", want(d, "d", [0x70] + TEXT), same))
        out.append((n + ": append the first grapheme", base, "{ auto b = s.grapheme_begin(); auto e = b; ++e; d.append(b, e); }", want(d, "d", [0x70] + TEXT[:2]), same))
        if not same:
            out.append((n + ": append codepoints, deduced", base, "d.append(s.codepoint_cbegin(), s.codepoint_cend());", "", False))
            out.append((n + ": append codepoints as if of its own storage", base, "d.append<%s >(s.codepoint_cbegin(), s.codepoint_cend());" % ST[d][2], "", False))
            out.append((n + ": append mutable codepoint iterators", base, "d.append(s.codepoint_begin(), s.codepoint_end());", "", False))
            out.append((n + ": assign", base, "d = s;", "", False))
            out.append((n + ": construct", base, "%s x(s); (void)x;" % typ(d), "", False))
            out.append((n + ": construct from the native string", base, "%s x(s.native_string); (void)x;" % typ(d), "", False))
            out.append((n + ": assign the native string", base, "d = s.native_string;", "", False))
            out.append((n + ": append the graphemes of one to the other, as if of its own storage", base, "{ auto b = s.grapheme_begin(); auto e = s.grapheme_end(); d.append<%s >(b, e); }" % ST[d][2], "", False))
        elif d == s:
            out.append((n + ": append codepoints, deduced", base, "d.append(s.codepoint_cbegin(), s.codepoint_cend());", want(d, "d", [0x70] + TEXT), True))
            out.append((n + ": assign", base, "d = s;", want(d, "d", TEXT), True))
            out.append((n + ": construct", base, "%s x(s);" % typ(d), want(d, "x", TEXT), True))
        out.append((n + ": append converted from UTF-32", base, "d.append_from_utf32ne<%s >(s.codepoint_cbegin(), s.codepoint_cend());" % nat, want(d, "d", [0x70] + TEXT), bool(ST[s][3])))
        for f in ("d", "c", "kd", "kc"):
            out.append((n + ": normalization form " + f, base, "int k = 0; for (auto i = s.grapheme_begin(), e = s.grapheme_end(); i != e; ++i) k += u5e::normalization_form_%s(*i, d); if (k != %d) return 12;" % (f, len(NF[f])), want(d, "d", [0x70] + NF[f]), True))
    for d in dst:
        for f in ("canonical_decomposition", "compatibility_and_canonical_decomposition"):
            base = decl(d, "d", [0x70])
            out.append(("%s: %s of a codepoint" % (d, f), base, "int k = u5e::%s(u5e::codepoint(0xAC01), d); if (k != 3) return 12;" % f, want(d, "d", [0x70, 0x1100, 0x1161, 0x11A8]), bool(ST[d][3]) or None))
            base += decl("string32" if ST[d][3] else "string8", "s", TEXT)
            out.append(("%s: filter through %s" % (d, f), base, "int k = u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), d, u5e::%s<%s >); if (k != 6) return 12;" % (f, typ(d)), want(d, "d", [0x70] + NF["d"]), bool(ST[d][3]) or None))
    # storages whose unit is or is not that of the encoding
    units = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 0, "char16_t": 0, "int": 4, "unsigned": 4, "char32_t": 4, "wchar_t": 4, "long": 0, "float": 0, "double": 0, "long long": 0}
    for e, size in (("utf8", 1), ("utf32ne", 4)):
        for u, z in units.items():
            for kind in ("std::basic_string<%s>", "std::experimental::basic_string_view<%s>"):
                nat = kind % u; t = "u5e::basic_encodedstring<u5e::%s, %s >" % (e, nat); ok = z == size; first = TEXT
                base = "static std::vector<%s> v{%s};" % (u, ",".join("(%s)0x%X" % (u, x) for x in enc(first, size == 4))); data = nat + " x(v.data(), v.size());"
                walk = "int w[] = %s; int k = 0; for (auto i = s.codepoint_%s(), e = s.codepoint_%s(); i != e; ++i, ++k) if (k > 3 || (int)u5e::codepoint(*i) != w[k]) return 13; if (k != 4) return 14;"
                for name, op in (("read", walk % (lit(first), "cbegin", "cend")), ("read through the mutable iterator", walk % (lit(first), "begin", "end")),
                                 ("segment", "int k = 0; for (auto i = s.grapheme_begin(), e = s.grapheme_end(); i != e; ++i) ++k; if (k != 3) return 15;")):
                    out.append(("%s over %s: %s" % (e, nat, name), base + data, "%s s(x); %s" % (t, op), "", ok))
    return out


def s02(H):
    """H: check.py's module namespace"""
    d = os.path.join(H["BUILD"], "S02"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    inc = ["-I" + os.path.join(H["REPO"], "include")]; cc = ["g++", "-std=c++1y", "-O0", "-w"]
    libs = []
    for i, s in enumerate(H["lib_sources"]()):
        o = os.path.join(d, "lib%d.o" % i); libs.append((s, o))
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda x: H["sh"](cc + inc + ["-c", x[0], "-o", x[1]]), libs):
            if r.returncode: raise H["Internal"]("the library does not compile: " + r.stderr[-2000:])
    objs = [o for _, o in libs]; pch = os.path.join(d, "client.hpp")
    open(pch, "w").write(HEAD)
    if H["sh"](cc + inc + ["-x", "c++-header", pch]).returncode: raise H["CompileError"](H["sh"](cc + inc + ["-fsyntax-only", "-x", "c++", pch]).stderr[-3000:])
    ps = programs(); bases = {}
    def decide(k):
        name, base, op, post, ok = ps[k]
        f = os.path.join(d, "p%d.cpp" % k); exe = f[:-4]
        src = '#include "client.hpp"\nint main() {\n%s\n%s\n%s\nreturn 0;\n}\n'
        open(f, "w").write(src % (base, op, post if ok is not False else ""))
        if ok is None and H["sh"](cc + ["-I" + d] + inc + ["-fsyntax-only", f]).returncode: return k, None
        if ok is False:
            r = H["sh"](cc + ["-I" + d] + inc + ["-fsyntax-only", f])
            if r.returncode == 0: return k, "is accepted by the compiler, although it must be rejected"
            if " error: " not in r.stderr: raise H["Internal"]("compiler trouble: " + r.stderr[-2000:])
            return k, None
        r = H["sh"](cc + ["-I" + d] + inc + [f, "-o", exe] + objs)
        if r.returncode: return k, "is rejected by the compiler, although it must be accepted: " + "; ".join(l for l in r.stderr.splitlines() if "error" in l or "undefined" in l)[:500]
        try: q = subprocess.run([exe], timeout=60, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired: return k, "does not terminate"
        finally: os.unlink(exe)
        if q.returncode: return k, "is accepted but gives a wrong result (exit status %d)" % q.returncode
        return k, None
    def base_ok(b):   # a program is rejected because of its operation, not because of what surrounds it
        f = os.path.join(d, "base%d.cpp" % b[0]); open(f, "w").write('#include "client.hpp"\nint main() {\n%s\nreturn 0;\n}\n' % b[1])
        return b[1], H["sh"](cc + ["-I" + d] + inc + ["-fsyntax-only", f])
    viol = None; done = 0
    with cf.ThreadPoolExecutor(8) as ex:
        bs = sorted({p[1] for p in ps if not p[4]})
        for b, r in ex.map(base_ok, enumerate(bs)):
            if r.returncode and viol is None: viol = dict(run=None, message="a program that only declares texts is rejected: " + r.stderr[-600:], case=b)
        for k, bad in ex.map(decide, range(len(ps))):
            done += 1
            if bad and viol is None: viol = dict(run=None, message="the program '%s' %s" % (ps[k][0], bad), case=ps[k][1] + " " + ps[k][2])
    j = dict(states=len(ps), transitions=len(ps) + sum(bool(p[4]) for p in ps) + len(bs), traces=done, nontrivial=sum(not p[4] for p in ps), distinct_outcomes=2,
             scopes=[dict(name="programs", bound="all programs (operation, destination storage, source storage) over %d storages and 13 units in 2 encodings: %d to be accepted and run, %d to be rejected, %d to be rejected or else to convert, and the %d surroundings of the rejected ones" % (len(ST), sum(p[4] is True for p in ps), sum(p[4] is False for p in ps), sum(p[4] is None for p in ps), len(bs)),
                          cases=done, samples=[{"text": "%s: %s" % (p[0], "accepted" if p[4] else "rejected or converts" if p[4] is None else "rejected")} for p in ps[:: max(1, len(ps) // 8)]])])
    shutil.rmtree(d, ignore_errors=True)
    return [("compiler", j)], viol


def i01(H, tier):
    d = os.path.join(H["BUILD"], "I01"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    H["gen_tables"]()
    # the reference tables are only initialised when first used, so the client does not depend on the order either
    runs = [("fast", "0", 7), ("fast", "0", 1), ("fast", "0", 2), ("fast", "0", 4)] if tier == "thorough" else [("fast", "0", 7), ("fast", "0", 4)]
    viol = None; total = 0; scopes = []
    def stage(flavor, what, orders, label, mode="objects"):
        nonlocal viol, total
        if viol: return
        jobs = []
        for i, s in enumerate(H["lib_sources"]()): jobs.append((s, os.path.join(d, "%s-lib%d.o" % (flavor, i)), ["-fPIC"], True))
        for p in (0, 1): jobs.append((os.path.join(H["H"], "startup.cpp"), os.path.join(d, "%s-client%d-%d.o" % (flavor, p, what)), ["-DPART=%d" % p, "-DWHAT=%d" % what], False))
        todo = [j for j in jobs if not os.path.exists(j[1])]
        with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: H["compile_one"](flavor, j[0], j[1], j[2]), todo))
        for (rc, err, cmd), j in zip(res, todo):
            if rc: raise (H["Internal"] if j[3] else H["CompileError"])("%s\n%s" % (" ".join(cmd), err[-3000:]))
        lib = [j[1] for j in jobs if j[3]]; cl = [j[1] for j in jobs if not j[3]]; objs = lib + cl; names = ["/".join(s.split("/")[-2:]) for s in H["lib_sources"]()] + ["client 0", "client 1"]
        base = H["FLAVOR"][flavor] + ["-pthread"]
        extra = []
        if mode == "archive":
            a = os.path.join(d, flavor + ".a"); subprocess.run(["ar", "rcs", a] + lib, check=True)
        if mode == "shared":
            so = os.path.join(d, "libu5e_i01.so"); r = H["sh"](base + ["-shared", "-o", so] + lib)
            if r.returncode: raise H["Internal"](r.stderr[-2000:])
        def one(k_order):
            k, order = k_order; exe = os.path.join(d, "run-%s-%d-%d" % (flavor, what, k))
            if mode == "objects": line = [objs[i] for i in order]
            elif mode == "archive": line = [cl[i] for i in order] + [a]
            else: line = [cl[i] for i in order] + [so, "-Wl,-rpath," + d]
            r = H["sh"](base + ["-o", exe] + line)
            if r.returncode: raise H["CompileError"]("link: " + r.stderr[-2000:])
            try:
                q = subprocess.run([exe], timeout=120, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, **H["RUNENV"]))
                rc, err = q.returncode, q.stderr
            except subprocess.TimeoutExpired: rc, err = -1, "does not terminate"
            finally: os.unlink(exe)
            return order, rc, err
        n = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for order, rc, err in ex.map(one, enumerate(orders)):
                n += 1
                if rc and viol is None:
                    desc = ", ".join(names[i] if mode == "objects" else "client %d" % i for i in order)
                    first = [l for l in err.splitlines() if l.startswith("FAIL") or "ERROR: AddressSanitizer" in l]
                    viol = dict(run=None, message="linked in the order (%s)%s: %s" % (desc, "" if mode == "objects" else ", library as " + mode, first[0] if first else "ends with status %d: %s" % (rc, err[-300:])), case=desc)
        total += n; scopes.append(dict(name="%s-%s-%d" % (flavor, mode, what), bound=label, cases=n, samples=[{"text": "order " + " ".join(map(str, orders[0]))}, {"text": "order " + " ".join(map(str, orders[-1]))}]))
    n = len(H["lib_sources"]()) + 2; cl = [n - 2, n - 1]
    if n <= 7: full = list(itertools.permutations(range(n)))
    else:   # every choice of what comes before the first client, between and after, in two orders
        full = []
        for place in itertools.product(range(3), repeat=n - 2):
            for rev in (1, -1):
                g = [[i for i in range(n - 2) if place[i] == q][::rev] for q in range(3)]
                full.append(g[0] + [cl[0]] + g[1] + [cl[1]] + g[2])
    few = [list(range(n)), list(range(n))[::-1], cl + list(range(n - 2)), list(range(n - 2)) + cl, [cl[0]] + list(range(n - 2)) + [cl[1]], [cl[1]] + list(range(n - 2))[::-1] + [cl[0]]]
    lab = "all %d orders of the %d objects" % (len(full), n) if len(full) != 2 * 3 ** (n - 2) else "every distribution of the %d library objects before, between and after the two clients, in two orders: %d" % (n - 2, len(full))
    for k, (f, _, w) in enumerate(runs): stage(f, w, full if k == 0 or tier == "thorough" and k < 2 else few, lab if k == 0 or tier == "thorough" and k < 2 else "6 orders, destructors that use part of the library only (bits %d)" % w)
    for w in (7, 1, 4): stage("asan", w, few, "6 orders, every memory access checked (bits %d)" % w)
    for m in ("archive", "shared"): stage("fast", 7, [[0, 1], [1, 0]], "library as %s, both orders of the clients" % m, m)
    if tier == "thorough":
        for m in ("archive", "shared"): stage("fast", 1, [[0, 1], [1, 0]], "library as %s, both orders of the clients (bits 1)" % m, m)
    j = dict(states=total, transitions=total * 9, traces=total, nontrivial=total, distinct_outcomes=len(scopes), scopes=scopes)
    shutil.rmtree(d, ignore_errors=True)
    return [("link orders", j)], viol


# ---------------------------------------------------------------- I02
# public header: what a client that includes nothing else can do with it (false: wrong result)
NFX = """template <class In, class Out> static bool NAME(const In& units, unsigned n, const Out& want, int count) { u5e::basic_encodedstring<u5e::utf32ne, std::basic_string<int> > in(units), out; int k = 0;
 for (auto i = in.grapheme_begin(), e = in.grapheme_end(); i != e; ++i) k += u5e::normalization_form_%s(*i, out); return k == count && out.native_string == want; }
static bool USE() { typedef std::basic_string<int> S; return NAME(S{0xE9, 0x1100, 0x1161, 0xFB01, 0x323, 0x301}, 6, S{%s}, %d); }"""
def nfx(form, *want): return NFX % (form, ",".join(hex(x) for x in want), len(want))
STR8 = 'static bool USE() { %s s("e\\xCC\\x81\\xF0\\x90\\x8D\\x88"); int n = 0, g = 0; for (auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); i != e; ++i) n++; for (auto i = s.grapheme_begin(), e = s.grapheme_end(); i != e; ++i) g++; return n == 3 && g == 2; }'
STR32 = 'static const int NAME[] = {0x65, 0x301, 0x10348}; static bool USE() { %s s(%s(NAME, 3)); int n = 0, g = 0; for (auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); i != e; ++i) n++; for (auto i = s.grapheme_begin(), e = s.grapheme_end(); i != e; ++i) g++; return n == 3 && g == 2; }'
GR = 'static bool USE() { %s s(%s); %s first = *s.grapheme_begin(); int n = 0; for (auto i = first.codepoint_begin(), e = first.codepoint_end(); i != e; ++i) n++; return n == 2; }'
GI = 'static bool USE() { %s s(%s); int n = 0; for (%s i(s.codepoint_cbegin(), s.codepoint_cend()), e = s.grapheme_end(); i != e; i++) n++; return n == 2; }'
T8 = '"e\\xCC\\x81\\xF0\\x90\\x8D\\x88"'; S32 = "std::basic_string<int>"; V32 = "std::experimental::basic_string_view<int>"; ARR = "static const int NAME[] = {0x65, 0x301, 0x10348}; "
# what else such a client needs, included after the header
ALSO = {h: ["u5e/utf32ne_string.hpp"] for h in ("basic_grapheme.hpp", "basic_grapheme_iterator.hpp", "canonical_composition.hpp", "canonical_decomposition.hpp", "compatibility_and_canonical_decomposition.hpp", "codepoint_decomposition.hpp")}
ALSO["utf8.hpp"] = ALSO["utf32ne.hpp"] = ["string"]
HEADERS = {
    "basic_encodedstring.hpp": "static bool USE() { u5e::basic_encodedstring<u5e::utf32ne, %s > s(%s(3, 0x61)), t; t.append(s.codepoint_cbegin(), s.codepoint_cend()); t = s; return t.native_string == s.native_string; }" % (S32, S32),
    "basic_grapheme.hpp": "static bool USE() { %s v(2, 1); u5e::utf32ne_string s(v); u5e::basic_grapheme<u5e::utf32ne_string> g(s.codepoint_cbegin(), s.codepoint_cend()); return g.codepoint_end() - g.codepoint_begin() == 2; }" % S32,
    "basic_grapheme_iterator.hpp": "static bool USE() { u5e::utf32ne_string s(%s{0x61, 0x301, 0x62}); int n = 0; for (u5e::basic_grapheme_iterator<u5e::utf32ne_string> i(s.codepoint_cbegin(), s.codepoint_cend()); i != s.codepoint_cend(); ++i) n++; return n == 2; }" % S32,
    "canonical_combining_order.hpp": "static bool USE() { int v[3] = {0x61, 0x301, 0x323}; u5e::canonical_combining_reorder(v, v + 3); return v[1] == 0x323 && v[2] == 0x301 && u5e::canonical_combining_order(0x323, 0x301); }",
    "canonical_composition.hpp": "static bool USE() { u5e::utf32ne_string x(%s{0x65, 0x301}); int n = 0; return u5e::canonical_composition(x, &n) == x.codepoint_begin() + 1 && n == 1 && x.native_string[0] == 0xE9; }" % S32,
    "canonical_decomposition.hpp": "static bool USE() { u5e::utf32ne_string o; return u5e::canonical_decomposition(u5e::codepoint(0xE9), o) == 2 && o.native_string.size() == 2 && o.native_string[1] == 0x301; }",
    "codepoint.hpp": "static bool USE() { u5e::codepoint a(0x61), b; b = a; b = 0x62; return a == 0x61 && b == u5e::codepoint(0x62) && 0x61 == a && int(a) == 0x61; }",
    "codepoint_decomposition.hpp": "static bool USE() { u5e::utf32ne_string o; return u5e::codepoint_decomposition(u5e::codepoint(0xAC01), o, u5e::props::compatibility_and_canonical_decomposition_mapping::resolve) == 3 && o.native_string.size() == 3 && o.native_string[1] == 0x1161; }",
    "codepoint_traits.hpp": "static bool USE() { u5e::codepoint_traits::int_type i = -1; u5e::codepoint_traits::pos_type p = 0; u5e::codepoint_traits::off_type o = i; return sizeof i == 4 && sizeof p == 4 && o < 0; }",
    "compatibility_and_canonical_decomposition.hpp": "static bool USE() { u5e::utf32ne_string o; return u5e::compatibility_and_canonical_decomposition(u5e::codepoint(0xFB01), o) == 2 && o.native_string.size() == 2 && o.native_string[1] == 0x69; }",
    "filter.hpp": "static int NAME(int x, int& sum) { sum += x; return 1; } static bool USE() { int v[3] = {1, 2, 4}, sum = 0; return u5e::filter(v, v + 3, sum, NAME) == 3 && sum == 7; }",
    "normalization_form_c.hpp": nfx("c", 0xE9, 0x1100, 0x1161, 0xFB01, 0x323, 0x301).replace("0x1100,0x1161", "0xac00").replace(", 6)", ", 5)"),
    "normalization_form_d.hpp": nfx("d", 0x65, 0x301, 0x1100, 0x1161, 0xFB01, 0x323, 0x301),
    "normalization_form_kc.hpp": nfx("kc", 0xE9, 0xAC00, 0x66, 0x1ECB, 0x301),
    "normalization_form_kd.hpp": nfx("kd", 0x65, 0x301, 0x1100, 0x1161, 0x66, 0x69, 0x323, 0x301),
    "props/canonical_combining_class.hpp": "static bool USE() { return u5e::props::canonical_combining_class::resolve(0x301) == 230; }",
    "props/canonical_composition_mapping.hpp": "static bool USE() { int c = 0; return u5e::props::canonical_composition_mapping::resolve(0x65, 0x301, &c) && c == 0xE9; }",
    "props/canonical_decomposition_mapping.hpp": "static bool USE() { int const* m = u5e::props::canonical_decomposition_mapping::resolve(0xE9); return m && m[0] == 0x65 && m[1] == 0x301 && m[2] == 0; }",
    "props/compatibility_and_canonical_decomposition_mapping.hpp": "static bool USE() { int const* m = u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(0xFB01); return m && m[0] == 0x66 && m[1] == 0x69 && m[2] == 0; }",
    "props/grapheme_cluster_break.hpp": "static bool USE() { return u5e::props::grapheme_cluster_break::resolve(u5e::codepoint(0x301)) == u5e::props::grapheme_cluster_break::EXTEND; }",
    "utf32ne.hpp": "static bool USE() { %s v(1, 1); u5e::utf32ne::const_iterator<%s > i = v.cbegin(); return u5e::utf32ne::native_const_iterator<%s >(i) == v.cbegin(); }" % (S32, S32, S32),
    "utf32ne_string.hpp": STR32 % ("u5e::utf32ne_string", S32),
    "utf32ne_string_grapheme.hpp": ARR + GR % ("u5e::utf32ne_string", S32 + "(NAME, 3)", "u5e::utf32ne_string_grapheme"),
    "utf32ne_string_grapheme_iterator.hpp": ARR + GI % ("u5e::utf32ne_string", S32 + "(NAME, 3)", "u5e::utf32ne_string_grapheme_iterator"),
    "utf32ne_string_view.hpp": STR32 % ("u5e::utf32ne_string_view", V32),
    "utf32ne_string_view_grapheme.hpp": ARR + GR % ("u5e::utf32ne_string_view", V32 + "(NAME, 3)", "u5e::utf32ne_string_view_grapheme"),
    "utf32ne_string_view_grapheme_iterator.hpp": ARR + GI % ("u5e::utf32ne_string_view", V32 + "(NAME, 3)", "u5e::utf32ne_string_view_grapheme_iterator"),
    "utf8.hpp": "static bool USE() { int v[2] = {0x61, 0xE9}; std::string o; u5e::utf8::append_from_utf32ne(v, v + 2, o); return o == \"a\\xC3\\xA9\"; }",
    "utf8_bounds.hpp": "static bool USE() { char b[3] = {'a', 'b', '\\xC3'}; bool c = u5e::utf8_bounds<char*>::check(b, b + 3), e = u5e::utf8_bounds<char*>::enforce(b, b + 3); return !c && !e && b[2] == '?'; }",
    "utf8_iterator.hpp": "static bool USE() { char b[4] = {0}; u5e::utf8_iterator<char*> i(b); *i = u5e::codepoint(0xE9); ++i; u5e::utf8_const_iterator<const char*> c(b); int v = *c; return v == 0xE9 && !(u5e::utf8_const_iterator<const char*>(b + 2) == c); }",
    "utf8_string.hpp": STR8 % "u5e::utf8_string",
    "utf8_string_grapheme.hpp": GR % ("u5e::utf8_string", T8, "u5e::utf8_string_grapheme"),
    "utf8_string_grapheme_iterator.hpp": GI % ("u5e::utf8_string", T8, "u5e::utf8_string_grapheme_iterator"),
    "utf8_string_view.hpp": STR8 % "u5e::utf8_string_view",
    "utf8_string_view_grapheme.hpp": GR % ("u5e::utf8_string_view", T8, "u5e::utf8_string_view_grapheme"),
    "utf8_string_view_grapheme_iterator.hpp": GI % ("u5e::utf8_string_view", T8, "u5e::utf8_string_view_grapheme_iterator"),
    "utf8_util.hpp": "static bool USE() { return u5e::utf8_util::is_codepoint_start('\\xC3') && u5e::utf8_util::codepoint_size('\\xE2') == 3; }",
    "version.hpp": "static bool USE() { return u5e::version::compile_time::major == u5e::version::run_time::major; }",
}


def use(h, k): return HEADERS[h].replace("NAME", "name_%d" % k).replace("USE", "use_%d" % k)


def i02(H, tier):
    d = os.path.join(H["BUILD"], "I02"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    inc = ["-I" + os.path.join(H["REPO"], "include")]; hs = sorted(HEADERS); viol = None; total = 0; scopes = []
    gxx = ["g++", "-std=c++1y", "-O0", "-w"]; clang = ["clang++", "-std=c++1y", "-O0", "-w"]
    def first_error(r): return "; ".join(l for l in r.stderr.splitlines() if "error" in l or "multiple definition" in l or "undefined" in l)[:600]
    def tu(name, order, cc, syntax, fn="run"):
        f = os.path.join(d, name + ".cpp")
        seen = sorted(set(order))
        # a header is included a second time at the end: that must change nothing
        src = "".join("#include <u5e/%s>\n" % hs[i] for i in order) + "#include <u5e/%s>\n" % hs[order[0]] + "".join("#include <%s>\n" % x for i in seen for x in ALSO.get(hs[i], ())) + "".join(use(hs[i], i) + "\n" for i in seen)
        src += "int %s() { %s return 0; }\n" % (fn, " ".join("if (!use_%d()) return %d;" % (i, i + 1) for i in seen))
        open(f, "w").write(src)
        r = H["sh"](cc + inc + (["-S", "-o", os.devnull] if syntax else ["-c", "-o", f[:-4] + ".o"]) + [f])
        if syntax: os.unlink(f)
        return r
    def batch(label, bound, jobs):
        """jobs: (text, callable returning None or what is wrong)"""
        nonlocal viol, total
        if viol: return
        n = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for (text, _), bad in zip(jobs, ex.map(lambda j: None if viol else j[1](), jobs)):
                n += 1
                if bad and viol is None: viol = dict(run=None, message=text + ": " + bad, case=text)
        total += n; scopes.append(dict(name=label, bound=bound % n, cases=n, samples=[dict(text=jobs[0][0]), dict(text=jobs[-1][0])]))
    def comp(name, order, cc, syntax, fn="run"):
        def f():
            r = tu(name, order, cc, syntax, fn)
            return "is rejected by %s: %s" % (cc[0], first_error(r)) if r.returncode else None
        return f
    libs = []
    for i, s in enumerate(H["lib_sources"]()): libs.append((s, os.path.join(d, "lib%d.o" % i)))
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda x: H["sh"](gxx + inc + ["-c", x[0], "-o", x[1]]), libs):
            if r.returncode: raise H["Internal"]("the library does not compile: " + r.stderr[-2000:])
    n = len(hs); R = range(n)
    batch("one header", "every public header as the only one of a translation unit, included twice and used, twice over for linking: %d", [("a translation unit that includes only %s" % hs[i], comp("one%d_%d" % (i, k), [i], gxx, False, "run_%d_%d" % (i, k))) for i in R for k in (0, 1)])
    batch("one header, clang", "the same with clang++: %d", [("a translation unit that includes only %s" % hs[i], comp("c%d" % i, [i], clang, True)) for i in R])
    allo = {"all": list(R), "rev": list(R)[::-1]}
    batch("all headers", "all public headers in one translation unit, in both orders, with two compilers: %d", [("a translation unit that includes every header (%s)" % k, comp(k, o, gxx, False, "run_" + k)) for k, o in allo.items()] + [("a translation unit that includes every header (%s)" % k, comp("c" + k, o, clang, True)) for k, o in allo.items()])
    def link(names, exe, shared=None):
        def f():
            m = os.path.join(d, exe + "_main.cpp")
            open(m, "w").write("".join("int run_%s();\n" % k for k in names) + "#include <cstdio>\nint main() { int r; %s return 0; }\n" % " ".join('if ((r = run_%s())) { printf("%%s gives a wrong result (%%d)", "%s", r); return 1; }' % (k, k) for k in names))
            objs = [os.path.join(d, ("one" + k if k[0].isdigit() else k) + ".o") for k in names]
            r = H["sh"](gxx + inc + ["-o", os.path.join(d, exe), m] + objs + [o for _, o in libs])
            if r.returncode: return "does not link: " + first_error(r)
            try: q = subprocess.run([os.path.join(d, exe)], timeout=60, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            except subprocess.TimeoutExpired: return "does not terminate"
            return "ends with %d: %s" % (q.returncode, q.stdout) if q.returncode else None
        return f
    ones = ["%d_%d" % (i, k) for i in R for k in (0, 1)]
    L = [("a program of one translation unit per header, twice", link(ones, "lall")), ("a program of one translation unit per header and two with all headers", link(ones + ["all", "rev"], "lall2")), ("a program of two translation units with all headers", link(["rev", "all"], "l2"))]
    L += [("a program of two translation units that include only %s" % hs[i], link(["%d_0" % i, "%d_1" % i], "lp%d" % i)) for i in R]
    batch("linked", "programs of several translation units, linked and run: every header in two of them, all headers in all: %d", L)
    pairs = [(a, b) for a in R for b in R if a != b]
    batch("pairs", "every ordered pair of public headers in one translation unit, both used: %d", [("a translation unit that includes %s and then %s" % (hs[a], hs[b]), comp("p%d_%d" % (a, b), [a, b], gxx, True)) for a, b in pairs])
    if tier == "thorough":
        batch("pairs, clang", "every ordered pair of public headers, clang++: %d", [("a translation unit that includes %s and then %s" % (hs[a], hs[b]), comp("q%d_%d" % (a, b), [a, b], clang, True)) for a, b in pairs])
        batch("rotations", "all public headers in one translation unit, starting with each of them, in both directions: %d", [("a translation unit that includes every header starting with %s%s" % (hs[i], " backwards" if r else ""), comp("t%d_%d" % (i, r), ([(i - k) % n for k in R] if r else [(i + k) % n for k in R]), gxx, True)) for i in R for r in (0, 1)])
        batch("linked pairs", "two translation units of one header each, linked and run, every pair of headers: %d", [("a program of two translation units that include only %s and only %s" % (hs[a], hs[b]), link(["%d_0" % a, "%d_1" % b], "lq%d_%d" % (a, b))) for a, b in pairs if a < b])
    j = dict(states=total, transitions=total, traces=total, nontrivial=total, distinct_outcomes=len(scopes), scopes=scopes)
    shutil.rmtree(d, ignore_errors=True)
    return [("programs", j)], viol
