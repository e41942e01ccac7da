#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   decide one property on /repo's current tree
check.py replay <file>              re-run one reported case alone
check.py setup                      reference-model self test (no /repo involved)

Each check compiles /repo's current sources with a closed driver from /verif/harness into
/verif/build/<ID>/, lets it explore its whole bounded space, and writes /verif/evidence/<ID>.json."""
import concurrent.futures as cf, glob, hashlib, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("U5E_REPO", "/repo")
BUILD = os.path.join(os.environ.get("U5E_BUILD", os.path.join(VERIF, "build")))
EVID = os.environ.get("U5E_EVIDENCE", os.path.join(VERIF, "evidence"))
JOBS = os.environ.get("U5E_JOBS", "8")
SEED = int(os.environ.get("VERIF_SEED", "1"))
H = os.path.join(VERIF, "harness")

STD = ["-std=c++1y", "-w", "-pthread", "-g1", "-ffunction-sections", "-I" + H]
FLAVOR = {
    "sched": ["g++", "-O1", "-DNDEBUG"],
    "fast": ["g++", "-O2", "-DNDEBUG"],
    "cost": ["g++", "-O1", "-DNDEBUG", "-fsanitize-coverage=trace-pc"],
    "asan": ["g++", "-O1", "-DNDEBUG", "-fsanitize=address,bounds,null,return,unreachable", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
RUNENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1024:hard_rss_limit_mb=3000:handle_segv=1:detect_stack_use_after_return=1",
          "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1", "LC_ALL": "C"}


class Internal(Exception):
    pass


class CompileError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "u5e", "**", "*.cpp"), recursive=True))
    if not s:
        raise Internal("no library sources under %s" % REPO)
    return s


def compile_one(flavor, src, obj, extra=(), base=None):
    cmd = (base or FLAVOR[flavor]) + STD + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(BUILD, "gen")] + list(extra) + ["-c", src, "-o", obj]
    r = sh(cmd)
    return r.returncode, r.stderr, cmd


def gen_tables():
    """ref/unicode9.txt -> ref_tables.inc"""
    d = os.path.join(BUILD, "gen"); os.makedirs(d, exist_ok=True)
    ex, ccc, dec, gcb = [], [], [], []
    names = ["Other", "Prepend", "CR", "LF", "Control", "Extend", "Regional_Indicator", "SpacingMark", "L", "V", "T", "LV", "LVT",
             "E_Base", "E_Modifier", "ZWJ", "Glue_After_Zwj", "E_Base_GAZ"]
    for l in open(os.path.join(VERIF, "ref", "unicode9.txt")):
        f = l.split()
        if not f or f[0] == "#": continue
        if f[0] == "X": ex.append(int(f[1], 16))
        elif f[0] == "G": gcb.append((int(f[1], 16), int(f[2], 16), names.index(f[3])))
        elif f[0] == "U":
            c = int(f[1], 16)
            if f[2] != "0": ccc.append((c, int(f[2])))
            m = f[3:]
            if m:
                k = 1 if m[0].startswith("<") else 0
                m = [int(x, 16) for x in m[k:]]
                assert len(m) <= 18
                dec.append((c, k, len(m), m))
    t = "static const Dec dec_rows[] = {\n%s};\n" % "".join("{0x%X,%d,%d,{%s}},\n" % (c, k, n, ",".join("0x%X" % x for x in m)) for c, k, n, m in dec)
    t += "static const CccRow ccc_rows[] = {\n%s};\n" % "".join("{0x%X,%d},\n" % x for x in ccc)
    t += "static const GcbRow gcb_rows[] = {\n%s};\n" % "".join("{0x%X,0x%X,%d},\n" % x for x in gcb)
    t += "static const int excl_rows[] = {%s};\n" % ",".join("0x%X" % x for x in ex)
    p = os.path.join(d, "ref_tables.inc")
    if not os.path.exists(p) or open(p).read() != t:
        with open(p + ".%d" % os.getpid(), "w") as f: f.write(t)
        os.replace(p + ".%d" % os.getpid(), p)


def build(pid, tag, flavor, harness, defs=(), extra_link=(), lib_extra=(), base=None):
    """compile the library and the harness; returns the executable"""
    gen_tables()
    d = os.path.join(BUILD, pid, tag)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    jobs = [(s, os.path.join(d, "lib%d.o" % i), lib_extra, True) for i, s in enumerate(lib_sources())]
    jobs += [(os.path.join(H, h), os.path.join(d, os.path.basename(h) + ".o"), [x if x[0] == "-" else "-D" + x for x in defs], False) for h in harness]
    if flavor == "sched":   # T01: the library and the operations are instrumented, the scheduler is not
        jobs = [(s, o, TSAN, l) for s, o, x, l in jobs if l] + [j for j in jobs if not j[3]] + [(os.path.join(H, "threads_ops.cpp"), os.path.join(d, "threads_ops.o"), TSAN, False)]
        extra_link = list(extra_link) + ["-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAP]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(flavor, j[0], j[1], j[2], base), jobs))
    for (rc, err, cmd), j in zip(res, jobs):
        if rc and j[3]: raise Internal("the library does not compile: %s\n%s" % (" ".join(cmd), err[-3000:]))
    for (rc, err, cmd), j in zip(res, jobs):
        if rc: raise CompileError("%s\n%s" % (" ".join(cmd), err[-6000:]))
    if "alloc.cpp" in harness: extra_link = list(extra_link) + ["-Wl,--wrap=" + w for w in ("malloc", "calloc", "realloc", "free")]
    if "cost.cpp" in harness: extra_link = list(extra_link) + ["-Wl,--wrap=" + w for w in ("memmove", "memcpy", "memset", "memcmp", "memchr", "wmemmove", "wmemcpy", "strlen")]
    exe = os.path.join(d, "run")
    r = sh((base or FLAVOR[flavor]) + ["-pthread", "-o", exe] + [j[1] for j in jobs] + list(extra_link))
    if r.returncode: raise CompileError("link: " + r.stderr[-3000:])
    return exe


def run(exe, tier, out, args=()):
    env = dict(os.environ, VERIF_TIER=tier, **RUNENV)
    if os.path.exists(out): os.unlink(out)
    p = subprocess.run([exe, "--jobs", JOBS, "--out", out] + list(args), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise Internal("%s ended with %d: %s" % (exe, p.returncode, p.stderr[-3000:]))
    return json.load(open(out)), p.stderr


# ------------------------------------------------------------------ properties
class Run:
    def __init__(self, harness, defs=(), flavor="fast", tiers=("quick", "thorough"), args=(), as_tier=None):
        self.harness = [harness] if isinstance(harness, str) else list(harness)
        self.defs, self.flavor, self.tiers, self.args, self.as_tier = list(defs), flavor, tiers, list(args), as_tier


def ASAN(harness, defs=(), tiers=("quick", "thorough")):
    """the quick bounds again, with every memory access checked"""
    return Run(harness, defs, "asan", tiers, as_tier="quick")


def VAST(p, d=None):
    """long texts"""
    return Run("vast.cpp", [d or "P_" + p])


PROPS = {}


def prop(pid, *runs, assume=(), states="", transitions="", custom=None):
    PROPS[pid] = dict(runs=runs, assume=list(assume), states=states, transitions=transitions, custom=custom)


REFA = "the reference model (harness/ref.hpp over ref/unicode9.txt) is right: setup compares it with Python's unicodedata"
BUILDA = "the library behaves as compiled by the installed g++ at -O2 (-O1 with address and undefined-behaviour sanitizers where stated)"
for p in ("G01", "D01", "D02", "D03"):
    prop(p, Run("props.cpp", ["P_" + p]), *([VAST(p)] if p == "D02" else []), assume=[REFA, BUILDA],
         states="a state is one argument (codepoint, pair or sequence of calls) given to the real lookup",
         transitions="a transition is one call whose result was compared with the reference model")

for p, st in (("U01", "a text converted to UTF-8"), ("U02", "a (text, starting octet, iterator kind: string, mutable, pointer, over scattered octets) from which a sequence of operations runs"),
              ("U04", "an octet buffer, on both sides of inaccessible memory"), ("U05", "a (text, previous buffer contents) pair written through the iterator")):
    prop(p, Run("utf8.cpp", ["P_" + p]), ASAN("utf8.cpp", ["P_" + p]), VAST(p), assume=[REFA, BUILDA], states="a state is " + st,
         transitions="a transition is one operation of the real code whose effect was compared with the model")

for p, st in (("G02", "a text, held in up to four storages"), ("G03", "a text; every native position of it is a starting point")):
    prop(p, Run("graph.cpp", ["P_" + p]), ASAN("graph.cpp", ["P_" + p]), VAST(p, "P_G0=" + p[2]), assume=[REFA, BUILDA], states="a state is " + st,
         transitions="a transition is one grapheme step or search of the real code compared with the model")

prop("U03", Run("text.cpp", ["P_U03"]), ASAN("text.cpp", ["P_U03"]), VAST("U03"), assume=[REFA, BUILDA], states="a state is a (text, surrounding memory) pair",
     transitions="a transition is one operation of the real code on the view, compared with the model of the text alone")
prop("S01", Run("text.cpp", ["P_S01"]), ASAN("text.cpp", ["P_S01"]), VAST("S01"), assume=[REFA, BUILDA], states="a state is a source text, or the pair of texts reached by a sequence of operations",
     transitions="a transition is one copy, assignment or append whose result was compared with the model")

for p, f in (("N01", "ref::NFD"), ("N02", "ref::NFC"), ("N03", "ref::NFKD"), ("N04", "ref::NFKC")):
    prop(p, Run("norm.cpp", ["FORM=" + f]), ASAN("norm.cpp", ["FORM=" + f]), VAST(p, "FORM=" + f), assume=[REFA, BUILDA], states="a state is a text",
         transitions="a transition is one normalization of a text by the real code, from one storage into one output, compared with the model")
for p, st in (("G04", "a (text, storage, sequence of operations on two grapheme iterators and a kept grapheme)"), ("U07", "a (text, kind of buffer, codepoint to start on, sequence of operations)")):
    prop(p, Run("cursors.cpp", ["P_" + p]), ASAN("cursors.cpp", ["P_" + p]), *([VAST(p)] if p == "U07" else []), assume=[REFA, BUILDA], states="a state is " + st,
         transitions="a transition is one operation or comparison of the real code whose result was compared with the model")
for p in ("N05", "N06", "N07"):
    prop(p, Run("norm.cpp", ["P_" + p]), ASAN("norm.cpp", ["P_" + p], ("thorough",) if p == "N05" else ("quick", "thorough")), VAST(p), assume=[REFA, BUILDA], states="a state is a text",
         transitions="a transition is one normalization of a text by the real code whose result was compared")

for p, f, st in (("U06", "anyoctets.cpp", "an octet buffer that the bounds check accepts, on both sides of inaccessible memory"), ("X01", "foreign.cpp", "a text with values that are no characters"), ("C01", "compose.cpp", "a text in canonical order")):
    prop(p, Run(f), ASAN(f), *([VAST(p)] if p in ("C01", "X01") else []), assume=[REFA, BUILDA], states="a state is " + st, transitions="a transition is one operation of the real code whose effect was compared with what the property says")

prop("F01", Run("filter.cpp"), VAST("F01"), assume=[BUILDA], states="a state is a (range, results, error position) given to the real filter",
     transitions="a transition is one call of the operation, or one return, compared with the expected log")

prop("H01", Run("history.cpp"), ASAN("history.cpp", tiers=("thorough",)), VAST("H01"), assume=[REFA, BUILDA], states="a state is a history of calls or operations",
     transitions="a transition is one call of the real code; the last of each history, and the state of every live object after each operation, was compared")

prop("A01", Run("alloc.cpp"), ASAN("alloc.cpp"), assume=[BUILDA, "memory is only obtained through operator new, malloc, calloc and realloc"],
     states="a state is an (operation, storages, text, previous output, set of denied allocations)",
     transitions="a transition is one run of the real operation with those allocations denied, compared with the run in which none is")

import programs
prop("S02", assume=["g++ in C++14 mode decides which programs are accepted"], states="a state is a client program",
     transitions="a transition is one compilation or one run of a program, compared with what the property says about it",
     custom=lambda pid, tier: programs.s02(globals()))

prop("I01", assume=["the initialisation order within one linked file is the order of the objects on the link line (GNU ld)"], states="a state is a program: an order of linking the library's objects with two clients",
     transitions="a transition is one use of every lookup, of segmentation and of all normalization forms in a constructor, in main, in an atexit handler or in a destructor, compared with the reference model",
     custom=lambda pid, tier: programs.i01(globals(), tier))

prop("I02", assume=["the installed g++ and clang++ in C++14 mode decide which programs are accepted"], states="a state is a program: which public headers its translation units include, and in what order",
     transitions="a transition is one compilation of a translation unit, or one linking and running of a program",
     custom=lambda pid, tier: programs.i02(globals(), tier))

prop("U08", Run("algorithms.cpp"), ASAN("algorithms.cpp"), VAST("U08"), assume=[REFA, BUILDA, "libstdc++'s algorithms stand for every conforming implementation"], states="a state is a text (and what is written to it)",
     transitions="a transition is one result of an algorithm over the real iterators compared with its result over the list of codepoints")

prop("E01", Run("examples.cpp"), ASAN("examples.cpp"), assume=[REFA, BUILDA], states="a state is the list of arguments given to the documented programs",
     transitions="a transition is one run of one documented program, whose output was compared with what it documents")
prop("E02", Run("plug.cpp"), ASAN("plug.cpp"), assume=[REFA, BUILDA], states="a state is a text held in one of seven storages of five encodings that are not the library's",
     transitions="a transition is a grapheme found, a position looked up or a grapheme normalized, compared with the reference model")
prop("W01", Run("cost.cpp", flavor="cost"), assume=[REFA, "the basic blocks entered, as g++ -O1 makes them, and the octets allocated stand for the work done"], states="a state is a text, a place in a text, a buffer or a codepoint",
     transitions="a transition is one operation of the real code whose cost was compared with its limit")
prop("V01", Run("value.cpp"), ASAN("value.cpp"), Run("value.cpp", ["-std=c++20"], as_tier="quick"), assume=[BUILDA], states="a state is an integer (or a block of 65536 successive ones), or a pair",
     transitions="a transition is one operation on codepoints whose result was compared with that on integers")

import builds
prop("P01", assume=["the installed g++ and clang++, libstdc++ and C library stand for the builds a user makes"], states="a state is a case (a text, octet buffer, codepoint or pair) in one build and one environment",
     transitions="a transition is the run of one case, whose result was compared with that of the same case in the first build",
     custom=lambda pid, tier: builds.p01(globals(), tier))

WRAP = ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",
        "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_once", "pthread_cond_wait", "malloc", "free", "calloc", "realloc", "qsort"]
TSAN = ["-fsanitize=thread", "-fno-builtin", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
prop("T01", Run("threads.cpp", flavor="sched"), assume=[BUILDA, "sequentially consistent memory (a program without data races has no other)",
     "every access of the library and of the templates it uses passes through the compiler's thread-sanitizer instrumentation or one of the wrapped C library functions"],
     states="a state is a program: the operations of two or three threads over the same texts", transitions="a transition is one complete schedule of the real code under the controlled scheduler")


def merge(results):
    r = dict(states=0, transitions=0, traces=0, nontrivial=0, cut=0, distinct=0, scopes=[], samples=[], known={})
    for tag, j in results:
        for a, b in (("states", "states"), ("transitions", "transitions"), ("traces", "traces"), ("nontrivial", "nontrivial"), ("cut", "cut"), ("distinct", "distinct_outcomes")):
            if a in ("states", "distinct") and tag.endswith("-asan"): r[a] = max(r[a], j.get(b, 0))   # the same states again, under the sanitizer
            else: r[a] += j.get(b, 0)
        for s in j["scopes"]:
            r["scopes"].append({"run": tag, "name": s["name"], "bound": s["bound"], "cases": s["cases"]})
            r["samples"] += s["samples"] if len(s["samples"]) > 2 else s["samples"][-1:]
        for k in j.get("known", []):
            r["known"][k["label"]] = r["known"].get(k["label"], 0) + k["hits"]
    return r


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k["property"] == pid and k["kind"] == "known"]


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f: json.dump(obj, f, indent=1); f.write("\n")
    os.replace(path + ".tmp", path)


def check(pid, tier):
    t0 = time.time()
    spec = PROPS[pid]
    viol = None; results = []
    try:
        if spec["custom"]:
            results, viol = spec["custom"](pid, tier)
        else:
            for i, r in enumerate(spec["runs"]):
                if tier not in r.tiers: continue
                tag = "%d-%s" % (i, r.flavor)
                exe = build(pid, tag, r.flavor, r.harness, r.defs)
                j, err = run(exe, r.as_tier or tier, os.path.join(BUILD, pid, tag + ".json"), r.args)
                results.append((tag, j))
                if j["violation"]:
                    viol = dict(run=i, tier=r.as_tier or tier, scope=j["violation"]["case"]["scope"], values=j["violation"]["case"]["v"], case=j["violation"]["case"]["text"], task=j["violation"].get("task"),
                                message=j["violation"]["message"], stderr=err[-3000:])
                    break
    except CompileError as e:
        viol = dict(run=None, tier=tier, message="a program that only uses the operations this property is about does not compile against the tree", stderr=str(e))
    m = merge(results)
    cov = dict(states=m["states"], transitions=m["transitions"], traces_validated_against_impl=m["traces"],
               distinct_outcomes=m["distinct"], nontrivial_cases=m["nontrivial"], exhaustive=viol is None and not m["cut"], cases_not_explored_to_full_bound=m["cut"],
               state_means=spec["states"], transition_means=spec["transitions"],
               bounds=m["scopes"], samples=m["samples"][:24])
    if m["known"]: cov["known_finding_hits"] = m["known"]
    ev = dict(property=pid, tier=tier, seed=SEED, level="model_checking", coverage=cov, assumptions=spec["assume"], wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if viol: ev["violation"] = viol
    write_json(os.path.join(EVID, pid + ".json"), ev)
    kf = known_findings(pid)
    for k in kf:
        if m["known"].get(k["label"], 0) > 0:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    unlisted = [l for l, n in m["known"].items() if n and l not in [k["label"] for k in kf]]
    if unlisted and not viol:
        viol = dict(run=None, tier=tier, message="fails in the way labelled %s, which known_findings.json does not list for this property" % ", ".join(unlisted))
        ev.update(violations=1, violation=viol); write_json(os.path.join(EVID, pid + ".json"), ev)
    if viol:
        rp = os.path.join(EVID, "replay-%s.json" % pid)
        write_json(rp, dict(property=pid, replay_cmd="python3 %s/check.py replay %s" % (VERIF, rp), **viol))
        print("%s: %s" % (pid, viol["message"]))
        if viol.get("case"): print("  case: %s" % viol["case"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s %s: held. states=%d transitions=%d cases=%d outcomes=%d wall=%.1fs" % (pid, tier, m["states"], m["transitions"], m["traces"], m["distinct"], time.time() - t0))
    return 0


def replay(path):
    v = json.load(open(path)); pid = v["property"]; spec = PROPS[pid]
    if v.get("run") is None or spec["custom"]:
        return check(pid, v.get("tier", "quick"))
    r = spec["runs"][v["run"]]
    exe = build(pid, "replay", r.flavor, r.harness, r.defs)
    p = subprocess.run([exe] + r.args + (["--task", str(v["task"])] if v.get("task") is not None else []) + ["--replay", v["scope"]] + [str(x) for x in v["values"]], env=dict(os.environ, VERIF_TIER=v["tier"], **RUNENV))
    if p.returncode == 1: print("VIOLATION property=%s replay=%s" % (pid, path))
    return p.returncode


def setup():
    gen_tables()
    r = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "refmodel.py")])
    if r.returncode: return 1
    d = os.path.join(BUILD, "setup"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "refcheck")
    c = sh(["g++", "-O2", "-std=c++1y", "-w", "-I" + H, "-I" + os.path.join(BUILD, "gen"), os.path.join(H, "refcheck.cpp"), "-o", exe])
    if c.returncode: print(c.stderr); return 1
    return subprocess.run([sys.executable, os.path.join(VERIF, "tools", "refcheck.py"), exe]).returncode


def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "setup": return setup()
    if a[0] == "replay": return replay(a[1])
    if a[0] == "list": print(" ".join(sorted(PROPS))); return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(a[0], tier)
    except Internal as e:
        print("internal error: %s" % e, file=sys.stderr); return 2
    except Exception:
        import traceback; traceback.print_exc(); return 2


if __name__ == "__main__":
    sys.exit(main())
