"""P01: the same closed set of uses of the library (harness/builds.cpp), compiled in every way of a product of compilers and options and
run in every environment of a product of environments; the result of every case must be the same in all."""
import array, concurrent.futures as cf, itertools, os, shutil, signal, subprocess

BASE = ("g++", ("-std=c++1y", "-O2", "-DNDEBUG"))


def configurations(tier):
    """(label, (compiler, options) of the library, (compiler, options) of the client)"""
    r = []
    def add(cc, *o): r.append((cc, tuple(o)))
    deep = tier == "thorough"
    for cc in ("g++", "clang++"):
        for o, ch, std in itertools.product(("-O0", "-O1", "-O2", "-O3", "-Os"), ("-fsigned-char", "-funsigned-char"), ("-std=c++14", "-std=c++17", "-std=c++20")): add(cc, std, o, ch)
        for m, o, ch, std in itertools.product(("-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_USE_CXX11_ABI=0"), ("-O0", "-O1", "-O2", "-O3", "-Os") if deep else ("-O0", "-O2"), ("-fsigned-char", "-funsigned-char"), ("-std=c++14", "-std=c++17", "-std=c++20") if deep else ("-std=c++14",)): add(cc, std, o, ch, m)
        for x, o in itertools.product(("-DNDEBUG", "-fPIC", "-fno-inline", "-fno-strict-aliasing", "-fwrapv", "-fstack-protector-all", "-fvisibility=hidden", "-D_FORTIFY_SOURCE=2",
                                         "-fno-rtti", "-march=native", "-ffast-math", "-fshort-enums", "-ftrivial-auto-var-init=pattern", "-fsanitize=address", "-fsanitize=undefined") + (("-flto", "-funroll-all-loops") if cc == "g++" else ("-mllvm=-inline-threshold=2000",)), ("-O1", "-O2", "-O3") if deep else ("-O2",)): add(cc, "-std=c++14", o, x)
    out = [("%s %s" % (cc, " ".join(o)), (cc, o), (cc, o)) for cc, o in r]
    side = [("g++", ("-std=c++14", "-O0")), ("g++", ("-std=c++17", "-O3", "-funsigned-char")), ("clang++", ("-std=c++14", "-O2", "-funsigned-char")), ("clang++", ("-std=c++20", "-O0"))]
    out += [("library %s %s, client %s %s" % (a[0], " ".join(a[1]), b[0], " ".join(b[1])), a, b) for a in side for b in side if a != b]
    return out


AROUND = ["no more than the usual", "LANG, LC_ALL, LC_CTYPE and LANGUAGE set to Turkish", "no environment variables", "LANG and LC_ALL set to Japanese, TZ, POSIXLY_CORRECT and TERM to something odd, run in /", "standard input, output and error closed",
          "a stack of 512 kB", "no address space randomization", "one processor, low priority", "four file descriptors", "output to a full device", "signals ignored", "in a deep and narrow directory name in UTF-8"]


def around(k, ev, cwd):
    """(environment variables, directory, what the child does before it starts) for AROUND[k]"""
    import resource
    keep = {x: ev[x] for x in ("MALLOC_PERTURB_", "P01_DEEP") if x in ev}
    if k == 1: ev = dict(ev, LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", LC_CTYPE="tr_TR.UTF-8", LANGUAGE="tr")
    if k == 2: ev = keep
    if k == 3: ev = dict(keep, LANG="ja_JP.SJIS", LC_ALL="ja_JP.SJIS", TZ="Asia/Kathmandu", POSIXLY_CORRECT="1", TERM="dumb"); cwd = "/"
    def child():
        if k == 4: [os.close(f) for f in (0, 1, 2)]
        if k == 5: resource.setrlimit(resource.RLIMIT_STACK, (512 << 10, 512 << 10))
        if k == 6:
            import ctypes; ctypes.CDLL(None).personality(0x0040000)
        if k == 7: os.sched_setaffinity(0, {min(os.sched_getaffinity(0))}); os.nice(5)
        if k == 8: resource.setrlimit(resource.RLIMIT_NOFILE, (4, 4))
        if k == 9: f = os.open("/dev/full", os.O_WRONLY); os.dup2(f, 1); os.close(f)
        if k == 10: [signal.signal(x, signal.SIG_IGN) for x in (signal.SIGHUP, signal.SIGINT, signal.SIGPIPE, signal.SIGUSR1, signal.SIGALRM)]
    if k == 11: cwd = (cwd + "/" + "\u0301\U0001F1E6\u65e5\u672c " * 8).encode(); os.makedirs(cwd, exist_ok=True)
    return ev, cwd, child


def environments(tier):
    """(rounding mode, locale, what the stack holds, alignment, what new memory holds[, which of AROUND])"""
    e = [(0, "C", 0, 0, 0, k) for k in range(1, len(AROUND))] + [(r, l, f, 0, m) for r in range(4) for l in ("C", "C.UTF-8") for f in (0, 255) for m in (0, 255)] + [(0, "C", 0, a, 0) for a in range(1, 16)]
    if tier == "thorough": e = e[:len(AROUND) - 1] + [(r, l, f, a, m) for r in range(4) for l in ("C", "C.UTF-8") for f in (0, 0x61, 255) for a in range(0, 16, 3) for m in (0, 0x80, 255)]
    return e


def p01(H, tier):
    d = os.path.join(H["BUILD"], "P01"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    src = H["lib_sources"](); inc = ["-I" + os.path.join(H["REPO"], "include"), "-w", "-pthread"]
    roomy = set()
    def comp(side, files, where):
        objs = []
        for i, s in enumerate(files):
            o = os.path.join(where, "%d.o" % i); r = H["sh"]([side[0]] + list(side[1]) + inc + ["-c", s, "-o", o])
            if r.returncode: return None, "; ".join(l for l in r.stderr.splitlines() if "error" in l)[:600]
            objs.append(o)
        return objs, ""
    def build(name, lib, cli):
        """None, or what is wrong"""
        w = os.path.join(d, name); os.makedirs(os.path.join(w, "l")); os.makedirs(os.path.join(w, "c"))
        a, e = comp(lib, src, os.path.join(w, "l"))
        if a is None: return "the library does not compile: " + e
        b, e = comp(cli, [os.path.join(H["H"], "builds.cpp")], os.path.join(w, "c"))
        if b is None: return "a client does not compile: " + e
        r = H["sh"]([cli[0]] + list(cli[1]) + ["-o", os.path.join(w, "run")] + b + a)
        return "it does not link: " + r.stderr[-600:] if r.returncode else None
    def run(name, env, tag):
        """(trace, None) or (None, what is wrong)"""
        w = os.path.join(d, name); t = os.path.join(w, tag)
        ev = dict(os.environ, LC_ALL="C", MALLOC_PERTURB_=str(env[4])); ev.pop("P01_DEEP", None)
        if tier == "thorough": ev["P01_DEEP"] = "1"
        ev, cwd, child = around(env[5] if len(env) > 5 else 0, ev, w)
        def lim():
            try: child()
            except OSError: pass
            import resource; resource.setrlimit(resource.RLIMIT_CPU, (120, 130)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); None if name in roomy else resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        p = subprocess.run([os.path.join(w, "run"), t, str(env[0]), env[1], str(env[2]), str(env[3])], env=ev, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=lim)
        a = array.array("Q")
        try:
            with open(t, "rb") as f: a.frombytes(f.read(8)); a.frombytes(f.read(8 * a[0]))
            os.unlink(t)
        except (OSError, IndexError, ValueError): return None, None, "it ends with %d" % p.returncode
        if p.returncode: return None, a[0], "it %s%s" % ("does not end" if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL) else "ends with %d" % p.returncode, ": " + p.stderr.strip().splitlines()[0][:300] if p.stderr.strip() else "")
        return a[1:1 + a[0]], a[0], None
    def show(n):
        return H["sh"]([os.path.join(d, "base", "run"), "--show", str(n)], env=dict(os.environ, **({"P01_DEEP": "1"} if tier == "thorough" else {}))).stdout.strip()
    viol = None; ran = 0; cases = 0; hashes = set(); scopes = []
    e = build("base", BASE, BASE)
    if e: raise (H["Internal"] if e.startswith("the library") else H["CompileError"])(e)
    ref, n, e = run("base", (0, "C", 0, 0, 0), "t")
    def bad(what, env, got, n, e):
        where = "%s, environment (rounding mode %d, locale %s, stack filled with %d, text aligned to 16 + %d, new memory filled with %d, %s)" % ((what,) + tuple(env[:5]) + (AROUND[env[5] if len(env) > 5 else 0],))
        if e: return dict(run=None, message="%s: %s, at %s" % (where, e, show(n) if n is not None else "the start"), case=what)
        if len(got) != len(ref): return dict(run=None, message="%s: %d results instead of %d" % (where, len(got), len(ref)), case=what)
        for i in range(len(ref)):
            if got[i] != ref[i]: return dict(run=None, message="%s: another result than in the first build (g++ -std=c++1y -O2) for %s" % (where, show(i)), case=show(i))
    if e: viol = bad("g++ -std=c++1y -O2", (0, "C", 0, 0, 0), None, n, e)
    if not viol:
        ran += 1; envs = environments(tier); hashes = set(ref)
        with cf.ThreadPoolExecutor(8) as ex:
            for env, (got, n, e) in zip(envs, ex.map(lambda x: run("base", x[1], "e%d" % x[0]), list(enumerate(envs)))):
                if e or got != ref: viol = viol or bad("g++ -std=c++1y -O2", env, got, n, e)
                else: ran += 1
        scopes.append(dict(name="environments", bound="one build in every environment of: rounding mode, locale, what the stack and new memory held before, alignment of texts, and in each of %d surroundings (variables, directory, descriptors, limits, signals): %d environments x %d cases" % (len(AROUND), len(envs), len(ref)), cases=len(envs) * len(ref), samples=[dict(text=show(len(ref) // 2))]))
    if not viol:
        confs = configurations(tier)
        def one(x):
            i, (label, lib, cli) = x
            if viol: return None
            name = "b%d" % i
            if "-fsanitize=address" in cli[1]: roomy.add(name)   # it reserves address space for its own purposes
            e = build(name, lib, cli)
            if e: return dict(run=None, message="%s: %s" % (label, e), case=label)
            r = None
            for k, env in enumerate([(0, "C", 0, 0, 0), (1, "C.UTF-8", 255, 5, 255)]):
                got, n, e = run(name, env, "t%d" % k)
                if e or got != ref: r = bad(label, env, got, n, e); break
            shutil.rmtree(os.path.join(d, name), ignore_errors=True)
            return r
        with cf.ThreadPoolExecutor(8) as ex:
            for r in ex.map(one, list(enumerate(confs))):
                if r: viol = viol or r
                else: ran += 2
        scopes.append(dict(name="builds", bound="every build (%d) in two environments x %d cases: every codepoint's lookups, compositions, texts, octet buffers" % (len(confs), len(ref)), cases=2 * len(confs) * len(ref), samples=[dict(text=confs[0][0]), dict(text=confs[-1][0])]))
    total = ran * len(ref or [])
    shutil.rmtree(d, ignore_errors=True)
    return [("builds", dict(states=total, transitions=total, traces=total, nontrivial=total, distinct_outcomes=len(hashes), scopes=scopes))], viol
