// E01: the programs the documentation shows, run with any arguments.
#include <algorithm>
#include <cstdarg>
#include <iostream>
#include <sstream>
#include <stdio.h>
#include <string.h>
#include "common.hpp"
#include <u5e/utf8_iterator.hpp>
using mc::Ctx; using mc::Scope; using mc::fail;
typedef std::string S8;

static S8 printed;
static int captured(const char* f, ...) __attribute__((format(printf, 1, 2)));
static int captured(const char* f, ...) { char b[200]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); printed.append(b, n); return n; }

#define printf captured
#define main run
#pragma GCC diagnostic ignored "-Wall"
namespace ex_simple {
#include <../examples/simple_iteration.cpp>
}
namespace ex_small {
#include <../examples/smallest_code.cpp>
}
namespace ex_graphemes {
#include <../examples/grapheme_iteration.cpp>
}
namespace ex_d {
#include <../examples/normalization_form_d.cpp>
}
namespace ex_c {
#include <../examples/normalization_form_c.cpp>
}
namespace ex_kd {
#include <../examples/normalization_form_kd.cpp>
}
namespace ex_kc {
#include <../examples/normalization_form_kc.cpp>
}
namespace ex_d32 {
#include <../examples/normalization_form_d_utf32.cpp>
}
namespace ex_c32 {
#include <../examples/normalization_form_c_utf32.cpp>
}
namespace ex_kd32 {
#include <../examples/normalization_form_kd_utf32.cpp>
}
namespace ex_kc32 {
#include <../examples/normalization_form_kc_utf32.cpp>
}
#define endl endl; return 0   // only main may end without it
namespace ex_tc {
#include <../examples/truncate_on_codepoint.cpp>
}
namespace ex_tg {
#include <../examples/truncate_on_grapheme.cpp>
}
#undef endl
#undef main
#undef printf

static const int AL[] = {0x61, 0x301, 0x327, 0xE9, 0x1E69, 0xAC01, 0x1100, 0x1161, 0x11A8, 0xD, 0xA, 0x1F1E6, 0x1F466, 0x1F3FB, 0x200D, 0x600, 0x903, 0xFB01, 0x20AC, 0x10348, 0x7F, 0x7FF, 0x10FFFF, 0x2764, 0x344, 0x20};
enum { K = sizeof AL / sizeof *AL };
static S8 cps(const Text& t, const char* f) { S8 s; char b[40]; for (int c : t) { snprintf(b, sizeof b, f, (long long unsigned)c); s += b; } return s; }
static Text forms_of(int f, const Text& t) { Text w; std::vector<int> b = ref::bounds(t); for (size_t i = 0; i + 1 < b.size(); i++) { Text p = ref::nf(f, Text(t.begin() + b[i], t.begin() + b[i + 1])); w.insert(w.end(), p.begin(), p.end()); } return w; }
static void check(const char* name, int rc, const S8& want, const std::vector<Text>& a) {
  if (printed == want && !rc) return;
  S8 s; for (auto& t : a) s += ref::show(t) + " "; fail("%s with the arguments %sprints \"%s\" instead of \"%s\" and returns %d", name, s.c_str(), printed.c_str(), want.c_str(), rc);
}
static void decide(Ctx& c, const std::vector<Text>& a) {
  std::vector<S8> s{"program"}; for (auto& t : a) s.push_back(ref::encode(t)); std::vector<char*> argv; for (auto& x : s) argv.push_back(&x[0]); argv.push_back(nullptr); int n = (int)s.size();
  auto go = [&](int (*f)(int, char**), const char* name, std::function<S8(const Text&)> want) { printed.clear(); int rc = f(n, argv.data()); S8 w; for (auto& t : a) w += want(t) + "\n"; check(name, rc, w, a); c.step(); };
  go(ex_simple::run, "simple_iteration", [](const Text& t) { return cps(t, " U+%06llx "); });
  go(ex_graphemes::run, "grapheme_iteration", [](const Text& t) { S8 s; std::vector<int> b = ref::bounds(t); for (size_t i = 0; i + 1 < b.size(); i++) s += "[" + cps(Text(t.begin() + b[i], t.begin() + b[i + 1]), " U+%06llx") + " ]"; return s; });
  int (*const nfp[4])(int, char**) = {ex_d::run, ex_c::run, ex_kd::run, ex_kc::run}; static const char* const nm[] = {"normalization_form_d", "normalization_form_c", "normalization_form_kd", "normalization_form_kc"};
  for (int f = 0; f < 4; f++) go(nfp[f], nm[f], [f](const Text& t) { return cps(forms_of(f == 0 ? ref::NFD : f == 1 ? ref::NFC : f == 2 ? ref::NFKD : ref::NFKC, t), " U+%06llx"); });
  if (!a.empty() && !a[0].empty()) { int r = ex_small::run(n, argv.data()); if (r != a[0][0]) fail("smallest_code with the argument %s returns %X", ref::show(a[0]).c_str(), r); }
  for (size_t i = 0; i < a.size(); i++) if (s[i + 1] != ref::encode(a[i])) fail("an argument was changed");
  c.state(); uint64_t h = 1; for (auto& t : a) h = mc::hmix(h, mc::hseq(t)); c.outcome(h); if (!a.empty()) c.nontrivial();
}
static Text syms(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(AL[v[i]]); return t; }
int main(int argc, char** argv) {
  mc::Harness h;
  for (int L = 0; L <= (thorough() ? 6 : 5); L++) h.scopes.push_back(mc::seq_scope("argument-" + std::to_string(L), L < 5 ? K : thorough() ? (L == 5 ? 20 : 12) : 12, L, [](Ctx& c, const int* v, int n) { decide(c, {syms(v, n)}); }, [](const int* v, int n) { return ref::show(syms(v, n)); }));
  auto split = [](const int* v) { std::vector<Text> a; int k = v[0]; const int* p = v + 1; for (int i = 0; i < k; i++) { a.push_back(syms(p + 1, *p)); p += *p + 1; } return a; };
  h.scopes.push_back(mc::list_scope("arguments", "no argument; two arguments, each of 0 to 2 of 26 codepoints (1 of 26 when both have 2: 8)", K + 1, [](Ctx& c, uint64_t t) {
      if (t == K) { int v[8] = {0}; c.go(v, 1); for (int i = 0; i < K; i++) { int w[8] = {2, 0, 1, i}; if (!c.go(w, 4)) return; int x[8] = {2, 1, i, 0}; if (!c.go(x, 4)) return; } return; }
      for (int i = 0; i < K; i++) { int v[8] = {2, 1, (int)t, 1, i}; if (!c.go(v, 5)) return; for (int j = 0; j < K; j++) { int w[8] = {2, 2, (int)t, i, 1, j}; if (!c.go(w, 6)) return; int x[8] = {2, 1, (int)t, 2, i, j}; if (!c.go(x, 6)) return; if (t < 8 && i < 8 && j < 8) for (int k = 0; k < 8; k++) { int y[8] = {2, 2, (int)t, i, 2, j, k}; if (!c.go(y, 7)) return; } } } },
    [split](Ctx& c, const int* v, int) { decide(c, split(v)); }, [split](const int* v, int) { S8 s; for (auto& t : split(v)) s += ref::show(t) + " "; return s; }));
  h.scopes.push_back(mc::range_scope("every-codepoint", 1, ref::MAXCP, [](Ctx& c, const int* v, int) { decide(c, {Text{v[0]}}); }, [](const int* v, int) { return ref::show(Text{v[0]}); }));
  // one argument: a first codepoint, up to 300 times one or two others, a last one
  h.scopes.push_back(mc::list_scope("long", "one argument: a first of 26 codepoints, n - 2 times one of 13 others (also alternating with U+0301), a last of 26; every n in 6..40 and 62..66, 126..130, 254..258 for 3 firsts, 3 lasts, else n in 7, 16, 17, 33, 65", 13 * 2, [](Ctx& c, uint64_t t) {
      for (int n : {6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258}) {
        bool all = n == 7 || n == 16 || n == 17 || n == 33 || n == 65; int k = all ? (int)K : 3;
        for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { int v[5] = {(int)t / 2 * 2, i, j, n, (int)t % 2}; if (!c.go(v, 5)) return; } } },
    [](Ctx& c, const int* v, int) { Text x{AL[v[1]]}; for (int i = 0; i < v[3] - 2; i++) x.push_back(v[4] && i % 2 ? 0x301 : AL[v[0]]); x.push_back(AL[v[2]]); decide(c, {x}); },
    [](const int* v, int) { char b[160]; snprintf(b, sizeof b, "U+%04X, %d times U+%04X%s, U+%04X", AL[v[1]], v[3] - 2, AL[v[0]], v[4] ? " alternating with U+0301" : "", AL[v[2]]); return S8(b); }));
  h.scopes.push_back(mc::range_scope("fixed", 0, 6, [](Ctx& c, const int* v, int) {
      char name[] = "program"; char* av[] = {name, nullptr}; Text in{0xC4, 0xFB03, 'n'}; printed.clear(); int rc = 0; const int f = v[0];
      static const char* const nm[] = {"normalization_form_d_utf32", "normalization_form_c_utf32", "normalization_form_kd_utf32", "normalization_form_kc_utf32", "truncate_on_codepoint", "truncate_on_grapheme"};
      if (f < 4) { rc = f == 0 ? ex_d32::run(1, av) : f == 1 ? ex_c32::run(1, av) : f == 2 ? ex_kd32::run(1, av) : ex_kc32::run(1, av); check(nm[f], rc, cps(ref::nf(f == 0 ? ref::NFD : f == 1 ? ref::NFC : f == 2 ? ref::NFKD : ref::NFKC, in), " U+%06llx"), {}); }
      else { std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); if (f == 4) ex_tc::run(1, av); else ex_tg::run(1, av); std::cout.rdbuf(old); printed = o.str(); check(nm[f], 0, f == 4 ? "Ola\n" : "Ol\n", {}); }
      c.state(); c.step(); c.outcome(f); c.nontrivial(); }, [](const int* v, int) { return "program " + std::to_string(v[0]); }));
  return run_harness(h, argc, argv);
}
