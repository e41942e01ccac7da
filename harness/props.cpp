// G01 D01 D02 D03: the property tables, as functions of the codepoint.
#include "common.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;
typedef u5e::props::grapheme_cluster_break gb;

static std::string show_cp(const int* v, int n) { std::string s; char b[32]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s%04X", i ? " " : "", (unsigned)v[i]); s += b; } return s; }

static int gcb_of(int c) {
  switch (gb::resolve(u5e::codepoint(c))) {
    case gb::OTHER: return ref::OTHER; case gb::PREPEND: return ref::PREPEND; case gb::CR: return ref::CR; case gb::LF: return ref::LF;
    case gb::CONTROL: return ref::CONTROL; case gb::EXTEND: return ref::EXTEND; case gb::REGIONAL_INDICATOR: return ref::RI;
    case gb::SPACINGMARK: return ref::SPACINGMARK; case gb::L: return ref::L; case gb::V: return ref::V; case gb::T: return ref::T;
    case gb::LV: return ref::LV; case gb::LVT: return ref::LVT; case gb::E_BASE: return ref::E_BASE; case gb::E_MODIFIER: return ref::E_MODIFIER;
    case gb::ZWJ: return ref::ZWJ; case gb::GLUE_AFTER_ZWJ: return ref::GAZ; case gb::E_BASE_GAZ: return ref::EBG;
  }
  return -1;
}

// every place where some table changes value, and the values around powers of two
static std::vector<int> edges() {
  std::vector<int> r;
  auto add = [&](int64_t c) { for (int d = -1; d <= 1; d++) { int64_t x = c + d; if (x >= INT32_MIN && x <= INT32_MAX) r.push_back((int)x); } };
  for (int c = 1; c < ref::MAXCP; c++) if (ref::db().gcb[c] != ref::db().gcb[c - 1] || ref::db().ccc[c] != ref::db().ccc[c - 1]) add(c);
  for (auto& d : ref::dec_rows) add(d.cp);
  for (int k = 0; k < 32; k++) { add(1ll << k); add(-(1ll << k)); }
  add(ref::SB); add(ref::SB + ref::SC); add(INT32_MAX); add(INT32_MIN);
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static Scope ints_scope(const char* name, const std::vector<int>& l, const char* what, std::function<void(Ctx&, const int*, int)> run) {
  auto rt = [l](Ctx& c, uint64_t t) { for (size_t i = t; i < l.size(); i += 16) if (!c.go(&l[i], 1)) return; };
  return mc::list_scope(name, std::to_string(l.size()) + " integers: " + what, 16, rt, run, show_cp, l.size());
}

int main(int argc, char** argv) {
  mc::Harness h;
#ifdef P_G01
  auto one = [](Ctx& c, const int* v, int) {
    int want = ref::gcb(v[0]), got = gcb_of(v[0]);
    if (want != got) fail("U+%04X has break class %s, the library says %s", (unsigned)v[0], ref::gcb_name[want], got < 0 ? "a value outside the enumeration" : ref::gcb_name[got]);
    c.state(); c.step(); c.outcome(got); if (want) c.nontrivial();
  };
  h.scopes.push_back(mc::range_scope("codespace", 0, ref::MAXCP, one, show_cp));
  h.scopes.push_back(ints_scope("edges", edges(), "around every table edge and every power of two, either sign", one));
  if (thorough()) h.scopes.push_back(mc::range_scope("all-int32", INT32_MIN, (int64_t)INT32_MAX + 1, one, show_cp));
  else h.scopes.push_back(mc::range_scope("around-codespace", -(1 << 22), 1 << 24, one, show_cp));
#endif
#ifdef P_D01
  auto one = [](Ctx& c, const int* v, int) {
    int want = ref::ccc(v[0]), got = u5e::props::canonical_combining_class::resolve(v[0]);
    if (want != got) fail("U+%04X has combining class %d, the library says %d", (unsigned)v[0], want, got);
    c.state(); c.step(); c.outcome(got); if (want) c.nontrivial();
  };
  auto ord = [](Ctx& c, const int* v, int) {
    bool want = ref::ccc(v[0]) < ref::ccc(v[1]), got = u5e::canonical_combining_order(v[0], v[1]);
    if (want != got) fail("U+%04X (class %d) %s before U+%04X (class %d)", (unsigned)v[0], ref::ccc(v[0]), got ? "ordered" : "not ordered", (unsigned)v[1], ref::ccc(v[1]));
    c.state(); c.step(); c.outcome(ref::ccc(v[0]) * 512 + ref::ccc(v[1])); if (want) c.nontrivial();
  };
  h.scopes.push_back(mc::range_scope("codespace", 0, ref::MAXCP, one, show_cp));
  h.scopes.push_back(ints_scope("edges", edges(), "around every table edge and every power of two, either sign", one));
  std::vector<int> reps; { int cnt[256] = {0}; for (int c = 0; c < ref::MAXCP; c++) if (cnt[ref::db().ccc[c]] < (thorough() ? 12 : 4)) { cnt[ref::db().ccc[c]]++; reps.push_back(c); } }
  reps.push_back(-1); reps.push_back(ref::MAXCP); reps.push_back(INT32_MAX);
  h.scopes.push_back(mc::list_scope("order-pairs", "all ordered pairs of " + std::to_string(reps.size()) + " codepoints, several of every class", reps.size(),
    [reps](Ctx& c, uint64_t t) { for (int b : reps) { int v[2] = {reps[t], b}; if (!c.go(v, 2)) return; } }, ord, show_cp, reps.size() * reps.size()));
  std::vector<int> few = {'a', 0x300, 0x323, 0x327, 0x345, 0x334};
  h.scopes.push_back(mc::list_scope("order-codespace", "every codepoint against 6 codepoints of different classes, both ways", 272,
    [few](Ctx& c, uint64_t t) { for (int a = (int)t * 4096; a < (int)(t + 1) * 4096; a++) for (int b : few) { int v[2] = {a, b}, w[2] = {b, a}; if (!c.go(v, 2) || !c.go(w, 2)) return; } }, ord, show_cp, 272ull * 4096 * 12));
  if (thorough()) h.scopes.push_back(mc::range_scope("all-int32", INT32_MIN, (int64_t)INT32_MAX + 1, one, show_cp));
  else h.scopes.push_back(mc::range_scope("around-codespace", -(1 << 22), 1 << 24, one, show_cp));
#endif
#ifdef P_D02
  // v = codepoint, form (0 canonical, 1 compatibility), length of what the output already holds
  static const int prefixes[] = {0, 1, 3, 15, 16, 17, 40};
  auto decide = [](Ctx& c, int cp, int form, int pre) {
    Text before; for (int i = 0; i < pre; i++) before.push_back(i % 3 == 0 ? 'x' : i % 3 == 1 ? 0x301 : 0x10FFFF);
    Text want = before, d; ref::decompose(cp, form == 1, d); want.insert(want.end(), d.begin(), d.end());
    u5e::utf32ne_string out(to32(before));
    int n = form ? u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>(u5e::codepoint(cp), out)
                 : u5e::canonical_decomposition<u5e::utf32ne_string>(u5e::codepoint(cp), out);
    Text got = from32(out.native_string);
    if (got != want) fail("%s decomposition of U+%04X after %d codepoints gives %s instead of %s", form ? "compatibility" : "canonical", (unsigned)cp, pre, ref::show(got).c_str(), ref::show(want).c_str());
    if (n != (int)d.size()) fail("%s decomposition of U+%04X returned %d, appended %zu", form ? "compatibility" : "canonical", (unsigned)cp, n, d.size());
    c.step(); c.outcome(mc::hseq(d)); if (d.size() != 1 || d[0] != cp) c.nontrivial();
  };
  auto one = [decide](Ctx& c, const int* v, int) { for (int f = 0; f < 2; f++) for (int p : {0, 3}) decide(c, v[0], f, p); c.state(); };
  h.scopes.push_back(mc::range_scope("codespace", 0, ref::MAXCP, one, show_cp));
  h.scopes.push_back(ints_scope("edges", edges(), "around every table edge and every power of two, either sign", one));
  // sequences: the output is never reset, so state kept between calls shows
  std::vector<int> reps = {'a', 0xC5, 0x212B, 0xAC00, 0xAC01, 0xD7A3, 0x1E69, 0xFB01, 0xFDFA, 0x3131, 0x344, 0x958, 0x1D15F, 0x2F800, 0x0};
  int L = thorough() ? 5 : 4;
  for (int len = 1; len <= L; len++)
    h.scopes.push_back(mc::seq_scope("accumulate-" + std::to_string(len), reps.size() * 2, len, [reps](Ctx& c, const int* v, int n) {
      u5e::utf32ne_string out; Text want;
      for (int i = 0; i < n; i++) {
        int cp = reps[v[i] / 2], f = v[i] % 2; Text d; ref::decompose(cp, f, d); want.insert(want.end(), d.begin(), d.end());
        int k = f ? u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>(u5e::codepoint(cp), out) : u5e::canonical_decomposition<u5e::utf32ne_string>(u5e::codepoint(cp), out);
        if (k != (int)d.size()) fail("decomposing U+%04X returned %d instead of %zu", cp, k, d.size());
        if (from32(out.native_string) != want) fail("after decomposing U+%04X the output is %s instead of %s", cp, ref::show(from32(out.native_string)).c_str(), ref::show(want).c_str());
        c.step();
      }
      c.state(); c.outcome(mc::hseq(want)); if (n > 1) c.nontrivial();
    }, [reps](const int* v, int n) { std::string s; char b[40]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s U+%04X; ", v[i] % 2 ? "compat" : "canon", reps[v[i] / 2]); s += b; } return s; }));
  h.scopes.push_back(mc::list_scope("prefixes", "every codepoint with a decomposition, both kinds, after each of 7 output lengths", 16, [decide](Ctx& c, uint64_t t) {
      std::vector<int> l; for (auto& d : ref::dec_rows) l.push_back(d.cp); for (int s = ref::SB; s < ref::SB + ref::SC; s += 27) l.push_back(s); l.push_back('a');
      for (size_t i = t; i < l.size(); i += 16) for (int f = 0; f < 2; f++) for (int p : prefixes) { int v[3] = {l[i], f, p}; if (!c.go(v, 3)) return; } },
    [decide](Ctx& c, const int* v, int) { decide(c, v[0], v[1], v[2]); c.state(); }, show_cp));
  if (thorough()) h.scopes.push_back(mc::range_scope("around-codespace", -(1 << 22), 1 << 24, one, show_cp));
#endif
#ifdef P_D03
  auto one = [](Ctx& c, const int* v, int) {
    int want = 0, w0 = 0, got = -12345; bool has = ref::compose(v[0], v[1], w0), r = u5e::props::canonical_composition_mapping::resolve(v[0], v[1], &got);
    want = has ? w0 : -12345;
    if (has != r) fail("U+%04X U+%04X %s: the library says %s", (unsigned)v[0], (unsigned)v[1], has ? "compose" : "do not compose", r ? "yes" : "no");
    if (got != want) fail(has ? "U+%04X U+%04X compose to U+%04X, the library gives U+%04X" : "U+%04X U+%04X do not compose, but the result was changed (%d to %d)", (unsigned)v[0], (unsigned)v[1], want, got);
    c.state(); c.step(); if (has) { c.nontrivial(); c.outcome(w0); } else c.outcome(0);
  };
  std::vector<char> isf(ref::MAXCP, 0), iss(ref::MAXCP, 0);
  std::vector<int> F, S;
  auto addv = [](std::vector<int>& l, std::vector<char>& m, int c) { if (c >= 0 && c < ref::MAXCP && !m[c]) { m[c] = 1; l.push_back(c); } };
  for (auto& d : ref::dec_rows) if (d.n == 2 && !d.compat) {   // excluded ones too
    for (int k = -1; k <= 1; k++) { addv(F, isf, d.m[0] + k); addv(S, iss, d.m[1] + k); }
  }
  for (int c : std::vector<int>{ref::LB, ref::LB + 18, ref::LB + 19, ref::LB - 1, (int)ref::SB, ref::SB + 28, ref::SB + 1, ref::SB + 27, ref::SB + ref::SC - 28, ref::SB + ref::SC - 1, ref::SB + ref::SC, ref::SB - 1}) addv(F, isf, c);
  for (int c : std::vector<int>{ref::VB - 1, (int)ref::VB, ref::VB + 20, ref::VB + 21, (int)ref::TB, ref::TB + 1, ref::TB + 27, ref::TB + 28}) addv(S, iss, c);
  std::sort(F.begin(), F.end()); std::sort(S.begin(), S.end());
  int span = thorough() ? ref::MAXCP : 0x30000;
  h.scopes.push_back(mc::list_scope("first-x-all", std::to_string(F.size()) + " first elements (all that occur in a canonical pair, their neighbours, Hangul edges) x every codepoint below " + std::to_string(span), F.size(),
    [F, span](Ctx& c, uint64_t t) { for (int b = 0; b < span; b++) { int v[2] = {F[t], b}; if (!c.go(v, 2)) return; } }, one, show_cp, (uint64_t)F.size() * span));
  h.scopes.push_back(mc::list_scope("all-x-second", "every codepoint x " + std::to_string(S.size()) + " second elements (all that occur in a canonical pair, their neighbours, Hangul edges)", 272,
    [S](Ctx& c, uint64_t t) { for (int a = (int)t * 4096; a < (int)(t + 1) * 4096; a++) for (int b : S) { int v[2] = {a, b}; if (!c.go(v, 2)) return; } }, one, show_cp, 272ull * 4096 * S.size()));
  h.scopes.push_back(mc::list_scope("hangul", "every L-ish x V-ish pair and every syllable-ish x T-ish pair (ranges widened by 4)", 64,
    [](Ctx& c, uint64_t t) {
      for (int a = ref::LB - 4 + (int)t; a < ref::LB + ref::LC + 4; a += 64) for (int b = ref::VB - 4; b < ref::VB + ref::VC + 4; b++) { int v[2] = {a, b}; if (!c.go(v, 2)) return; }
      for (int a = ref::SB - 4 + (int)t; a < ref::SB + ref::SC + 4; a += 64) for (int b = ref::TB - 4; b < ref::TB + ref::TC + 4; b++) { int v[2] = {a, b}; if (!c.go(v, 2)) return; }
    }, one, show_cp));
  h.scopes.push_back(mc::list_scope("aliases", "every composing pair with either element moved by each power of two and negated (values a narrowed key would confuse)", 8,
    [](Ctx& c, uint64_t t) {
      size_t i = 0;
      for (auto& r : ref::dec_rows) if (r.n == 2 && !r.compat && i++ % 8 == t) for (int w = 0; w < 3; w++) for (int k = 0; k < 32; k++) {
        int v[2] = {r.m[0], r.m[1]};
        if (w != 1) v[0] = (int)((uint32_t)v[0] ^ (1u << k)); if (w != 0) v[1] = (int)((uint32_t)v[1] ^ (1u << k));
        if (!c.go(v, 2)) return;
        int s[2] = {r.m[1], r.m[0]}; if (!c.go(s, 2)) return;
      }
    }, one, show_cp));
  if (thorough()) h.scopes.push_back(mc::list_scope("low-square", "all pairs below U+3200", 0x3200, [](Ctx& c, uint64_t t) { for (int b = 0; b < 0x3200; b++) { int v[2] = {(int)t, b}; if (!c.go(v, 2)) return; } }, one, show_cp, 0x3200ull * 0x3200));
#endif
  return run_harness(h, argc, argv);
}
