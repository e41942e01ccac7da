// X01: values that stand for no character (surrogates, noncharacters, unassigned ones, values above U+10FFFF, negative ones).
#include "storages.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;
static const int FO[] = {0xD800, 0xDFFF, 0xFDD0, 0xFFFE, 0x10FFFF, 0x110000, 0x110300, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, 0x0378, 0x1F0000, 0x2F0000, 0x10A300,   // up to 31 bits
                         -1, -2, -128, -256, -65536, -0x7FFFFFFF - 1, -0x7FFFFFFF, -0x10FD00, -769};                                                                                   // UTF-32 only
enum { NFO = sizeof FO / sizeof *FO };
static const int OR[] = {0x61, 0x301, 0x323, 0x345, 0x344, 0x1E69, 0xAC00, 0x1100, 0x1161, 0x11A8, 0x0D, 0x0A, 0x1F1E6, 0x200D, 0x600, 0x903, 0xFB01, 0x34F, 0x2764, 0x1F3FB};
enum { NOR = sizeof OR / sizeof *OR, K = NFO + NOR };
static int val(int i) { return i < NFO ? FO[i] : OR[i - NFO]; }
static Text mk(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(val(v[i])); return t; }
static bool wide_only(const Text& t) { for (int c : t) if (c < 0) return true; return false; }

template <class In, class Out> void forms(Ctx& c, const Text& t) {
  for (int f = 0; f < 4; f++) {
    In in(t); Text pre{'p', 0x301}; Out out(pre); int n = 0; size_t lim = t.size() + 1;
    for (typename In::GI i = in.enc.grapheme_begin(), e = in.enc.grapheme_end(); i != e; ++i) {
      if (!lim--) fail("%s: iterating the graphemes of %s does not stop", In::name(), ref::show(t).c_str());
      auto g = *i;
      n += f == 0 ? u5e::normalization_form_d(g, out.enc) : f == 1 ? u5e::normalization_form_c(g, out.enc) : f == 2 ? u5e::normalization_form_kd(g, out.enc) : u5e::normalization_form_kc(g, out.enc);
    }
    Text w; { std::vector<int> b = ref::bounds(t); for (size_t i = 0; i + 1 < b.size(); i++) { Text p = ref::nf(f, Text(t.begin() + b[i], t.begin() + b[i + 1])); w.insert(w.end(), p.begin(), p.end()); } }   // see N04 for jamo across graphemes
    Text pw(pre); pw.insert(pw.end(), w.begin(), w.end());
    if (!same_units(out.enc.native_string, Out(pw).enc.native_string)) fail("%s of %s (%s to %s) is not %s", ref::form_name[f], ref::show(t).c_str(), In::name(), Out::name(), ref::show(w).c_str());
    if (n != (int)w.size()) fail("%s of %s (%s to %s) appends %zu codepoints but returns %d", ref::form_name[f], ref::show(t).c_str(), In::name(), Out::name(), w.size(), n);
    c.step();
  }
}
template <class St> void segment(Ctx& c, const Text& t) {
  St s(t); std::vector<int> b = ref::bounds(t); size_t k = 0;
  for (typename St::GI i = s.enc.grapheme_begin(), e = s.enc.grapheme_end(); i != e; ++i, ++k) {
    if (k + 1 >= b.size()) fail("%s: %s has more than %zu graphemes", St::name(), ref::show(t).c_str(), k);
    auto g = *i; Text got = between(g.codepoint_begin(), g.codepoint_end(), t.size() + 1), want(t.begin() + b[k], t.begin() + b[k + 1]);
    if (got != want) fail("%s: grapheme %zu of %s is %s instead of %s", St::name(), k, ref::show(t).c_str(), ref::show(got).c_str(), ref::show(want).c_str());
    c.step();
  }
  if (t.size() && k + 1 != b.size()) fail("%s: %s has %zu graphemes instead of %zu", St::name(), ref::show(t).c_str(), k, b.size() - 1);
}
static void decide(Ctx& c, const Text& t, bool all) {
  segment<U32V>(c, t); forms<U32V, U32S>(c, t);
  if (!wide_only(t)) { segment<U8V>(c, t); forms<U8S, U8S>(c, t); if (all) { forms<U8V, U32S>(c, t); forms<U32V, U8S>(c, t); } }
  if (all) { segment<U32S>(c, t); forms<U32S, U32S>(c, t); }
  c.state(); c.outcome(mc::hseq(ref::bounds(t), t.size())); for (int x : t) if (!ref::in(x)) { c.nontrivial(); break; }
}
int main(int argc, char** argv) {
  mc::Harness h;
  for (int L = 0; L <= 3; L++) h.scopes.push_back(mc::seq_scope("values-" + std::to_string(L), K, L, [](Ctx& c, const int* v, int n) { decide(c, mk(v, n), n < 3); }, [](const int* v, int n) { return ref::show(mk(v, n)); }));
  // foreign value, all ordinary sequences around it
  static const int F4[] = {0, 3, 4, 5, 6, 11, 16, 18, 21};
  enum { NF4 = sizeof F4 / sizeof *F4 };
  auto around = [](const int* v, int n) { Text t; for (int i = 0; i <= n - 2; i++) { if (i == v[1]) t.push_back(FO[F4[v[0]]]); if (i < n - 2) t.push_back(OR[v[i + 2]]); } return t; };
  for (int L = 2; L <= (thorough() ? 4 : 3); L++)
    h.scopes.push_back(mc::list_scope("around-" + std::to_string(L), "9 such values at every place of all sequences of " + std::to_string(L) + " over 20 ordinary codepoints", (uint64_t)NF4 * (L + 1) * NOR, [L](Ctx& c, uint64_t t) {
        int v[6] = {(int)(t / NOR / (L + 1)), (int)(t / NOR % (L + 1)), (int)(t % NOR)}; uint64_t m = 1; for (int i = 1; i < L; i++) m *= NOR;
        for (uint64_t k = 0; k < m; k++) { uint64_t x = k; for (int i = 1; i < L; i++) { v[2 + i] = x % NOR; x /= NOR; } if (!c.go(v, L + 2)) return; } },
      [around](Ctx& c, const int* v, int n) { decide(c, around(v, n), false); }, [around](const int* v, int n) { return ref::show(around(v, n)); }));
  // every multiple of 256 of the 32-bit range, with each ordinary value in its low bits: what truncating the value would find
  static const int LOW[] = {0x301, 0xAC00, 0x1161, 0xE9, 0xFB01, 0x1F1E6, 0x200D, 0x0D, 0x903, 0x1D15F};
  h.scopes.push_back(mc::list_scope("aliases", "every value with the low 8, 16, 20, 21 or 24 bits of 10 ordinary ones and every power of two or pair of powers of two above them", 10, [](Ctx& c, uint64_t t) {
      static const int bits[] = {8, 16, 20, 21, 24}; for (int b : bits) for (int i = b; i < 32; i++) for (int j = i; j < 32; j++) { unsigned x = ((unsigned)LOW[t] & ((1u << b) - 1)) | 1u << i | 1u << j; int v[2] = {(int)x, 0}; for (v[1] = 0; v[1] < 6; v[1]++) if (!c.go(v, 2)) return; } },
    [](Ctx& c, const int* v, int) { static const int N[] = {0x61, 0x301, 0x1100, 0x1F1E6, 0x200D, 0x0D}; decide(c, Text{v[0], N[v[1]]}, false); decide(c, Text{N[v[1]], v[0]}, false); },
    [](const int* v, int) { return ref::show(Text{v[0]}) + " with neighbour " + std::to_string(v[1]); }));
  return run_harness(h, argc, argv);
}
