// I01: the library used by constructors and destructors of static objects. Linked in every order with the library's objects.
#include "common.hpp"
#ifndef PART
#error PART
#endif
extern "C" { extern int i01_bad; extern const char* i01_what; extern int i01_stages; }
static const struct { int t[5], n; } TXT[] = {{{0x61, 0x323, 0x301}, 3}, {{0xAC01, 0x1161, 0x11A8}, 3}, {{0x1F1E6, 0x1F1E6, 0x1F1E6, 0x0D, 0x0A}, 5}, {{0xFB01, 0x2007, 0xFDFA}, 3}, {{0x1100, 0x1161, 0x11A8, 0x261D, 0x1F3FB}, 5}, {{0x1D15E, 0x2F800, 0x344, 0x10FFFF}, 4}};
static const int ONE[] = {0, 0x0A, 0x0D, 0x41, 0xA0, 0xC0, 0x300, 0x301, 0x323, 0x345, 0x600, 0x903, 0x1100, 0x1161, 0x11A8, 0x1E69, 0x200D, 0x2764, 0x1F466, 0x212B, 0xAC00, 0xAC01, 0xD7A3, 0xFB01, 0xFDFA, 0x1D15F, 0x1D165, 0x1E94A, 0x1F1E6, 0x1F3FB, 0x2FA1D, 0xE01EF, 0x10FFFF, 0x110000, -1};
static void bad(const char* w) { if (!i01_bad) i01_what = w; i01_bad = 1; }
static bool same_dec(int const* p, int c, bool k) { Text w; ref::decompose(c, k, w); bool id = w.size() == 1 && w[0] == c; if (c >= 0xAC00 && c <= 0xD7A3) return true; if (!p) return id; for (int x : w) if (*p++ != x) return false; return *p == 0; }
static void lookups() {
  using namespace u5e::props;
  static const int gm[] = {(int)grapheme_cluster_break::OTHER, (int)grapheme_cluster_break::PREPEND, (int)grapheme_cluster_break::CR, (int)grapheme_cluster_break::LF, (int)grapheme_cluster_break::CONTROL, (int)grapheme_cluster_break::EXTEND, (int)grapheme_cluster_break::REGIONAL_INDICATOR, (int)grapheme_cluster_break::SPACINGMARK, (int)grapheme_cluster_break::L, (int)grapheme_cluster_break::V, (int)grapheme_cluster_break::T, (int)grapheme_cluster_break::LV, (int)grapheme_cluster_break::LVT, (int)grapheme_cluster_break::E_BASE, (int)grapheme_cluster_break::E_MODIFIER, (int)grapheme_cluster_break::ZWJ, (int)grapheme_cluster_break::GLUE_AFTER_ZWJ, (int)grapheme_cluster_break::E_BASE_GAZ};
  for (int c : ONE) {
    if ((int)grapheme_cluster_break::resolve(c) != gm[ref::gcb(c)]) bad("grapheme break lookup");
    if (canonical_combining_class::resolve(c) != ref::ccc(c)) bad("combining class lookup");
    if (!same_dec(canonical_decomposition_mapping::resolve(c), c, false)) bad("canonical decomposition lookup");
    if (!same_dec(compatibility_and_canonical_decomposition_mapping::resolve(c), c, true)) bad("compatibility decomposition lookup");
    for (int d : ONE) { int w = -5, g = -5; bool a = ref::compose(c, d, w), b = canonical_composition_mapping::resolve(c, d, &g); if (a != b || w != g) bad("composition lookup"); }
  }
}
template <class E, class N> static void segmentation(const Text& t, N n) {
  E e(n); std::vector<int> b = ref::bounds(t); size_t k = 0;
  for (auto i = e.grapheme_begin(), z = e.grapheme_end(); i != z; ++i, ++k) { if (k + 1 >= b.size()) { bad("segmentation does not stop"); return; } auto x = *i; Text g; for (auto p = x.codepoint_begin(), q = x.codepoint_end(); p != q && g.size() < 200; ++p) { int v = *p; g.push_back(v); } if (g != Text(t.begin() + b[k], t.begin() + b[k + 1])) bad("segmentation"); }
  if (k + 1 != b.size()) bad("segmentation stops early");
}
template <class E, class N> static void normalize(const Text& t, N n) {
  E e(n);
  for (int f = 0; f < 4; f++) {
    Text w = ref::nf(f, t); u5e::utf8_string o8; u5e::utf32ne_string o32; int k = 0;
    for (auto i = e.grapheme_begin(), z = e.grapheme_end(); i != z; ++i) switch (f) {
      case 0: k += u5e::normalization_form_d(*i, o8); u5e::normalization_form_d(*i, o32); break;
      case 1: k += u5e::normalization_form_c(*i, o8); u5e::normalization_form_c(*i, o32); break;
      case 2: k += u5e::normalization_form_kd(*i, o8); u5e::normalization_form_kd(*i, o32); break;
      default: k += u5e::normalization_form_kc(*i, o8); u5e::normalization_form_kc(*i, o32);
    }
    if (o8.native_string != ref::encode(w) || o32.native_string != to32(w) || k != (int)w.size()) bad("normalization");
  }
}
static void texts(bool seg, bool norm) {
  for (size_t k = 0; k <= sizeof TXT / sizeof *TXT; k++) { Text t; if (k < sizeof TXT / sizeof *TXT) t.assign(TXT[k].t, TXT[k].t + TXT[k].n); else { t.push_back(0x1E69); for (int i = 0; i < 80; i++) t.push_back(i % 3 == 0 ? 0x301 : i % 3 == 1 ? 0x323 : 0x344); t.push_back(0xAC01); }
    if (seg) { segmentation<u5e::utf8_string>(t, ref::encode(t)); segmentation<u5e::utf32ne_string>(t, to32(t)); std::string s = ref::encode(t); segmentation<u5e::utf8_string_view>(t, u8view(s.data(), s.size())); }
    if (norm) { normalize<u5e::utf8_string>(t, ref::encode(t)); normalize<u5e::utf32ne_string>(t, to32(t)); } }
}
static void battery(const char* stage, int what) {   // bits: 1 lookups, 2 segmentation, 4 normalization
  int was = i01_bad;
  if (what & 1) lookups();
  texts(what & 2, what & 4);
  i01_stages++;
  if (i01_bad && !was) { fprintf(stderr, "FAIL part %d %s: %s\n", PART, stage, i01_what ? i01_what : "?"); _exit(1); }
}
struct Both { Both() { battery("constructor", 7); } ~Both() { battery("destructor", 7); } };
struct Late { Late() {} ~Late() { battery("destructor of an object that did not use the library before", WHAT); } };
struct Early { Early() { battery("constructor", WHAT); } };
static Late late;      // constructed before, so destroyed after, the next ones
static Early early;
#if WHAT == 7
static Both both;
static void at_exit() { battery("atexit handler", 7); }
struct Reg { Reg() { atexit(at_exit); } } static reg;
#endif
#if PART == 0
extern "C" { int i01_bad = 0; const char* i01_what = nullptr; int i01_stages = 0; }
static struct Last { ~Last() { if (i01_bad) _exit(1); } } last;
int main() { battery("main", 7); printf("%d\n", i01_stages); return i01_bad; }
#endif
