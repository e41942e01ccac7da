// T01, instrumented half: what the threads do. Compiled with -fsanitize=thread like the library, linked with harness/threads.cpp.
#include "common.hpp"
#include "threads.hpp"
// The same input objects for all threads; every thread has its own iterators and outputs.
static const Text T0{0x61, 0x323, 0x301, 0xAC01, 0x1F1E6, 0x1F1E6, 0x20}, T1{0x1E69, 0x1100, 0x1161, 0x11A8, 0xFB01, 0x2007, 0x1D15F};
struct Inputs { u5e::utf8_string long8[2]; u5e::utf32ne_string long32[2]; u5e::utf8_string s8[2]; u5e::utf32ne_string s32[2]; u5e::utf8_string_view v8[2]; u5e::utf32ne_string_view v32[2]; };
static Inputs* I;
void t01_setup() {
  I = new Inputs;
  for (int i = 0; i < 2; i++) {
    Text l; l.push_back(i ? 0x1E69 : 0xFB01); for (int k = 0; k < 70; k++) l.push_back(k % 3 == 0 ? 0x301 : k % 3 == 1 ? 0x323 : 0x344);
    I->long8[i] = u5e::utf8_string(ref::encode(l)); for (int k = 0; k < 70; k++) l.push_back(i ? 0x10FFFF - k : 0x20 + k); I->long32[i] = u5e::utf32ne_string(to32(l));
    I->s8[i] = u5e::utf8_string(ref::encode(i ? T1 : T0)); I->s32[i] = u5e::utf32ne_string(to32(i ? T1 : T0));
    I->v8[i] = u5e::utf8_string_view(u8view(I->s8[i].native_string.data(), I->s8[i].native_string.size())); I->v32[i] = u5e::utf32ne_string_view(u32view(I->s32[i].native_string.data(), I->s32[i].native_string.size()));
  }
}
typedef std::vector<int> Out;
static void put(Out& o, int const* p) { if (!p) { o.push_back(-1); return; } for (int n = 0; *p && n < 30; n++) o.push_back(*p++); o.push_back(-2); }
template <class S> static void put_units(Out& o, const S& s) { o.push_back((int)s.size()); for (auto u : s) o.push_back((int)u); }
template <class E> static void segment(Out& o, E& e) { for (auto i = e.grapheme_begin(), z = e.grapheme_end(); i != z && o.size() < 300; ++i) { auto g = *i; for (auto p = g.codepoint_begin(), q = g.codepoint_end(); p != q; ++p) { int v = *p; o.push_back(v); } o.push_back(-3); } }
template <class E, class S> static void normal(Out& o, int f, E& e, S& out) {
  int n = 0;
  for (auto i = e.grapheme_begin(), z = e.grapheme_end(); i != z; ++i) n += f == 0 ? u5e::normalization_form_d(*i, out) : f == 1 ? u5e::normalization_form_c(*i, out) : f == 2 ? u5e::normalization_form_kd(*i, out) : u5e::normalization_form_kc(*i, out);
  o.push_back(n); put_units(o, out.native_string);
}
static const int ONE[2][7] = {{0x61, 0x301, 0xAC01, 0x1F1E6, 0xFB01, 0x10FFFF, 0x0D}, {0x41, 0x323, 0x1100, 0x200D, 0x1E69, 0x2007, 0x301}};
static const int TWO[2][4][2] = {{{0x61, 0x301}, {0x1100, 0x1161}, {0x61, 0x62}, {0x65, 0x302}}, {{0x61, 0x323}, {0xAC00, 0x11A8}, {0x301, 0x61}, {0x41, 0x300}}};
const char* const t01_name[T01_OPS] = {"grapheme break lookups", "combining class lookups", "canonical decomposition lookups", "compatibility decomposition lookups", "composition lookups",
  "iterate UTF-8 string", "iterate UTF-8 view backward", "iterate UTF-32 string", "segment UTF-8 string", "segment UTF-32 view", "find graphemes in UTF-8 view",
  "form D of UTF-8", "form C of UTF-8", "form KD of UTF-8", "form KC of UTF-8", "form D of UTF-32", "form C of UTF-32", "form KD of UTF-32", "form KC of UTF-32",
  "append truncated UTF-8", "append graphemes", "convert UTF-32 to UTF-8", "check UTF-8 bounds", "enforce UTF-8 bounds on own buffer", "write through own iterator", "filter through decomposition", "copy and assign the input", "canonical ordering and composition of own text",
  "form C of a long grapheme", "form KD of a long grapheme", "convert and copy a long text"};
void t01_op(int op, int k, Out& o) {
  using namespace u5e::props;
  u5e::utf8_string o8; u5e::utf32ne_string o32; auto& s8 = I->s8[k]; auto& s32 = I->s32[k]; auto& v8 = I->v8[k]; auto& v32 = I->v32[k];
  switch (op) {
    case 0: for (int c : ONE[k]) o.push_back((int)grapheme_cluster_break::resolve(c)); break;
    case 1: for (int c : ONE[k]) o.push_back(canonical_combining_class::resolve(c)); break;
    case 2: for (int c : ONE[k]) put(o, canonical_decomposition_mapping::resolve(c)); break;
    case 3: for (int c : ONE[k]) put(o, compatibility_and_canonical_decomposition_mapping::resolve(c)); break;
    case 4: for (auto& c : TWO[k]) { int r = -9; o.push_back(canonical_composition_mapping::resolve(c[0], c[1], &r)); o.push_back(r); } break;
    case 5: for (auto i = s8.codepoint_cbegin(), e = s8.codepoint_cend(); i != e; ++i) { int v = *i; o.push_back(v); } break;
    case 6: { auto i = v8.codepoint_cend(), b = v8.codepoint_cbegin(); while (i != b) { i--; int v = *i; o.push_back(v); } break; }
    case 7: for (auto i = s32.codepoint_cbegin(), e = s32.codepoint_cend(); i != e; i++) o.push_back(*i); break;
    case 8: segment(o, s8); break;
    case 9: segment(o, v32); break;
    case 10: for (int p = 0; p <= (int)v8.native_string.size(); p += 3) { u5e::utf8_string_view_grapheme_iterator g(v8.codepoint_cbegin(), v8.codepoint_cend(), u5e::utf8_string_view::const_iterator(v8.native_cbegin() + p)); u5e::utf8_string x; auto b = v8.grapheme_begin(); x.append<u8view>(b, g); o.push_back((int)x.native_string.size()); } break;
    case 11: case 12: case 13: case 14: normal(o, op - 11, s8, o8); break;
    case 15: case 16: case 17: case 18: normal(o, op - 15, v32, o32); break;
    case 19: for (int p = 0; p <= (int)s8.native_string.size(); p += 2) { u5e::utf8_string x; x.append(s8.codepoint_cbegin(), u5e::utf8_string::const_iterator(s8.native_cbegin() + p)); put_units(o, x.native_string); } break;
    case 20: { auto b = s8.grapheme_begin(), e = s8.grapheme_begin(); ++e; ++e; o8.append(b, e); put_units(o, o8.native_string); break; }
    case 21: o8.append_from_utf32ne<u32str>(s32.codepoint_cbegin(), s32.codepoint_cend()); put_units(o, o8.native_string); break;
    case 22: o.push_back(u5e::utf8_bounds<const char*>::check(v8.native_string.data(), v8.native_string.data() + v8.native_string.size())); o.push_back(u5e::utf8_bounds<const char*>::check(v8.native_string.data(), v8.native_string.data() + v8.native_string.size() - (k ? 1 : 0))); break;
    case 23: { char b[] = "\x80" "a\xC3\xA9\xE2\x82"; if (k) b[1] = '\xF0'; o.push_back(u5e::utf8_bounds<char*>::enforce(b, b + 6)); for (char c : b) o.push_back(c); break; }
    case 24: { char b[40] = {}; u5e::utf8_iterator<char*> i(b); for (int c : ONE[k]) { *i = u5e::codepoint(c); ++i; } for (char c : b) o.push_back(c); break; }
    case 25: o.push_back(u5e::filter(s8.codepoint_cbegin(), s8.codepoint_cend(), o32, u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>)); put_units(o, o32.native_string); break;
    case 26: { u5e::utf8_string x(s8); o8 = x; x.append(s8.codepoint_cbegin(), s8.codepoint_cend()); put_units(o, x.native_string); put_units(o, o8.native_string); break; }
    case 27: { u5e::utf32ne_string x(u32str{0x61, 0x301, 0x323, 0x327, 0x61, 0x302}); if (k) x.native_string[0] = 0x65; std::sort(x.native_string.begin() + 1, x.native_string.begin() + 4, u5e::canonical_combining_order); int n = 0; auto e = u5e::canonical_composition(x, &n); for (auto i = x.codepoint_begin(); i != e; ++i) o.push_back(*i); o.push_back(n); break; }
    case 28: normal(o, 1, I->long8[k], o32); break;
    case 29: normal(o, 2, I->long8[k], o8); break;
    case 30: { auto& l = I->long32[k]; o8.append_from_utf32ne<u32str>(l.codepoint_cbegin(), l.codepoint_cend()); put_units(o, o8.native_string); u5e::utf32ne_string x(l); x.append(l.codepoint_cbegin(), l.codepoint_cend()); put_units(o, x.native_string); u5e::utf8_string y(I->long8[k]); put_units(o, y.native_string); break; }
  }
}
