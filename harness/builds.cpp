// P01: one fixed, closed set of uses of the library, compiled in many ways and run in many environments. The result of every
// case is written (as a hash) to a trace; the traces must be equal.   builds TRACE ROUNDING LOCALE STACKFILL ALIGN | builds --show N
#include <cfenv>
#include <clocale>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <experimental/string_view>
#include <fcntl.h>
#include <iterator>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/canonical_combining_order.hpp>
#include <u5e/canonical_composition.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>

typedef std::vector<int> Text;
typedef std::experimental::string_view V8; typedef std::experimental::basic_string_view<int> V32; typedef std::basic_string<int> S32;
struct H { uint64_t h = 0x9E3779B97F4A7C15ull; void add(uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } };
template <class S> static void units(H& h, const S& s, uint64_t mask) { h.add(s.size()); for (size_t i = 0; i < s.size(); i++) h.add((uint64_t)s[i] & mask); }
static void enc(int c, std::string& o) {
  uint32_t u = c; int n = u < 0x80 ? 1 : u < 0x800 ? 2 : u < 0x10000 ? 3 : u < 0x200000 ? 4 : u < 0x4000000 ? 5 : 6; static const unsigned char lead[7] = {0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC};
  o += (char)(n == 1 ? u : lead[n] + (u >> (6 * (n - 1)))); for (int i = n - 2; i >= 0; i--) o += (char)(0x80 + ((u >> (6 * i)) & 0x3F));
}
static int align_;
template <class E> static void walkg(H& h, E& e) {
  for (auto g = e.grapheme_begin(); g != e.grapheme_end(); ++g) { auto x = *g; h.add(0xAAAA); for (auto i = x.codepoint_begin(); i != x.codepoint_end(); ++i) { int v = *i; h.add((uint32_t)v); } }
  auto b = e.codepoint_cbegin(), i = e.codepoint_cend(); h.add(0xBBBB); while (i != b) { i--; int v = *i; h.add((uint32_t)v); }
}
template <class In, class Out> static void forms(H& h, In& in) {
  for (int f = 0; f < 4; f++) {
    Out o; for (auto i = in.grapheme_begin(); i != in.grapheme_end(); i++) { auto g = *i; h.add((uint32_t)(f == 0 ? u5e::normalization_form_d(g, o) : f == 1 ? u5e::normalization_form_c(g, o) : f == 2 ? u5e::normalization_form_kd(g, o) : u5e::normalization_form_kc(g, o))); }
    units(h, o.native_string, sizeof(o.native_string[0]) == 1 ? 0xFF : 0xFFFFFFFF);
  }
}
static void values(H& h, int x, int y) {
  u5e::codepoint a(x), b = y, d; d = a; const u5e::codepoint e(d); h.add((uint32_t)d.value); h.add((uint32_t)(int)e); h.add(u5e::codepoint().value);
  h.add((a == b) | (a == y) << 1 | (x == b) << 2 | (a != b) << 3 | (a != y) << 4 | (x != b) << 5 | (a < b) << 6 | (a > b) << 7 | (a <= b) << 8 | (a >= b) << 9 | (a < y) << 10 | (x < b) << 11 | std::less<u5e::codepoint>()(a, b) << 12 | (a >= y) << 13 | (x > b) << 14 | (e == a) << 15 | !a << 16);
  h.add((uint32_t)(a ^ b)); h.add((uint32_t)(a & b)); h.add((uint64_t)(long long)a); h.add((uint32_t)a); h.add((uint64_t)(int64_t)((double)a * 2)); if (y > -100000 && y < 100000 && x > -0x7FFF0000 && x < 0x7FFF0000) h.add((uint32_t)(a + b)); a = y; h.add((uint32_t)a.value);
}
// the operations of iterators that the others do not use
template <class E> static void iterators(H& h, E& e) {
  auto g = e.grapheme_begin(), z = e.grapheme_end(), q = g; h.add((g == z) | (g != z) << 1 | (q == g) << 2); if (g != z) { auto old = g++; h.add((old == q) | (g == q) << 1 | (g == e.codepoint_cbegin()) << 2 | (g != e.codepoint_cend()) << 3); q = g; h.add(q == g); }
  auto i = e.codepoint_cbegin(), j = e.codepoint_cend(); size_t n = 0; while (i != j && n < 1000) { auto k = i++; h.add((k == i) | (k != j) << 1); auto m = i; m--; h.add(m == k); n++; } h.add((uint64_t)std::distance(e.codepoint_cbegin(), e.codepoint_cend()));
  E f(e), s; s = f; s = e; h.add(s.native_string.size()); h.add(s.native_cend() - s.native_cbegin());
}
static void text(H& h, const Text& t) {
  std::string s; for (int c : t) enc(c, s); S32 w(t.begin(), t.end());
  std::vector<char> mem(s.size() + 32, 'x'); char* p = mem.data(); p += (align_ - (uintptr_t)p) & 15; if (!s.empty()) memcpy(p, s.data(), s.size());
  u5e::utf8_string a(s); u5e::utf8_string_view v{V8(p, s.size())}; u5e::utf32ne_string b(w); u5e::utf32ne_string_view x{V32(w.data(), w.size())};
  walkg(h, a); walkg(h, v); walkg(h, b); walkg(h, x);
  iterators(h, a); iterators(h, v); iterators(h, b); iterators(h, x);
  { u5e::utf8_string o(std::string("q")); u5e::utf8_string_view_grapheme_iterator f = v.grapheme_begin(), l = v.grapheme_end(); o.append<V8>(f, l); units(h, o.native_string, 0xFF); u5e::utf32ne_string p(b); auto f2 = p.grapheme_begin(), l2 = p.grapheme_end(); p.append(f2, l2); units(h, p.native_string, 0xFFFFFFFF);
    u5e::utf32ne_string d; h.add(u5e::filter(a.codepoint_cbegin(), a.codepoint_cend(), d, u5e::canonical_decomposition<u5e::utf32ne_string>)); u5e::canonical_combining_reorder(d.codepoint_begin(), d.codepoint_end()); int n = 0; auto e = u5e::canonical_composition(d, &n); h.add(n); h.add(e - d.codepoint_begin()); units(h, d.native_string, 0xFFFFFFFF); }
  forms<u5e::utf8_string_view, u5e::utf8_string>(h, v); forms<u5e::utf32ne_string, u5e::utf32ne_string>(h, b);
  if (t.size() < 3) { forms<u5e::utf8_string, u5e::utf32ne_string>(h, a); forms<u5e::utf32ne_string_view, u5e::utf8_string>(h, x); }
  { u5e::utf8_string o; o.append_from_utf32ne<u5e::utf32ne_string>(b.codepoint_cbegin(), b.codepoint_cend()); units(h, o.native_string, 0xFF); h.add(u5e::utf8_bounds<std::string::iterator>::check(o.native_begin(), o.native_end())); }
  for (size_t k = 0; k <= s.size(); k++) {
    u5e::utf8_string::const_iterator m(a.native_cbegin() + k); u5e::utf8_string o; o.append(a.codepoint_cbegin(), m); units(h, o.native_string, 0xFF);
    u5e::utf8_string_grapheme_iterator gb(a.codepoint_cbegin(), a.codepoint_cend()), gi(a.codepoint_cbegin(), a.codepoint_cend(), m); u5e::utf8_string q; q.append(gb, gi); units(h, q.native_string, 0xFF);
  }
  { std::string buf(s.size() + 8, 0x40); u5e::utf8_string::iterator it(buf.begin()); for (int c : t) { *it = u5e::codepoint(c); int r = *it; h.add((uint32_t)r); ++it; } units(h, buf, 0xFF); }
}
static void codepoint(H& h, int c) {
  h.add((int)u5e::props::grapheme_cluster_break::resolve(u5e::codepoint(c))); h.add(u5e::props::canonical_combining_class::resolve(c));
  S32 w(1, c); u5e::utf32ne_string i(w), o; h.add(u5e::canonical_decomposition<u5e::utf32ne_string>(u5e::codepoint(c), o)); units(h, o.native_string, 0xFFFFFFFF);
  u5e::utf32ne_string p; h.add(u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>(u5e::codepoint(c), p)); units(h, p.native_string, 0xFFFFFFFF);
  if (c >= 0) { u5e::utf8_string e; e.append_from_utf32ne<u5e::utf32ne_string>(i.codepoint_cbegin(), i.codepoint_cend()); units(h, e.native_string, 0xFF); u5e::utf8_string::const_iterator q(e.native_cbegin()); int v = *q; h.add((uint32_t)v); }
}
static void pair(H& h, int a, int b) {
  int r = -7; bool ok = u5e::props::canonical_composition_mapping::resolve(a, b, &r); h.add(ok); h.add((uint32_t)r); h.add(u5e::canonical_combining_order(a, b));
}
static void octets(H& h, const std::string& s) {
  std::string t(s); h.add(u5e::utf8_bounds<std::string::iterator>::check(t.begin(), t.end())); h.add(u5e::utf8_bounds<std::string::iterator>::enforce(t.begin(), t.end())); units(h, t, 0xFF);
  h.add(u5e::utf8_bounds<std::string::iterator>::check(t.begin(), t.end()));
  std::vector<char> mem(t.begin(), t.end()); mem.push_back(0x7F);
  u5e::utf8_const_iterator<const char*> i(mem.data()), e(mem.data() + t.size()); size_t k = 0; while (i != e && k++ <= t.size()) { int v = *i; h.add((uint32_t)v); ++i; } h.add(k);
}

static const int CPS[] = {0x61, 0x301, 0xAC00, 0x1161, 0x11A8, 0x1F1E6, 0x200D, 0x2764, 0x212B, 0x327, 0x9C7, 0x9BE, 0xFDFA, 0x10348, 0x323, 0x1100, 0x3131, 0x1F3FB, 0x261D, 0x0D, 0x0A, 0x600, 0x958, 0xE9, 0x1E69, 0x7F, 0x80, 0x10FFFF, 0x200000, 0x7FFFFFFF};
enum { NC = sizeof CPS / sizeof *CPS };
static const unsigned char OCT[] = {0x00, 0x61, 0x7F, 0x80, 0xBF, 0xC0, 0xC3, 0xE2, 0xEF, 0xF0, 0xF4, 0xF8, 0xFC, 0x3F};
static const int SECOND[] = {0x300, 0x301, 0x302, 0x303, 0x304, 0x306, 0x307, 0x308, 0x309, 0x30A, 0x30B, 0x30C, 0x323, 0x327, 0x328, 0x338, 0x342, 0x345, 0x653, 0x9BE, 0xBBE, 0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2, 0x3099, 0x309A, 0x110BA, 0x1133E, 0, -1};
// the cases in order; f(number, kind, description)
struct Sink { uint64_t n = 0, show = ~0ull; uint64_t* out = nullptr; uint64_t* done = nullptr; int deep = 0;
  bool skip() { return show != ~0ull && n++ != show; }
  enum : uint64_t { CAP = 24000000 };
  void put(const H& h) { if (out) { if (n >= CAP) _exit(7); out[n] = h.h; *done = ++n; } } };
static unsigned char fill_; static volatile unsigned char* keep_;
__attribute__((noinline)) static void dirty() { unsigned char b[16384]; memset(b, fill_, sizeof b); keep_ = b; if (keep_[77] != fill_) abort(); }
static void showt(const char* k, const Text& t) { printf("%s", k); for (int c : t) printf(" U+%04X", (unsigned)c); printf("\n"); }
#define CASE(describe, work) do { if (k.show != ~0ull) { if (k.n++ == k.show) { describe; return; } } else { dirty(); H h; work; k.put(h); } } while (0)
static void all(Sink& k) {
  for (int c = 0; c < 0x110000; c++) { if (c >= 0x30000 && c < 0xE0000 && c % 256 > 1 && !k.deep) continue; CASE(printf("lookups of U+%04X\n", c), codepoint(h, c)); }
  for (int b = 0; b < 32; b++) for (int d = -1; d < 2; d++) { int c = (int)((1ull << b) + d); CASE(printf("lookups of %d\n", c), codepoint(h, c)); }
  for (int a = -2; a < 0x11A00; a++) if (k.deep || a < 0x400 || (a >= 0x900 && a < 0xE00) || (a >= 0x1000 && a < 0x2000) || a % 28 < 2 || a >= 0x11000) for (int b : SECOND) CASE(printf("composing U+%04X with U+%04X\n", (unsigned)a, (unsigned)b), pair(h, a, b));
  { std::vector<int> m; for (int x : {0, 1, 2, 13, 0x61, 0x7F, 0x80, 0xFF, 0x100, 0x301, 0x7FF, 0x800, 0xD800, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF}) { m.push_back(x); m.push_back(-x); m.push_back(~x); } for (int b = 3; b < 31; b++) m.push_back(1 << b);
    for (int x : m) for (int y : m) CASE(printf("the values %d and %d\n", x, y), values(h, x, y)); }
  Text t; auto sym = [&](int L, int n) { uint64_t e = 1; for (int i = 0; i < L; i++) e *= n; for (uint64_t x = 0; x < e; x++) { t.clear(); uint64_t y = x; for (int i = 0; i < L; i++) { t.push_back(CPS[y % n]); y /= n; } CASE(showt("the text", t), text(h, t)); } };
  sym(0, 1); sym(1, NC); sym(2, NC); sym(3, k.deep ? NC : 14); if (k.deep) sym(4, 12);
  for (int a = 0; a < NC; a++) for (int b = 0; b < NC; b++) for (int n : {7, 8, 9, 15, 16, 17, 40}) { if (!k.deep && (a * NC + b) % 8) continue; t.assign(1, CPS[a]); for (int i = 0; i < n; i++) t.push_back(CPS[i % 3 == 2 ? (b + 1) % NC : b]); CASE(showt("the text", t), text(h, t)); }
  std::string s; for (int L = 0; L <= (k.deep ? 5 : 4); L++) { uint64_t e = 1; for (int i = 0; i < L; i++) e *= 14; for (uint64_t x = 0; x < e; x++) { s.clear(); uint64_t y = x; for (int i = 0; i < L; i++) { s.push_back((char)OCT[y % 14]); y /= 14; } CASE(printf("the octets"); for (unsigned char c : s) printf(" %02X", c); printf("\n"), octets(h, s)); } }
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { s.clear(); s.push_back((char)a); s.push_back((char)b); CASE(printf("the octets %02X %02X\n", a, b), octets(h, s)); }
}
int main(int argc, char** argv) {
  Sink k; k.deep = getenv("P01_DEEP") != nullptr;
  if (argc > 2 && !strcmp(argv[1], "--show")) { k.show = strtoull(argv[2], 0, 10); all(k); return 0; }
  if (argc != 6) return 3;
  static const int R[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  enum : uint64_t { CAP = Sink::CAP };
  int fd = open(argv[1], O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, (CAP + 1) * 8)) return 3;
  uint64_t* m = (uint64_t*)mmap(nullptr, (CAP + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m == MAP_FAILED) return 3;
  k.done = m; k.out = m + 1; fill_ = (unsigned char)atoi(argv[4]); align_ = atoi(argv[5]);
  if (!setlocale(LC_ALL, argv[3])) setlocale(LC_ALL, "C");
  fesetround(R[atoi(argv[2]) & 3]);
  all(k);
  if (ftruncate(fd, (k.n + 1) * 8)) return 3;
  return 0;
}
