// E02: encodings of the client's own, plugged into basic_encodedstring with nothing but the documented iterator and
// const_iterator templates, give what the library's encodings give.
#include <deque>
#include "common.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;

// what all the iterators below have in common: D provides next, prev, read and same
template <class D> struct Steps {
  typedef u5e::codepoint value_type; typedef u5e::codepoint reference; typedef std::ptrdiff_t difference_type; typedef const u5e::codepoint* pointer; typedef std::bidirectional_iterator_tag iterator_category;
  D& me() { return static_cast<D&>(*this); } const D& me() const { return static_cast<const D&>(*this); }
  D& operator++() { me().next(); return me(); } D operator++(int) { D o(me()); me().next(); return o; }
  D& operator--() { me().prev(); return me(); } D operator--(int) { D o(me()); me().prev(); return o; }
  u5e::codepoint operator*() const { return u5e::codepoint(me().read()); }
  friend bool operator==(const D& a, const D& b) { return a.same(b); } friend bool operator!=(const D& a, const D& b) { return !a.same(b); }
};

// UTF-16 in 16-bit units, surrogate pairs
template <class N> struct It16 : Steps<It16<N>> {
  N i; It16() : i() {} It16(N n) : i(n) {}
  static bool low(unsigned u) { return (u & 0xFC00) == 0xDC00; } static bool high(unsigned u) { return (u & 0xFC00) == 0xD800; }
  void next() { bool h = high((unsigned)*i & 0xFFFF); ++i; if (h) ++i; } void prev() { --i; if (low((unsigned)*i & 0xFFFF)) --i; }
  int read() const { unsigned u = (unsigned)*i & 0xFFFF; if (!high(u)) return u; N j = i; ++j; return 0x10000 + ((u & 0x3FF) << 10) + ((unsigned)*j & 0x3FF); }
  bool same(const It16& o) const { return i == o.i; }
};
struct Utf16 { template <class S> using iterator = It16<typename S::iterator>; template <class S> using const_iterator = It16<typename S::const_iterator>;
  typedef std::u16string Nat; static const char* name() { return "UTF-16"; } static bool holds(int c) { return c >= 0 && c < 0x110000 && (c & 0xFFFFF800) != 0xD800; }
  template <class S> static void put(S& s, int c) { if (c < 0x10000) s.push_back((char16_t)c); else { s.push_back((char16_t)(0xD800 + ((c - 0x10000) >> 10))); s.push_back((char16_t)(0xDC00 + (c & 0x3FF))); } } };
struct Utf16Vector : Utf16 { typedef std::vector<unsigned short> Nat; static const char* name() { return "UTF-16 in a vector"; } };
struct Utf16View : Utf16 { typedef std::experimental::u16string_view Nat; static const char* name() { return "a view of UTF-16"; } };

// UTF-32, most significant octet first, in octets
template <class N> struct It32be : Steps<It32be<N>> {
  N i; It32be() : i() {} It32be(N n) : i(n) {}
  void next() { i += 4; } void prev() { i -= 4; } int read() const { N j = i; unsigned v = 0; for (int k = 0; k < 4; k++, ++j) v = v << 8 | (unsigned char)*j; return (int)v; } bool same(const It32be& o) const { return i == o.i; }
};
struct Utf32be { template <class S> using iterator = It32be<typename S::iterator>; template <class S> using const_iterator = It32be<typename S::const_iterator>;
  typedef std::string Nat; static const char* name() { return "UTF-32BE octets"; } static bool holds(int) { return true; }
  template <class S> static void put(S& s, int c) { for (int k = 3; k >= 0; k--) s.push_back((char)((unsigned)c >> (8 * k))); } };
struct Utf32beDeque : Utf32be { typedef std::deque<char> Nat; static const char* name() { return "UTF-32BE octets in a deque"; } };

// one octet per codepoint, by a table known at run time
static std::vector<int> page;
template <class N> struct ItPage : Steps<ItPage<N>> {
  N i; ItPage() : i() {} ItPage(N n) : i(n) {}
  void next() { ++i; } void prev() { --i; } int read() const { return page[(unsigned char)*i]; } bool same(const ItPage& o) const { return i == o.i; }
};
struct CodePage { template <class S> using iterator = ItPage<typename S::iterator>; template <class S> using const_iterator = ItPage<typename S::const_iterator>;
  typedef std::string Nat; static const char* name() { return "a code page"; }
  static int find(int c) { for (size_t i = 0; i < page.size(); i++) if (page[i] == c) return (int)i; return -1; } static bool holds(int c) { return find(c) >= 0; }
  template <class S> static void put(S& s, int c) { s.push_back((char)find(c)); } };

// runs: a codepoint and how often; the iterator has to remember where in the run it is
struct Run { int n, c; };
template <class N> struct ItRun : Steps<ItRun<N>> {
  N i; int k; ItRun() : i(), k(0) {} ItRun(N n) : i(n), k(0) {}
  void next() { if (++k == i->n) { ++i; k = 0; } } void prev() { if (k == 0) { --i; k = i->n; } --k; } int read() const { return i->c; } bool same(const ItRun& o) const { return i == o.i && k == o.k; }
};
struct Runs { template <class S> using iterator = ItRun<typename S::iterator>; template <class S> using const_iterator = ItRun<typename S::const_iterator>;
  typedef std::vector<Run> Nat; static const char* name() { return "runs"; } static bool holds(int) { return true; }
  template <class S> static void put(S& s, int c) { if (!s.empty() && s.back().c == c) s.back().n++; else s.push_back(Run{1, c}); } };

template <class E, class Nat> struct Hold { Nat n; void put(int c) { E::put(n, c); } const Nat& get() { return n; } };
template <class E, class C, class T> struct Hold<E, std::experimental::basic_string_view<C, T>> { std::basic_string<C> n; std::experimental::basic_string_view<C, T> v; void put(int c) { E::put(n, c); } const std::experimental::basic_string_view<C, T>& get() { v = n; return v; } };

struct Expect { Text t; std::vector<int> b; Text nf[4]; std::vector<int> counts[4]; };
static Expect expect(const Text& t) { Expect e; e.t = t; e.b = ref::bounds(t); static const int F[] = {ref::NFD, ref::NFC, ref::NFKD, ref::NFKC};
  for (int f = 0; f < 4; f++) for (size_t g = 0; g + 1 < e.b.size(); g++) { Text w = ref::nf((decltype(ref::NFD))F[f], Text(t.begin() + e.b[g], t.begin() + e.b[g + 1])); e.nf[f].insert(e.nf[f].end(), w.begin(), w.end()); e.counts[f].push_back((int)w.size()); }
  return e; }
template <class E> static void one(Ctx& c, const Expect& x) {
  const Text& t = x.t; for (int v : t) if (!E::holds(v)) return;
  typedef typename E::Nat Nat; typedef u5e::basic_encodedstring<E, Nat> Str; typedef typename Str::const_iterator It; typedef u5e::basic_grapheme_iterator<Str> GI;
  Hold<E, Nat> h; for (int v : t) h.put(v); Str s(h.get()); int n = (int)t.size();
  It b = s.codepoint_cbegin(), z = s.codepoint_cend();
  if (walk(b, z, n + 1) != t) fail("%s: the codepoints of %s are read as %s", E::name(), ref::show(t).c_str(), ref::show(walk(b, z, n + 1)).c_str());
  { std::reverse_iterator<It> r(z), e(b); Text got; for (; r != e && (int)got.size() <= n; ++r) { int v = *r; got.push_back(v); } if (got != Text(t.rbegin(), t.rend())) fail("%s: backwards, %s is read as %s", E::name(), ref::show(t).c_str(), ref::show(got).c_str()); }
  std::vector<It> at; { It i = b; at.push_back(i); for (int k = 0; k < n; k++) at.push_back(++i); }
  { size_t g = 0; for (GI i = s.grapheme_begin(); i != s.grapheme_end(); ++i, g++) { if (g + 1 >= x.b.size()) fail("%s: %s has more graphemes than %zu", E::name(), ref::show(t).c_str(), x.b.size() - 1); auto r = *i; if (r.codepoint_begin() != at[x.b[g]] || r.codepoint_end() != at[x.b[g + 1]]) fail("%s: grapheme %zu of %s is %s", E::name(), g, ref::show(t).c_str(), ref::show(walk(r.codepoint_begin(), r.codepoint_end(), n + 1)).c_str()); c.step(); }
    if (g + 1 != x.b.size() && !(n == 0 && g == 0)) fail("%s: %s has %zu graphemes", E::name(), ref::show(t).c_str(), g); }
  for (int k = 0, g = 0; k <= n; k++) { GI i(b, z, at[k]); while (g + 2 < (int)x.b.size() && x.b[g + 1] <= k) g++;
    auto r = *i; It wb = k == n ? z : at[x.b[g]], we = k == n ? z : at[x.b[g + 1]]; if (r.codepoint_begin() != wb || r.codepoint_end() != we) fail("%s: the grapheme at codepoint %d of %s is %s", E::name(), k, ref::show(t).c_str(), ref::show(walk(r.codepoint_begin(), r.codepoint_end(), n + 1)).c_str());
    if (!(i == at[k]) || (i == s.grapheme_end()) != (k == n)) fail("%s: the iterator made at codepoint %d of %s compares wrongly", E::name(), k, ref::show(t).c_str()); c.step(); }
  for (int f = 0; f < 4; f++) {
    u5e::utf32ne_string o; u5e::utf8_string o8; size_t g = 0;
    for (GI i = s.grapheme_begin(); i != s.grapheme_end(); i++, g++) { auto r = *i;
      int k = f == 0 ? u5e::normalization_form_d(r, o) : f == 1 ? u5e::normalization_form_c(r, o) : f == 2 ? u5e::normalization_form_kd(r, o) : u5e::normalization_form_kc(r, o);
      f == 0 ? u5e::normalization_form_d(r, o8) : f == 1 ? u5e::normalization_form_c(r, o8) : f == 2 ? u5e::normalization_form_kd(r, o8) : u5e::normalization_form_kc(r, o8);
      if (k != x.counts[f][g]) fail("%s: form %d of grapheme %zu of %s is counted as %d codepoints", E::name(), f, g, ref::show(t).c_str(), k); c.step(); }
    if (from32(o.native_string) != x.nf[f]) fail("%s: form %d of %s is %s", E::name(), f, ref::show(t).c_str(), ref::show(from32(o.native_string)).c_str());
    if (o8.native_string != ref::encode(x.nf[f])) fail("%s: form %d of %s in UTF-8 is %s", E::name(), f, ref::show(t).c_str(), ref::hex(o8.native_string).c_str());
  }
  { u5e::utf32ne_string o; Text w; for (int v : t) ref::decompose(v, true, w); int k = u5e::filter(b, z, o, u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>); if (k != (int)w.size() || from32(o.native_string) != w) fail("%s: decomposing %s through a filter gives %s", E::name(), ref::show(t).c_str(), ref::show(from32(o.native_string)).c_str()); }
  { Str q(s); It i = q.codepoint_cbegin(); if (walk(i, q.codepoint_cend(), n + 1) != t) fail("%s: a copy of %s is not equal to it", E::name(), ref::show(t).c_str()); Str r; r = s; if (walk(r.codepoint_cbegin(), r.codepoint_cend(), n + 1) != t) fail("%s: assigning %s", E::name(), ref::show(t).c_str()); }
  c.state(); c.outcome(mc::hseq(t)); if (n > 1) c.nontrivial();
}
static void every(Ctx& c, const Text& t) { Expect x = expect(t); one<Utf16>(c, x); one<Utf16Vector>(c, x); one<Utf16View>(c, x); one<Utf32be>(c, x); one<Utf32beDeque>(c, x); one<CodePage>(c, x); one<Runs>(c, x); }

static const int SY[] = {'a', 0x301, 0x323, 0x1100, 0x1161, 0x11A8, 0xAC00, 0x1F1E6, 0x0D, 0x0A, 0x200D, 0x261D, 0x1F3FB, 0x2764, 0x600, 0x903, 0x212B, 0xFB01, 0x1D15F, 0xE9, 0, 0x10FFFF, 0xE0020, 0x1F466};
enum { NSY = sizeof SY / sizeof *SY };
static Text text(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(SY[v[i]]); return t; }
int main(int argc, char** argv) {
  mc::Harness h; page.assign(SY, SY + NSY); for (int i = 0; page.size() < 256; i++) page.push_back(0x4E00 + i); std::rotate(page.begin(), page.begin() + 100, page.end());
  for (int L = 0; L <= (thorough() ? 5 : 4); L++) { int k = L <= 3 ? (int)NSY : L == 4 && thorough() ? 18 : 12; if (L == 5) k = 11;
    h.scopes.push_back(mc::seq_scope("texts-" + std::to_string(L), k, L, [](Ctx& c, const int* v, int n) { every(c, text(v, n)); }, [](const int* v, int n) { return ref::show(text(v, n)); })); }
  h.scopes.push_back(mc::range_scope("every-codepoint", 0, ref::MAXCP, [](Ctx& c, const int* v, int) { every(c, Text{v[0]}); if (ref::gcb(v[0]) || v[0] % 64 == 0) { every(c, Text{'a', v[0], 0x301}); every(c, Text{v[0], v[0]}); } }, [](const int* v, int) { return ref::show(Text(1, v[0])); }));
  h.scopes.push_back(mc::list_scope("long", "3 to 200 codepoints: one of 24, then two of 24 again and again", NSY * NSY, [](Ctx& c, uint64_t t) {
      for (int a = 0; a < NSY; a += thorough() ? 1 : 5) for (int n : {3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 200}) { int v[4] = {a, (int)t % NSY, (int)t / NSY, n}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { Text t{SY[v[0]]}; while ((int)t.size() < v[3]) t.push_back(SY[v[1 + t.size() % 2]]); every(c, t); }, [](const int* v, int) { return std::to_string(v[3]) + " codepoints: " + ref::show(Text{SY[v[0]], SY[v[2]], SY[v[1]]}) + ", the last two again and again"; }));
  return run_harness(h, argc, argv);
}
