// U06: every operation on any octet buffer that the bounds check accepts, well-formed or not.
#include "common.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;
typedef std::string S8;
typedef u5e::utf8_string_view V; typedef V::const_iterator It; typedef u5e::utf8_string_view_grapheme_iterator GI;
static Guard& G() { static Guard g; return g; }
static const unsigned char OCT[] = {0x61, 0x80, 0xC3, 0xE2, 0xF0, 0xCC, 0xBF, 0xF8, 0xFC, 0xFE, 0xFF, 0x0D, 0x9F, 0xE1, 0x84, 0x00};
static S8 octs(const int* v, int n) { S8 s; for (int i = 0; i < n; i++) s += (char)OCT[v[i]]; return s; }

static const char* show(const S8& s) { static S8 h; h = ref::hex(s); return h.c_str(); }
template <class F> static void form(Ctx& c, const S8& s, V& v, F f, const char* name) {
  u5e::utf8_string o8; u5e::utf32ne_string o32; size_t n = 0;
  for (GI i = v.grapheme_begin(), e = v.grapheme_end(); i != e; ++i) { if (n++ > s.size()) fail("form %s of %s does not end", name, show(s)); f(*i, o8); f(*i, o32); }
  c.step();
}
static void run_case(Ctx& c, const S8& s) {
  size_t n = s.size();
  for (int side = 0; side < 2; side++) {
    char* p = side ? G().left(s.data(), n) : G().right(s.data(), n);
    if (!u5e::utf8_bounds<const char*>::check(p, p + n)) { c.outcome(1000 + n); return; }
    V v(u8view(p, n)); It b = v.codepoint_cbegin(), e = v.codepoint_cend(); size_t k = 0;
    for (It i = b; i != e; ++i) { if (k++ >= n) fail("walking forward over %s does not end after %zu steps", show(s), n); int x = *i; (void)x; c.step(); }
    size_t fw = k; k = 0; for (It i = b; i != e; i++) if (k++ >= n) fail("walking forward over %s without reading does not end", show(s));
    if (k != fw) fail("walking over %s takes %zu steps with reading and %zu without", show(s), fw, k);
    k = 0;
    for (It i = e; i != b;) { if (k++ >= n) fail("walking backward over %s does not end after %zu steps", show(s), n); --i; int x = *i; (void)x; c.step(); }
    std::vector<It> at; for (size_t o = 0; o <= n; o++) at.push_back(It(v.native_cbegin() + o));
    for (size_t o = 0; o <= n; o++) {
      for (size_t q = 0; q <= n; q++) { bool x = at[o] == at[q], y = at[q] == at[o]; if (x != y || (at[o] != at[q]) == x) fail("the positions %zu and %zu of %s do not compare consistently", o, q, show(s)); }
      if (o < n) { It i = at[o], j = at[o]; int x = *i, y = *i; if (x != y || !(i == at[o])) fail("reading at octet %zu of %s twice gives %X and %X or moves", o, show(s), x, y); ++i; ++j; if (!(i == j) || i == at[o]) fail("a step from octet %zu of %s depends on reading first, or goes nowhere", o, show(s)); c.step(2);
        k = 0; for (i = at[o]; i != e; i++) if (k++ >= n) fail("walking from octet %zu of %s does not end", o, show(s)); }
      { It i = at[o]; k = 0; while (i != b) { if (k++ >= n) fail("walking back from octet %zu of %s does not end", o, show(s)); i--; } }
      u5e::utf8_string t; t.append<u8view>(b, at[o]); if (t.native_string.size() > n || t.native_string != s.substr(0, t.native_string.size())) fail("truncating %s at octet %zu gives %zu octets that are not its beginning", show(s), o, t.native_string.size());
      if (o == n && t.native_string != s) fail("appending all of %s gives %zu octets", show(s), t.native_string.size());
      GI g(b, e, at[o]); GI z = v.grapheme_end(); k = 0;
      { auto x = *g; size_t m = 0; for (It i = x.codepoint_begin(); i != x.codepoint_end(); ++i) if (m++ > n) fail("the grapheme found from octet %zu of %s has no end", o, show(s)); }
      for (; g != z; ++g) if (k++ > n) fail("iterating graphemes from octet %zu of %s does not end", o, show(s));
      c.step(5);
    }
    if (!side && n) {   // the iterator that can write, used for reading
      typedef u5e::utf8_iterator<char*> M; M mb(p), me(p + n); k = 0;
      for (M i = mb; i != me; ++i) { if (k++ >= n) fail("walking a mutable iterator over %s does not end", show(s)); c.step(); }
      if (k != fw) fail("the mutable iterator takes %zu steps over %s, the other %zu", k, show(s), fw);
      k = 0; for (M i = me; i != mb; --i) if (k++ >= n) fail("walking a mutable iterator back over %s does not end", show(s));
      u5e::utf8_string own(s); k = 0; for (auto i = own.codepoint_begin(), z = own.codepoint_end(); i != z; i++) if (k++ >= n) fail("walking a string of %s does not end", show(s));
      if (k != fw || own.native_string != s) fail("walking a string of %s takes %zu steps, a view %zu", show(s), k, fw);
    }
    k = 0; for (GI i = v.grapheme_begin(), z = v.grapheme_end(); i != z; i++) if (k++ >= n) fail("iterating the graphemes of %s does not end", show(s));
    typedef u5e::basic_grapheme<V> Gr;
    form(c, s, v, [](Gr g, auto& o) { return u5e::normalization_form_d(g, o); }, "D"); form(c, s, v, [](Gr g, auto& o) { return u5e::normalization_form_c(g, o); }, "C");
    if (!side) { form(c, s, v, [](Gr g, auto& o) { return u5e::normalization_form_kd(g, o); }, "KD"); form(c, s, v, [](Gr g, auto& o) { return u5e::normalization_form_kc(g, o); }, "KC"); }
    if (memcmp(p, s.data(), n)) fail("the operations changed the buffer %s", show(s));
    c.outcome(n * 64 + fw * 8 + k);
  }
  c.state(); if (n) c.nontrivial();
}
static S8 lead(const int* v) { static const unsigned char L[] = {0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF}, A[] = {0x61, 0xBF, 0xC3, 0x80, 0x8F}; S8 s; if (v[0] % 2) s += 'a'; s += (char)L[v[0] / 2]; for (int i = 0, m = v[3]; i < v[2]; i++, m /= v[1]) s += (char)A[m % v[1]]; return s; }
int main(int argc, char** argv) {
  mc::Harness h;
  auto add = [&](int K, int L) { h.scopes.push_back(mc::seq_scope("octets" + std::to_string(K) + "-" + std::to_string(L), K, L, [](Ctx& c, const int* v, int n) { run_case(c, octs(v, n)); }, [](const int* v, int n) { return ref::hex(octs(v, n)); })); };
  for (int L = 0; L <= (thorough() ? 6 : 5); L++) add(16, L);
  for (int L = 6; L <= (thorough() ? 8 : 7); L++) add(8, L);
  add(4, thorough() ? 11 : 9); add(3, thorough() ? 13 : 10);
  h.scopes.push_back(mc::list_scope("long", std::string("octets X Y Z Y Z ..., X Y Z from 16, 17, 33, 64, 65") + (thorough() ? ", 128, 129, 257, 513" : ", 130, 257") + " octets", 256, [](Ctx& c, uint64_t t) {
      std::vector<int> L = {17, 33, 64, 65, 130, 257}; if (thorough()) L = {17, 33, 64, 65, 128, 129, 257, 513};
      for (int x = 0; x < 16; x++) for (int n : L) { int v[4] = {x, (int)t / 16, (int)t % 16, n}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { S8 s; for (int i = 0; i < v[3]; i++) s += (char)OCT[i ? v[1 + i % 2] : v[0]]; run_case(c, s); },
    [](const int* v, int) { char b[80]; snprintf(b, sizeof b, "%02X then %02X %02X ..., %d octets", OCT[v[0]], OCT[v[2]], OCT[v[1]], v[3]); return std::string(b); }));
  // leading octets that announce five to eight octets
  h.scopes.push_back(mc::list_scope("long-leads", "a or nothing, F8 FB FC FD FE FF, then all sequences of 7 of 61 80 BF C3 8F and of 8 of 61 BF C3", 12, [](Ctx& c, uint64_t t) {
      for (int m = 0; m < 78125; m++) { int v[4] = {(int)t, 5, 7, m}; if (!c.go(v, 4)) return; } for (int m = 0; m < 6561; m++) { int v[4] = {(int)t, 3, 8, m}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { run_case(c, lead(v)); }, [](const int* v, int) { return ref::hex(lead(v)); }));
  // all octets
  for (int L = 1; L <= (thorough() ? 3 : 2); L++) h.scopes.push_back(mc::seq_scope("all-octets-" + std::to_string(L), 256, L, [](Ctx& c, const int* v, int n) { S8 s; for (int i = 0; i < n; i++) s += (char)v[i]; run_case(c, s); }, [](const int* v, int n) { S8 s; for (int i = 0; i < n; i++) s += (char)v[i]; return ref::hex(s); }));
  return run_harness(h, argc, argv);
}
