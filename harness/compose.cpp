// C01: composing a text in place.
#include "storages.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;
// starters that compose, marks of several classes, Hangul, starters that compose with a preceding starter, excluded and plain ones
static const int AL[] = {0x61, 0x301, 0x323, 0x327, 0x1100, 0x1161, 0x11A8, 0x41, 0x302, 0x345, 0x9C7, 0x9BE, 0x62, 0x338, 0x3C9, 0x314, 0x342, 0xAC00, 0x65, 0x304B, 0x3099, 0x915, 0x93C, 0x1E63, 0x307, 0x11131, 0x11127, 0x34F, 0x3D, 0x1FBF, 0x300, 0xE2};
enum { NAL = sizeof AL / sizeof *AL };
static Text al(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(AL[v[i]]); ref::order(t); return t; }
static Text raw(const int* v, int n) { Text t(v, v + n); ref::order(t); return t; }
template <class Str> static void compose(Ctx& c, const Text& t, const Text& want, int n0, const char* what) {
  Str s(typename std::decay<decltype(Str().native_string)>::type(t.begin(), t.end())); int n = n0;
  auto e = u5e::canonical_composition(s, &n); Text got;
  for (auto i = s.codepoint_begin(); i != e; ++i) { if (got.size() > t.size()) fail("composing %s in place returns an end that is not in it", ref::show(t).c_str()); int v = *i; got.push_back(v); }
  if (got != want) fail("composing %s in place (%s) leaves %s instead of %s", ref::show(t).c_str(), what, ref::show(got).c_str(), ref::show(want).c_str());
  if (n != n0 + (int)(t.size() - want.size())) fail("composing %s in place takes the count from %d to %d, %zu codepoints were composed", ref::show(t).c_str(), n0, n, t.size() - want.size());
  c.step();
}
static void both(Ctx& c, const Text& t) {
  Text want = ref::compose_text(t);
  compose<u5e::utf32ne_string>(c, t, want, 0, "string"); compose<u5e::basic_encodedstring<u5e::utf32ne, std::vector<int>>>(c, t, want, 0, "vector");
  if (t.size() <= 3) compose<u5e::basic_encodedstring<u5e::utf32ne, std::u32string>>(c, t, want, 0, "char32_t string");
  c.state(); c.outcome(mc::hseq(want)); if (want != t) c.nontrivial();
}
int main(int argc, char** argv) {
  mc::Harness h;
  auto add = [&](int K, int L) { h.scopes.push_back(mc::seq_scope("ordered" + std::to_string(K) + "-" + std::to_string(L), K, L, [](Ctx& c, const int* v, int n) { both(c, al(v, n)); }, [](const int* v, int n) { return ref::show(al(v, n)); })); h.scopes.back().bound += ", each put in canonical order"; };
  for (int L = 0; L <= 4; L++) add(NAL, L);
  add(20, 5); add(12, 6); add(6, 8); if (thorough()) { add(NAL, 5); add(20, 6); add(12, 7); add(8, 8); add(5, 11); }
  // every pair of the database, alone, between starters and behind another composition
  std::vector<std::pair<int, int>> pairs; for (auto& d : ref::dec_rows) if (d.n == 2 && !d.compat) pairs.push_back({d.m[0], d.m[1]});
  h.scopes.push_back(mc::list_scope("pairs", "every canonical pair of the database, after and before each of 12 codepoints, and with a mark between", pairs.size(), [pairs](Ctx& c, uint64_t t) {
      for (int k = -1; k < 12; k++) for (int m = 0; m < 3; m++) { int v[4] = {pairs[t].first, pairs[t].second, k, m}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { Text t; if (v[2] >= 0 && v[3] == 0) t.push_back(AL[v[2]]); t.push_back(v[0]); if (v[2] >= 0 && v[3] == 1) t.push_back(AL[v[2]]); t.push_back(v[1]); if (v[2] >= 0 && v[3] == 2) t.push_back(AL[v[2]]); ref::order(t); both(c, t); },
    [](const int* v, int) { int w[3] = {v[0], v[1], v[2] < 0 ? 0x20 : AL[v[2]]}; return ref::show(raw(w, 3)); }, (uint64_t)pairs.size() * 13 * 3));
  // long texts: many starters, long runs of marks
  h.scopes.push_back(mc::list_scope("long", "X (Y Z)^k for all X, Y, Z of 16 codepoints, k up to 19, 26, 33, 40, and powers of two +-1 and 1000 for 6 of them", 16 * 16, [](Ctx& c, uint64_t t) {
      for (int z = 0; z < 16; z++) for (int k = 2; k <= 40; k += k < 20 ? 1 : 7) { int v[4] = {(int)t / 16, (int)t % 16, z, k}; if (!c.go(v, 4)) return; }
      if (t / 16 < 6) for (int z = 0; z < 16; z++) for (int k : {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}) { int v[4] = {(int)t / 16, (int)t % 16, z, k}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { Text t{AL[v[0]]}; for (int i = 0; i < v[3]; i++) { t.push_back(AL[v[1]]); t.push_back(AL[v[2]]); } ref::order(t); both(c, t); },
    [](const int* v, int) { int w[3] = {v[0], v[1], v[2]}; return std::to_string(v[3]) + " times in " + ref::show(al(w, 3)); }));
  return run_harness(h, argc, argv);
}
