// V01: codepoints are plain values.
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <type_traits>
#include <u5e/version.hpp>
#include "common.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;
typedef u5e::codepoint CP;

// usable in constant expressions
static constexpr CP K0, K1(0x10FFFF), K2 = K1;
static_assert(K0 == 0 && K1 == 0x10FFFF && K2 == K1 && 0x10FFFF == K2 && int(K1) == 0x10FFFF && !(K0 == K1), "constant codepoints");
static constexpr int assigned() { CP a, b('x'); a = b; b = 7; return a + b; }
static_assert(assigned() == 'x' + 7, "assignment in a constant expression");
static int kind(CP c) { switch (c) { case 'a': return 1; case 0x20AC: return 2; case -1: return 3; default: return 0; } }

static void one(Ctx& c, int x) {
  CP a(x), b = x, d, e; d = x; e = a; CP f(e);
  if (a.value != x || (int)a != x || b.value != x || d.value != x || e.value != x || f.value != x) fail("%08X does not keep its value", (unsigned)x);
  if (!(a == b) || !(a == x) || !(x == a) || a != b || a != x || x != a || a < b || a > b || !(a <= b) || !(a >= b)) fail("%08X does not compare equal to itself", (unsigned)x);
  unsigned y = (unsigned)x + 1; CP g((int)y); if (a == g || g == a || a == (int)y || (int)y == a || !(a != g) || !(x != g)) fail("%08X compares equal to the next value", (unsigned)x);
  CP& r = (d = (int)y); if (&r != &d || d.value != (int)y) fail("assigning %08X gives something else", y);
  CP& q = (d = a); if (&q != &d || d.value != x || a.value != x) fail("assigning a codepoint gives something else");
  if ((uint32_t)a != (uint32_t)x || (char32_t)a != (char32_t)x || (long long)a != x || !a != !x || (bool)a != (bool)x) fail("%08X converts to something else", (unsigned)x);
  c.step(8);
}
static std::vector<int> marks() {
  std::set<int> s; for (int x : std::initializer_list<int>{0, 1, 2, 3, 5, 10, 13, 'a', 0x7F, 0x80, 0xFF, 0x100, 0x301, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF}) { s.insert(x); s.insert(-x); s.insert(~x); }
  for (int i = 0; i < 32; i++) for (int j = i; j < 32; j++) { unsigned x = 1u << i | 1u << j; for (unsigned y : {x, ~x, x + 1, x - 1}) s.insert((int)y); }
  return std::vector<int>(s.begin(), s.end());
}
static const std::vector<int>& M() { static std::vector<int> m = marks(); return m; }
int main(int argc, char** argv) {
  mc::Harness h;
  // blocks of 2^16 values
  h.scopes.push_back(mc::list_scope("values", thorough() ? "all 2^32 ints" : "all ints from -2^25 to 2^25 and within 2^20 of the ends of the range", 512, [](Ctx& c, uint64_t t) {
      for (int k = 0; k < 128; k++) { int b = (int)t * 128 + k; int64_t lo = (int64_t)(b - 32768) << 16; if (!thorough() && (lo < -(1 << 25) || lo >= 1 << 25) && lo >= -2147483648ll + (1 << 20) && lo < 2147483648ll - (1 << 20)) continue; if (!c.go(&b, 1)) return; } },
    [](Ctx& c, const int* v, int) { int64_t lo = (int64_t)(v[0] - 32768) << 16; for (int i = 0; i < 65536; i++) one(c, (int)(lo + i)); c.state(); c.outcome(v[0]); c.nontrivial(); },
    [](const int* v, int) { char b[60]; snprintf(b, sizeof b, "ints %08X and the 65535 after it", (unsigned)((int64_t)(v[0] - 32768) << 16)); return std::string(b); }));
  int n = (int)M().size();
  h.scopes.push_back(mc::pair_scope("pairs", n, n, [](Ctx& c, const int* v, int) {
      int x = M()[v[0]], y = M()[v[1]]; CP a(x), b(y); const CP ca(x), cb(y);
      if ((a == b) != (x == y) || (ca == cb) != (x == y) || (a == y) != (x == y) || (x == b) != (x == y) || (a != b) != (x != y) || (a != y) != (x != y) || (x != b) != (x != y)) fail("%08X and %08X compare wrongly", (unsigned)x, (unsigned)y);
      if ((a < b) != (x < y) || (a > b) != (x > y) || (a <= b) != (x <= y) || (a >= b) != (x >= y) || (a < y) != (x < y) || (x < b) != (x < y) || std::less<CP>()(a, b) != (x < y) || std::equal_to<CP>()(a, b) != (x == y)) fail("%08X and %08X are ordered wrongly", (unsigned)x, (unsigned)y);
      std::swap(a, b); if (a.value != y || b.value != x) fail("swapping %08X and %08X goes wrong", (unsigned)x, (unsigned)y);
      a = b; b = y; if (a.value != x || b.value != y) fail("a copy of %08X changes with its source", (unsigned)x);
      c.state(); c.step(17); c.outcome((x < y) * 2 + (x == y)); c.nontrivial(); }, [](const int* v, int) { char b[60]; snprintf(b, sizeof b, "%08X %08X", (unsigned)M()[v[0]], (unsigned)M()[v[1]]); return std::string(b); }));
  h.scopes.push_back(mc::range_scope("uses", 0, n, [](Ctx& c, const int* v, int) {
      int x = M()[v[0]]; CP a(x); const CP z = CP(); if (z.value != 0 || CP().value != 0 || CP{} != 0) fail("a new codepoint is not U+0000");
      if (kind(a) != (x == 'a' ? 1 : x == 0x20AC ? 2 : x == -1 ? 3 : 0)) fail("%08X in a switch", (unsigned)x);
      std::map<CP, int> m; std::set<CP> s; for (int y : M()) { m[CP(y)] = y; s.insert(y); } if (m.size() != M().size() || s.size() != M().size() || m[a] != x || !s.count(x) || m.begin()->second != M().front()) fail("%08X as a key", (unsigned)x);
      std::vector<CP> w(M().rbegin(), M().rend()); std::sort(w.begin(), w.end()); if (!std::equal(w.begin(), w.end(), M().begin(), [](CP p, int q) { return p == q; }) || std::find(w.begin(), w.end(), a) == w.end() || std::count(w.begin(), w.end(), x) != 1) fail("%08X in a vector", (unsigned)x);
      CP arr[3] = {1, a, 3}; if (arr[0] != 1 || arr[1] != x || arr[2] != 3 || sizeof(CP) != 4) fail("an array with %08X", (unsigned)x);
      c.state(); c.step(6); c.outcome(v[0]); c.nontrivial(); }, [](const int* v, int) { char b[60]; snprintf(b, sizeof b, "%08X", (unsigned)M()[v[0]]); return std::string(b); }));
  h.scopes.push_back(mc::range_scope("version", 0, 1, [](Ctx& c, const int*, int) {
      namespace v = u5e::version; if (v::run_time::major != v::compile_time::major || v::run_time::minor != v::compile_time::minor || v::run_time::patch != v::compile_time::patch) fail("the library's version is %d.%d.%d, the headers' %d.%d.%d", v::run_time::major, v::run_time::minor, v::run_time::patch, v::compile_time::major, v::compile_time::minor, v::compile_time::patch);
      c.state(); c.step(3); c.outcome(1); }, [](const int*, int) { return std::string("the version of the headers and of the library"); }));
  return run_harness(h, argc, argv);
}
