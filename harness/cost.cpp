// W01: the work of every operation stays in proportion to the text it is about. The library and this file are compiled so
// that every basic block that is entered is counted; together with the octets allocated, copied and compared that is what an operation costs.
#include "storages.hpp"
#include <new>
using mc::Ctx; using mc::Scope; using mc::fail;

static volatile unsigned long blocks, octets;   // volatile: the compiler takes the calls it inserts for ones that change nothing here
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { blocks = blocks + 1; }
// what the C library does with whole blocks of memory
extern "C" {
void* __real_memmove(void*, const void*, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); wchar_t* __real_wmemmove(wchar_t*, const wchar_t*, size_t); wchar_t* __real_wmemcpy(wchar_t*, const wchar_t*, size_t); size_t __real_strlen(const char*);
void* __wrap_memmove(void* a, const void* b, size_t n) { octets = octets + n; return __real_memmove(a, b, n); }
void* __wrap_memcpy(void* a, const void* b, size_t n) { octets = octets + n; return __real_memcpy(a, b, n); }
void* __wrap_memset(void* a, int c, size_t n) { octets = octets + n; return __real_memset(a, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { octets = octets + n; return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { octets = octets + n; return __real_memchr(a, c, n); }
wchar_t* __wrap_wmemmove(wchar_t* a, const wchar_t* b, size_t n) { octets = octets + n * sizeof(wchar_t); return __real_wmemmove(a, b, n); }
wchar_t* __wrap_wmemcpy(wchar_t* a, const wchar_t* b, size_t n) { octets = octets + n * sizeof(wchar_t); return __real_wmemcpy(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); octets = octets + n; return n; }
}
void* operator new(size_t n) { octets = octets + n; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { octets = octets + n; return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

template <class F> static long cost(F f) { unsigned long b = blocks, o = octets; f(); return (long)(blocks - b) + (long)((octets - o) / 8); }
static bool measuring() { static bool m = getenv("U5E_COSTS") != nullptr; return m; }
static double most[64]; static const char* what_most[64];
static void within(Ctx& c, int slot, const char* what, long got, double units, double fixed, double each, const std::function<std::string()>& where) {
  c.step(); double lim = fixed + each * units;
  if (measuring()) { what_most[slot] = what; double r = got / lim; if (r > most[slot]) { most[slot] = r; fprintf(stderr, "COST %d %s: %ld for %g units, %.3f of the limit %s\n", slot, what, got, units, r, where().c_str()); } }
  if (got > lim) fail("%s costs %ld basic blocks for %g units, the limit is %.0f: %s", what, got, units, lim, where().c_str());
}
static volatile int sink;

// ---------------------------------------------------------------- whole texts
static long decomposed(const Text& t) { Text d; for (int v : t) ref::decompose(v, true, d); return (long)d.size(); }
enum { FORWARD, BACKWARD, GRAPHEMES, F_NFD, F_NFC, F_NFKD, F_NFKC, F_NFC8, APPEND, CONVERT, FILTER, COPY, TRUNCATE, WRITE, NOPS };
static const char* const opname[] = {"reading forward", "reading backward", "splitting into graphemes", "NFD", "NFC", "NFKD", "NFKC", "NFC in UTF-8", "appending", "converting to UTF-8", "decomposing", "copying", "truncating at the last codepoint", "writing"};
template <class G, class O> static void form(int f, G g, O& o) { f == F_NFD ? u5e::normalization_form_d(g, o) : f == F_NFC || f == F_NFC8 ? u5e::normalization_form_c(g, o) : f == F_NFKD ? u5e::normalization_form_kd(g, o) : u5e::normalization_form_kc(g, o); }
template <class S> struct Own { typedef u5e::utf8_string type; }; template <> struct Own<U32S> { typedef u5e::utf32ne_string type; }; template <> struct Own<U32V> { typedef u5e::utf32ne_string type; };
template <class St> static long whole(int op, St& s, const Text& t) {
  typedef typename St::GI GI; auto b = s.enc.codepoint_cbegin(), e = s.enc.codepoint_cend(); int n = (int)t.size();
  if (op == FORWARD) return cost([&] { for (auto i = b; i != e; ++i) sink = *i; });
  if (op == BACKWARD) return cost([&] { auto i = e; for (int k = 0; k < n; k++) { --i; sink = *i; } });
  if (op == GRAPHEMES) return cost([&] { GI z = s.enc.grapheme_end(); for (GI i = s.enc.grapheme_begin(); i != z; ++i) { auto g = *i; sink = g.codepoint_begin() == b; } });
  if (op >= F_NFD && op <= F_NFKC) return cost([&] { u5e::utf32ne_string o; GI z = s.enc.grapheme_end(); for (GI i = s.enc.grapheme_begin(); i != z; ++i) form(op, *i, o); });
  if (op == F_NFC8) return cost([&] { u5e::utf8_string o; GI z = s.enc.grapheme_end(); for (GI i = s.enc.grapheme_begin(); i != z; ++i) form(op, *i, o); });
  if (op == APPEND) { typename Own<St>::type o; return cost([&] { for (int k = 0; k < 3; k++) o.template append<typename St::Nat>(b, e); }); }
  if (op == CONVERT) { u32str u = to32(t); u5e::utf32ne_string w(u); return cost([&] { u5e::utf8_string o; o.append_from_utf32ne<u32str>(w.codepoint_cbegin(), w.codepoint_cend()); }); }
  if (op == FILTER) return cost([&] { u5e::utf32ne_string o; u5e::filter(b, e, o, u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>); });
  if (op == COPY) return cost([&] { typename St::Enc x(s.enc); typename St::Enc y; y = x; auto i = y.codepoint_cbegin(); GI g = y.grapheme_begin(), h(g); g = h; sink = i == y.codepoint_cend(); });
  if (op == TRUNCATE) { if (!n) return 0; auto last = e; --last; typename Own<St>::type o; return cost([&] { GI f(b, e), g(b, e, last); o.append(f, g); }); }
  std::string buf(6 * n + 1, 'x'); return cost([&] { u5e::utf8_iterator<std::string::iterator> i(buf.begin()); for (int v : t) { *i = v; i++; } });
}
// once, and per unit (codepoint read or written): six to ten times what is needed
static const double FIXED = 2000, EACH[NOPS] = {160, 120, 1300, 1300, 1500, 1300, 1500, 1600, 250, 120, 500, 1100, 3500, 120};
template <class St> static void wholes(Ctx& c, const Text& t) {
  St s(t); double u = (double)t.size(), d = (double)decomposed(t) + u; 
  for (int op = 0; op < NOPS; op++) within(c, op, opname[op], whole(op, s, t), (op >= F_NFD && op <= F_NFC8) || op == FILTER ? d : u, FIXED, EACH[op], [&] { return std::string(St::name()) + " " + ref::show(t); });
}

// ---------------------------------------------------------------- a place in a text
template <class St> static void place(Ctx& c, const Text& mid, int filler, int k) {
  Text t(k, filler); t.insert(t.end(), mid.begin(), mid.end()); t.insert(t.end(), k, filler); St s(t); std::vector<int> off = St::offsets(t);
  typedef typename St::GI GI; auto b = s.enc.codepoint_cbegin(), e = s.enc.codepoint_cend(); int n = (int)t.size(), m = (int)mid.size();
  auto where = [&] { return std::string(St::name()) + ": " + ref::show(mid) + " between " + std::to_string(k) + " times " + ref::show(Text{filler}) + " before and after"; };
  for (int p = k > 0 ? k - 1 : 0; p <= k + m && p < n; p++) {
    auto i = s.at(off[p]), j = i; within(c, 20, "reading a codepoint", cost([&] { sink = *i; }), 1, 0, 80, where);
    within(c, 21, "going to the next codepoint", cost([&] { ++j; }), 1, 0, 80, where); auto x = j; within(c, 22, "going to the previous codepoint", cost([&] { --x; }), 1, 0, 80, where);
    within(c, 23, "comparing codepoint positions", cost([&] { sink = (i == j) + (i != b) + (j == e) + (e != i) + (b == j); }), 5, 0, 100, where);
    for (int o = off[p]; o < off[p + 1]; o++) {
      GI g(b, e, e); within(c, 24, "finding a grapheme", cost([&] { g = GI(b, e, s.at(o)); }), m + 3, 1000, 1900, where);
      within(c, 25, "reading a grapheme", cost([&] { auto r = *g; sink = r.codepoint_begin() == r.codepoint_end(); }), m + 3, 500, 100, where);
      within(c, 26, "comparing graphemes with the end", cost([&] { sink = g == s.enc.grapheme_end(); }), m + 3, 1500, 250, where);
      within(c, 27, "going to the next grapheme", cost([&] { ++g; }), m + 3, 1000, 800, where);
    }
  }
}
static void bounds_cost(Ctx& c, const int* v, int) {
  static const unsigned char F[] = {'a', 0x80, 0xE2, 0xFF}; std::string s((size_t)v[1], (char)F[v[0]]); if (v[1]) s[0] = 'a'; static const unsigned char E[] = {'a', 0x80, 0xC3, 0xE2, 0xF0, 0xFF}; if (v[1] > 1) s.back() = (char)E[v[2]];
  auto where = [&] { return std::to_string(v[1]) + " octets " + ref::hex(std::string(1, (char)F[v[0]])) + ", then " + ref::hex(std::string(1, (char)E[v[2]])); };
  typedef u5e::utf8_bounds<std::string::iterator> B; within(c, 30, "the bounds check", cost([&] { sink = B::check(s.begin(), s.end()); }), 1, 0, 200, where); within(c, 31, "enforcing the bounds", cost([&] { sink = B::enforce(s.begin(), s.end()); }), 1, 0, 300, where);
  c.state(); c.outcome(mc::hseq(std::vector<int>(v, v + 3)));
}
static void lookups(Ctx& c, int v) {
  auto where = [&] { return "U+" + ref::show(Text{v}); }; int r = 0;
  within(c, 32, "looking up a combining class", cost([&] { sink = u5e::props::canonical_combining_class::resolve(v); }), 1, 0, 350, where);
  within(c, 33, "looking up a break class", cost([&] { sink = (int)u5e::props::grapheme_cluster_break::resolve(v); }), 1, 0, 350, where);
  within(c, 34, "looking up a canonical mapping", cost([&] { sink = !!u5e::props::canonical_decomposition_mapping::resolve(v); }), 1, 0, 350, where);
  within(c, 35, "looking up a compatibility mapping", cost([&] { sink = !!u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(v); }), 1, 0, 350, where);
  for (int m : {0x301, 0x338, 0x3099, 0x1161, 0x11A8, 0x61, v}) { within(c, 36, "looking up a composition", cost([&] { sink = u5e::props::canonical_composition_mapping::resolve(v, m, &r) + u5e::props::canonical_composition_mapping::resolve(m, v, &r); }), 2, 0, 400, where); }
  u5e::utf32ne_string o; o.native_string.reserve(64); within(c, 37, "decomposing a codepoint", cost([&] { u5e::canonical_decomposition(v, o); u5e::compatibility_and_canonical_decomposition(v, o); }), 20, 300, 60, where);
  char b[8] = {}; within(c, 38, "writing a codepoint", cost([&] { u5e::utf8_iterator<char*> i(b); *i = v; }), 1, 0, 100, where);
  c.state(); c.outcome((uint64_t)r);
}

static const int SY[] = {'a', 0x301, 0x323, 0x1100, 0x1161, 0x11A8, 0xAC00, 0x1F1E6, 0x0D, 0x200D, 0x261D, 0x1F3FB, 0x600, 0x903, 0x212B, 0xFB01, 0x1D15F, 0xE9, 0x0A, 0xFDFA, 0x10FFFF, 0x344, 0x9C7, 0x9BE, 0x3099, 0x304B};
enum { NSY = sizeof SY / sizeof *SY };
static const int FILL[] = {'a', 0xE9, 0x4E00, 0x10000, 0x0A, 0xAC00};
static Text text(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(SY[v[i]]); return t; }
// X (Y Z)^k: what it costs for n, 2n and 4n codepoints
static Text pattern(const int* v, int n) { Text t{SY[v[0]]}; while ((int)t.size() < n) t.push_back(SY[v[1 + t.size() % 2]]); return t; }
template <class St> static void growth(Ctx& c, const int* v, int top) {
  Text a = pattern(v, top / 2), b = pattern(v, top); St s(a), w(b); double d = (double)decomposed(b) + top;
  for (int op = 0; op < NOPS; op++) {
    long x = whole(op, s, a), y = whole(op, w, b); auto where = [&] { return std::string(St::name()) + ", " + std::to_string(top) + " codepoints: " + ref::show(Text{SY[v[0]], SY[v[2]], SY[v[1]]}) + ", the last two again and again"; };
    within(c, 40 + op, opname[op], y, (op >= F_NFD && op <= F_NFC8) || op == FILTER ? d : top, FIXED, EACH[op] * 2, where);
    if (y > 2.8 * x + 4000) fail("%s costs %ld for %d codepoints and %ld for twice as many: %s", opname[op], x, top / 2, y, where().c_str());
  }
}

// tables that are made when they are first needed are not counted
static void warm_up() {
  for (int v = 0; v < 0x110000; v += 16) { int r; u5e::props::canonical_combining_class::resolve(v); u5e::props::grapheme_cluster_break::resolve(v); u5e::props::canonical_decomposition_mapping::resolve(v); u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(v); u5e::props::canonical_composition_mapping::resolve(v, 0x301, &r); u5e::props::canonical_composition_mapping::resolve('a', v, &r); }
  Text t(SY, SY + NSY); U8S a(t); U8V b(t); U32S c(t); U32V d(t); for (int op = 0; op < NOPS; op++) { whole(op, a, t); whole(op, b, t); whole(op, c, t); whole(op, d, t); }
}

int main(int argc, char** argv) {
  mc::Harness h; warm_up();
  h.scopes.push_back(mc::range_scope("every-codepoint", 0, ref::MAXCP + 0x1000, [](Ctx& c, const int* v, int) { lookups(c, v[0]); }, [](const int* v, int) { return ref::show(Text{v[0]}); }));
  for (int L = 0; L <= (thorough() ? 5 : 4); L++) h.scopes.push_back(mc::seq_scope("texts-" + std::to_string(L), L <= 3 ? (int)NSY : thorough() ? (L == 4 ? 20 : 12) : 14, L, [](Ctx& c, const int* v, int n) {
      Text t = text(v, n); wholes<U8S>(c, t); wholes<U32S>(c, t); if (n <= 3) { wholes<U8V>(c, t); wholes<U32V>(c, t); } c.state(); c.outcome(mc::hseq(t)); if (n > 1) c.nontrivial(); }, [](const int* v, int n) { return ref::show(text(v, n)); }));
  for (int L = 0; L <= (thorough() ? 4 : 3); L++) h.scopes.push_back(mc::list_scope("places-" + std::to_string(L), "every place of every text of " + std::to_string(L) + " of 14 codepoints in the middle of 0, 100 or 1000 on either side of one of 6", L < 3 ? 18 : 18 * 14, [L](Ctx& c, uint64_t t) {
      int N = 1; for (int i = 0; i < L - (L >= 3); i++) N *= 14; for (int x = 0; x < N; x++) { int v[6] = {(int)t % 6, (int)(t / 6 % 3), 0, 0, 0, 0}; int y = x; for (int i = 0; i < L - (L >= 3); i++) { v[2 + i] = y % 14; y /= 14; } if (L >= 3) v[1 + L] = (int)t / 18; if (!c.go(v, 2 + L)) return; } },
    [](Ctx& c, const int* v, int n) { static const int K[] = {0, 100, 1000}; Text m = text(v + 2, n - 2); place<U8S>(c, m, FILL[v[0]], K[v[1]]); place<U32V>(c, m, FILL[v[0]], K[v[1]]); c.state(); c.outcome(mc::hseq(m, v[0] * 3 + v[1])); c.nontrivial(); },
    [](const int* v, int n) { return ref::show(text(v + 2, n - 2)) + " within " + ref::show(Text{FILL[v[0]]}) + ", " + std::to_string(v[1]); }));
  h.scopes.push_back(mc::list_scope("bounds", "buffers of 0 to 300 octets, and of 10^4 and 10^5, of 4 octets, 6 last octets", 303, [](Ctx& c, uint64_t t) { for (int f = 0; f < 4; f++) for (int e = 0; e < 6; e++) { int v[3] = {f, t == 301 ? 10000 : t == 302 ? 100000 : (int)t, e}; if (!c.go(v, 3)) return; } }, bounds_cost,
    [](const int* v, int) { return std::to_string(v[1]) + " octets"; }));
  int top = thorough() ? 8192 : 2048;
  h.scopes.push_back(mc::list_scope("growth", "X, then Y Z again and again, of 26 codepoints (X of 6): " + std::to_string(top / 2) + " codepoints and twice as many", NSY * NSY, [](Ctx& c, uint64_t t) { for (int x : {0, 1, 3, 7, 10, 12}) { int v[3] = {x, (int)t % NSY, (int)t / NSY}; if (!c.go(v, 3)) return; } },
    [top](Ctx& c, const int* v, int) { growth<U8S>(c, v, top); growth<U32S>(c, v, top); c.state(); c.outcome(mc::hseq(std::vector<int>(v, v + 3))); c.nontrivial(); }, [](const int* v, int) { return ref::show(Text{SY[v[0]], SY[v[2]], SY[v[1]]}) + ", the last two again and again"; }));
  static const int LARGE[] = {0, 1, 2, 3, 7, 9, 14, 24};   // of SY: a, 0301, 0323, 1100, a regional indicator, ZWJ, 212B, 3099
  h.scopes.push_back(mc::list_scope("large-growth", "a, then Y Z again and again, of 8 codepoints: 32768 codepoints and twice as many", 64, [](Ctx& c, uint64_t t) { int v[3] = {0, LARGE[t % 8], LARGE[t / 8]}; c.go(v, 3); },
    [](Ctx& c, const int* v, int) { growth<U8S>(c, v, 65536); growth<U32S>(c, v, 65536); c.state(); c.outcome(mc::hseq(std::vector<int>(v, v + 3))); c.nontrivial(); }, [](const int* v, int) { return ref::show(Text{SY[v[0]], SY[v[2]], SY[v[1]]}) + ", the last two again and again"; }));
  return run_harness(h, argc, argv);
}
