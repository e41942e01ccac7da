// H01: nothing the library computes depends on what was computed before.
#include "storages.hpp"
#include <u5e/utf8_bounds.hpp>
#include <u5e/canonical_composition.hpp>
#include <u5e/canonical_combining_order.hpp>
using mc::Ctx; using mc::Scope; using mc::fail;

// ---------------------------------------------------------------- lookups
enum { F_GCB, F_CCC, F_CD, F_KD, F_COMP, NF };
static const char* const fname[] = {"grapheme break", "combining class", "canonical decomposition", "compatibility decomposition", "composition"};
struct Call { int f, a, b; };
static std::string show_call(const Call& k) { char b[99]; snprintf(b, sizeof b, k.f == F_COMP ? "%s(%04X, %04X)" : "%s(%04X)", fname[k.f], (unsigned)k.a, (unsigned)k.b); return b; }
static std::vector<int> arr(int const* p) { std::vector<int> r; if (!p) { r.push_back(-1); return r; } while (*p && r.size() < 64) r.push_back(*p++); return r; }
static std::vector<int> call(const Call& k) {
  using namespace u5e::props;
  switch (k.f) {
    case F_GCB: return {(int)grapheme_cluster_break::resolve(k.a)};
    case F_CCC: return {canonical_combining_class::resolve(k.a)};
    case F_CD: return arr(canonical_decomposition_mapping::resolve(k.a));
    case F_KD: return arr(compatibility_and_canonical_decomposition_mapping::resolve(k.a));
    default: { int r = -77; bool y = canonical_composition_mapping::resolve(k.a, k.b, &r); return {y, r}; }
  }
}
// The first answer ever given, each from a process that had made no call before. (Whether it is the right answer is for
// G01, D01-D03 to say.) Shared with the workers, which are forked afterwards.
struct Fresh { std::vector<Call> calls; std::vector<std::vector<int>> want; };
static Fresh fresh(const std::vector<Call>& calls) {
  Fresh r; r.calls = calls; r.want.resize(calls.size());
  const int SLOT = 72; int* sh = (int*)mmap(nullptr, (calls.size() + 1) * SLOT * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // one process per worker and call: fork only, nothing of the library runs in this process
  std::vector<pid_t> ps; int jobs = 8;
  for (int j = 0; j < jobs; j++) { pid_t p = fork(); if (!p) { for (size_t i = j; i < calls.size(); i += jobs) { pid_t q = fork(); if (!q) { std::vector<int> v = call(calls[i]); int* s = sh + i * SLOT; s[0] = (int)v.size(); memcpy(s + 1, v.data(), v.size() * 4); _exit(0); } int st; waitpid(q, &st, 0); } _exit(0); } ps.push_back(p); }
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
  for (size_t i = 0; i < calls.size(); i++) { int* s = sh + i * SLOT; r.want[i].assign(s + 1, s + 1 + s[0]); if (!s[0]) r.want[i] = {-999}; }
  munmap(sh, (calls.size() + 1) * SLOT * 4);
  return r;
}
static std::vector<Call> small_calls() {
  std::vector<Call> r;
  static const int A[] = {0, 0x41, 0x61, 0xA0, 0xE9, 0x300, 0x301, 0x323, 0x344, 0x345, 0x600, 0x903, 0x1100, 0x1161, 0x11A8, 0x200D, 0x212B, 0x2007, 0xAC00, 0xAC01, 0xD7A3, 0xFB01, 0xFDFA, 0x1D15F, 0x1F1E6, 0x1F3FB, 0x2F800, 0x2FA1D, 0xE0001, 0x10FFFF, 0x110000, -1, 0x0D, 0x0A, 0x4E00, 0x1E69};
  for (int f = 0; f < F_COMP; f++) for (int a : A) r.push_back({f, a, 0});
  static const int B[][2] = {{0x61, 0x301}, {0x61, 0x323}, {0x65, 0x301}, {0x301, 0x61}, {0x1100, 0x1161}, {0xAC00, 0x11A8}, {0xAC01, 0x11A8}, {0, 0}, {-1, -1}, {0x9C7, 0x9BE}, {0x9C7, 0x9D7}, {0x61, 0x62}, {0x1EA1, 0x302}, {0x110000, 0x301}, {0x41, 0x300}, {0x30B3, 0x3099}};
  for (auto& b : B) r.push_back({F_COMP, b[0], b[1]});
  return r;
}
// every row of the Unicode tables as an argument, plus its neighbours
static std::vector<std::vector<Call>> all_calls() {
  std::vector<std::vector<Call>> r(NF); std::vector<int> s;
  auto add = [&](int f, std::vector<int> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); for (int x : v) r[f].push_back({f, x, 0}); };
  for (auto& g : ref::gcb_rows) { s.push_back(g.lo); s.push_back(g.hi); s.push_back(g.hi + 1); } s.push_back(-1); s.push_back(0x110000); add(F_GCB, s); s.clear();
  for (auto& c : ref::ccc_rows) { s.push_back(c.cp); s.push_back(c.cp + 1); } s.push_back(0); s.push_back(-1); s.push_back(0x110000); add(F_CCC, s); s.clear();
  for (auto& d : ref::dec_rows) if (!d.compat) { s.push_back(d.cp); if (d.cp % 4 == 0) s.push_back(d.cp + 1); } s.push_back(0xAC00); s.push_back(0x61); add(F_CD, s); s.clear();
  for (auto& d : ref::dec_rows) { s.push_back(d.cp); } s.push_back(0xAC00); s.push_back(0x61); add(F_KD, s);
  for (auto& p : ref::db().comp) { int a = (int)(p.first >> 32), b = (int)(p.first & 0xFFFFFFFF); r[F_COMP].push_back({F_COMP, a, b}); r[F_COMP].push_back({F_COMP, a, b + 1}); r[F_COMP].push_back({F_COMP, b, a}); }
  for (int i = 0; i < 19; i++) { r[F_COMP].push_back({F_COMP, 0x1100 + i, 0x1161 + i}); r[F_COMP].push_back({F_COMP, 0xAC00 + 28 * 21 * i, 0x11A8 + i}); r[F_COMP].push_back({F_COMP, 0xAC01 + 28 * 21 * i, 0x11A8 + i}); }
  std::sort(r[F_COMP].begin(), r[F_COMP].end(), [](const Call& x, const Call& y) { return x.a != y.a ? x.a < y.a : x.b < y.b; });
  return r;
}

// run in a process of its own in which the library has not been used yet
template <class Fn> void in_new_process(Fn fn) {
  static char* buf = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  buf[0] = 0; pid_t p = fork();
  if (!p) { buf = buf; try { fn(); } catch (mc::Fail& f) { snprintf(buf, 4096, "%s", f.msg.c_str()); _exit(1); } _exit(0); }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) fail("crashed: %s", strsignal(WTERMSIG(st)));
  if (WEXITSTATUS(st)) fail("%s", buf[0] ? buf : "aborted");
}

// ---------------------------------------------------------------- histories of operations on live objects
// Two texts, a cursor in each, a grapheme cursor in each, one output: operations in any order, each compared with the model.
static const Text TA{0x61, 0x301, 0x323, 0xAC01, 0x1F1E6, 0x1F1E6, 0x1F1E6, 0xFB01}, TB{0x1E69, 0x1100, 0x1161, 0x11A8, 0x261D, 0x1F3FB, 0x0D, 0x0A, 0x2007};
enum { O_AF, O_BF, O_AB, O_AG, O_BG, O_AGR, O_NA, O_NB, O_KA, O_LOOK, O_DEC, O_APP, O_FILTER, O_NEW, NO };
static const char* const oname[] = {"forward in A", "forward in B", "back in A", "next grapheme of A", "next grapheme of B", "restart graphemes of A", "form C of A's grapheme", "form D of B's grapheme", "form KC of A's grapheme", "lookups", "decompose", "append from B", "filter A", "normalize a new text"};
struct World {
  u5e::utf8_string a, o8; u5e::utf32ne_string b, o32; std::string oa; u32str ob; Text ma, mb;
  u5e::utf8_string::const_iterator ia; u5e::utf32ne_string::const_iterator ib; int pa = 0, pb = 0;
  u5e::utf8_string_grapheme_iterator ga; u5e::utf32ne_string_grapheme_iterator gb; int qa = 0, qb = 0; std::vector<int> ba, bb; int looked = 0; int fresh = 0;
  World() : a(ref::encode(TA)), b(to32(TB)), ma(TA), mb(TB), ia(a.codepoint_cbegin()), ib(b.codepoint_cbegin()), ga(a.grapheme_begin()), gb(b.grapheme_begin()), ba(ref::bounds(TA)), bb(ref::bounds(TB)) {}
  Text gra() { return Text(ma.begin() + ba[qa], ma.begin() + ba[qa + 1]); }
  Text grb() { return Text(mb.begin() + bb[qb], mb.begin() + bb[qb + 1]); }
  bool ina() { return qa + 1 < (int)ba.size(); } bool inb() { return qb + 1 < (int)bb.size(); }
  bool op(int k) {   // false: not applicable here
    switch (k) {
      case O_AF: if (pa >= (int)ma.size()) return false; ++ia; pa++; break;
      case O_BF: if (pb >= (int)mb.size()) return false; ib++; pb++; break;
      case O_AB: if (pa <= 0) return false; --ia; pa--; break;
      case O_AG: if (!ina()) return false; ++ga; qa++; break;
      case O_BG: if (!inb()) return false; gb++; qb++; break;
      case O_AGR: ga = a.grapheme_begin(); qa = 0; break;
      case O_NA: { if (!ina()) return false; Text w = ref::nf(ref::NFC, gra()); int n = u5e::normalization_form_c(*ga, o8); oa += ref::encode(w); if (n != (int)w.size()) fail("count"); break; }
      case O_NB: { if (!inb()) return false; Text w = ref::nf(ref::NFD, grb()); int n = u5e::normalization_form_d(*gb, o8); oa += ref::encode(w); if (n != (int)w.size()) fail("count"); break; }
      case O_KA: { if (!ina()) return false; Text w = ref::nf(ref::NFKC, gra()); int n = u5e::normalization_form_kc(*ga, o32); ob += to32(w); if (n != (int)w.size()) fail("count"); break; }
      case O_LOOK: { static const Call L[] = {{F_COMP, 0x61, 0x301}, {F_CD, 0xE9, 0}, {F_CCC, 0x301, 0}, {F_GCB, 0x200D, 0}, {F_KD, 0xFB01, 0}}; static const std::vector<int> W[] = {{1, 0xE1}, {0x65, 0x301}, {230}, {}, {0x66, 0x69}};
        const Call& q = L[looked % 5]; std::vector<int> r = call(q); if (q.f == F_GCB) { if (u5e::props::grapheme_cluster_break::resolve(0x200D) != u5e::props::grapheme_cluster_break::ZWJ) fail("lookup"); } else if (r != W[looked % 5]) fail("%s", show_call(q).c_str()); looked++; break; }
      case O_DEC: { Text w; ref::decompose(mb[pb % mb.size()], true, w); int n = u5e::compatibility_and_canonical_decomposition(u5e::codepoint(mb[pb % mb.size()]), o32); ob += to32(w); if (n != (int)w.size()) fail("count"); break; }
      case O_APP: { o32.append(b.codepoint_cbegin(), ib); ob += to32(Text(mb.begin(), mb.begin() + pb)); break; }
      case O_FILTER: { Text w; for (int i = pa; i < (int)ma.size(); i++) ref::decompose(ma[i], false, w); int n = u5e::filter(ia, a.codepoint_cend(), o32, u5e::canonical_decomposition<u5e::utf32ne_string>); ob += to32(w); if (n != (int)w.size()) fail("count"); break; }
      case O_NEW: { static const Text T[] = {{0x64, 0x307, 0x323}, {0x344}, {0x1100, 0x1161}}; const Text& t = T[fresh++ % 3]; U8V v(t); Text w = ref::nf(ref::NFC, t); u5e::utf32ne_string o; int n = 0; for (auto i = v.enc.grapheme_begin(); i != v.enc.grapheme_end(); ++i) n += u5e::normalization_form_c(*i, o); if (from32(o.native_string) != w || n != (int)w.size()) fail("form C of %s", ref::show(t).c_str()); break; }
    }
    return true;
  }
  void look() {
    if (pa < (int)ma.size() ? (int)*ia != ma[pa] : !(ia == a.codepoint_cend())) fail("the cursor in A is not at %d", pa);
    if (pb < (int)mb.size() ? (int)*ib != mb[pb] : !(ib == b.codepoint_cend())) fail("the cursor in B is not at %d", pb);
    if (ina()) { auto g = *ga; if (walk(g.codepoint_begin(), g.codepoint_end(), 20) != gra()) fail("A's grapheme %d is wrong", qa); } else if (!(ga == a.grapheme_end())) fail("A's graphemes do not end");
    if (inb()) { auto g = *gb; if (walk(g.codepoint_begin(), g.codepoint_end(), 20) != grb()) fail("B's grapheme %d is wrong", qb); } else if (!(gb == b.grapheme_end())) fail("B's graphemes do not end");
    if (o8.native_string != oa) fail("the UTF-8 output is wrong: %s", ref::hex(o8.native_string).c_str());
    if (o32.native_string != ob) fail("the UTF-32 output is wrong: %s", ref::show(from32(o32.native_string)).c_str());
    if (a.native_string != ref::encode(ma) || b.native_string != to32(mb)) fail("a text was modified");
  }
};
static std::string show_ops(const int* v, int n) { std::string s; for (int i = 0; i < n; i++) s += std::string(oname[v[i]]) + "; "; return s; }
static void history(Ctx& c, const int* v, int n) {
  World w; std::string where;
  for (int i = 0; i < n; i++) {
    if (!w.op(v[i])) { c.outcome(i); return; }
    try { w.look(); } catch (mc::Fail& f) { fail("after step %d (%s): %s", i + 1, oname[v[i]], f.msg.c_str()); }
    c.step();
  }
  c.state(); c.outcome(mc::hmix(mc::hseq(w.oa), mc::hmix(w.qa * 64 + w.qb, w.pa * 64 + w.pb))); if (n > 1) c.nontrivial();
}

// ---------------------------------------------------------------- the same place in memory, with other content
static const int SY[] = {'a', 0x301, 0x1100, 0x1161, 0x1F1E6, 0x0D, 0x0A, 0x200D, 0xE9, 0x323};
enum { NSY = 10, NPLACE = 13, NACT = NPLACE + 13 };
static std::vector<Text> small_texts(int k, int maxlen) { std::vector<Text> r; uint64_t e = 1; for (int L = 0; L <= maxlen; L++, e *= k) for (uint64_t x = 0; x < e; x++) { Text t; uint64_t y = x; for (int i = 0; i < L; i++, y /= k) t.push_back(SY[y % k]); r.push_back(t); } return r; }
template <class S> struct Spot {
  typedef typename S::Nat Nat; typedef typename std::remove_const<typename Nat::value_type>::type C;
  C buf[64]; typename S::Enc e; int n = 0;
  Spot() { room(e.native_string); }
  template <class T, class A> void room(std::basic_string<C, T, A>& s) { s.reserve(64); } template <class T> void room(std::experimental::basic_string_view<C, T>&) {}
  template <class T, class A> void set(std::basic_string<C, T, A>& s, const C* p) { s.assign(p, n); } template <class T> void set(std::experimental::basic_string_view<C, T>& v, const C* p) { memcpy(buf, p, n * sizeof(C)); v = std::experimental::basic_string_view<C, T>(buf, n); }
  void put(const Text& t) { fill(t, C()); }
  void fill(const Text& t, char) { std::string s = ref::encode(t); n = s.size(); set(e.native_string, s.data()); }
  void fill(const Text& t, int) { u32str s = to32(t); n = s.size(); set(e.native_string, s.data()); }
  uint64_t bounds_of(char) { auto b = e.native_cbegin(), z = e.native_cend(); return u5e::utf8_bounds<decltype(b)>::check(b, z); }
  uint64_t bounds_of(int) { return 2; }
  uint64_t act(int a) {
    uint64_t h = mc::hmix(a, n); auto add = [&h](uint64_t x) { h = mc::hmix(h, x); }; typedef typename S::Enc Enc; typedef typename Enc::const_iterator It;
    auto units = [&](const auto& x) { add(x.size()); for (auto u : x) add((uint32_t)u); };
    It b = e.codepoint_cbegin(), z = e.codepoint_cend();
    auto cps = [&](It i, It j) { int k = 0; while (i != j && k++ < 70) { int v = *i; add((uint32_t)v); ++i; } add(k); };
    auto whole = [&](int f, auto& o) { for (auto i = e.grapheme_begin(); i != e.grapheme_end(); ++i) { auto g = *i; add(f == 0 ? u5e::normalization_form_d(g, o) : f == 1 ? u5e::normalization_form_c(g, o) : f == 2 ? u5e::normalization_form_kd(g, o) : u5e::normalization_form_kc(g, o)); } units(o.native_string); };
    if (a < NPLACE) { if (a > n) return 1; typename S::GI g(b, z, It(e.native_cbegin() + a)); auto x = *g; for (int k = 0; k <= n; k++) { It c(e.native_cbegin() + k); add((x.codepoint_begin() == c) | (x.codepoint_end() == c) << 1 | (g == c) << 2); } return h; }
    switch (a - NPLACE) {
      case 0: for (auto i = e.grapheme_begin(); i != e.grapheme_end(); ++i) { auto g = *i; add(77); cps(g.codepoint_begin(), g.codepoint_end()); } break;
      case 1: cps(b, z); break;
      case 2: { It i = z; int k = 0; while (i != b && k++ < 70) { --i; int v = *i; add((uint32_t)v); } break; }
      case 3: case 4: case 5: case 6: { u5e::utf32ne_string o; whole(a - NPLACE - 3, o); break; }
      case 7: { u5e::utf8_string o; whole(1, o); break; }
      case 8: { u5e::basic_encodedstring<typename Kind<S>::E, std::basic_string<C>> o; o.template append<typename S::Nat>(b, z); units(o.native_string); if (n) { It m(e.native_cbegin() + n / 2); o.template append<typename S::Nat>(b, m); units(o.native_string); } break; }
      case 9: add(bounds_of(C())); break;
      case 10: for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) add(It(e.native_cbegin() + i) == It(e.native_cbegin() + j)); break;
      case 11: { u5e::utf32ne_string o; add(u5e::filter(b, z, o, u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>)); units(o.native_string); break; }
      case 12: { u5e::utf32ne_string o; u5e::filter(b, z, o, u5e::canonical_decomposition<u5e::utf32ne_string>); u5e::canonical_combining_reorder(o.codepoint_begin(), o.codepoint_end()); int k = 0; auto q = u5e::canonical_composition(o, &k); add(k); add(q - o.codepoint_begin()); units(o.native_string); break; }
    }
    return h;
  }
  template <class T, int W = T::wide> struct Kind { typedef u5e::utf8 E; }; template <class T> struct Kind<T, 1> { typedef u5e::utf32ne E; };
};
static const char* const sname[] = {"a UTF-8 view", "a UTF-8 string", "a UTF-32 view", "a UTF-32 string"};
static std::string act_name(int a) { static const char* const N[] = {"its graphemes", "its codepoints forward", "its codepoints backward", "form D", "form C", "form KD", "form KC", "form C as UTF-8", "appending it and half of it", "checking its bounds", "comparing its positions", "decomposing it", "composing it"}; return a < NPLACE ? "the grapheme at position " + std::to_string(a) : N[a - NPLACE]; }
template <class S> static uint64_t* alone(const std::vector<Text>& ts) {   // what each gives in a process in which nothing else is done
  uint64_t* r = (uint64_t*)mmap(nullptr, ts.size() * NACT * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::vector<pid_t> ps;
  for (int j = 0; j < 8; j++) { pid_t p = fork(); if (!p) { for (size_t i = j; i < ts.size(); i += 8) { pid_t q = fork(); if (!q) { alarm(20); for (int a = 0; a < NACT; a++) { Spot<S> s; s.put(ts[i]); r[i * NACT + a] = s.act(a); } _exit(0); } int st; waitpid(q, &st, 0); } _exit(0); } ps.push_back(p); }
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
  return r;
}
template <class S> static void same_place(mc::Harness& h, int which, int k, int maxlen) {
  static std::vector<Text> ts; ts = small_texts(k, maxlen); static uint64_t* want; want = alone<S>(ts); static int n; n = (int)ts.size();
  h.scopes.push_back(mc::list_scope(std::string("same-place: ") + sname[which], "every ordered pair of the " + std::to_string(n) + " texts of up to " + std::to_string(maxlen) + " from " + std::to_string(k) + " codepoints, one after the other at the same address in one object: each of " + std::to_string(int(NACT)) + " operations on the first, then on the second", n,
    [](Ctx& c, uint64_t t) { for (int j = 0; j < n; j++) { int v[2] = {(int)t, j}; if (!c.go(v, 2)) return; } },
    [which](Ctx& c, const int* v, int) { static Spot<S> s; for (int a = 0; a < NACT; a++) { s.put(ts[v[0]]); s.act(a); s.put(ts[v[1]]); if (s.act(a) != want[v[1] * NACT + a]) fail("in %s that held %s and was given other content in place: %s of %s is not what it is when nothing was done before", sname[which], ref::show(ts[v[0]]).c_str(), act_name(a).c_str(), ref::show(ts[v[1]]).c_str()); c.step(2); }
      c.state(); c.outcome(mc::hmix(v[0], v[1] * 4 + which)); c.nontrivial(); },
    [](const int* v, int) { return ref::show(ts[v[0]]) + " then " + ref::show(ts[v[1]]) + " in the same place"; }));
}
// ---------------------------------------------------------------- arguments that have part of their bits in common
static uint32_t* baseline() {   // the answers of one ascending sweep
  const size_t N = 4 * 0x110000; uint32_t* r = (uint32_t*)mmap(nullptr, N * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::vector<pid_t> ps;
  for (int f = 0; f < 4; f++) for (int half = 0; half < 2; half++) { pid_t p = fork(); if (!p) { for (int c = half * 0x88000; c < (half + 1) * 0x88000; c++) r[f * 0x110000 + c] = (uint32_t)mc::hseq(call({f, c, 0})); _exit(0); } ps.push_back(p); }
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
  return r;
}
int main(int argc, char** argv) {
  mc::Harness h; h.isolate = true; ref::db();
  static Fresh S = fresh(small_calls()); static const int NS = (int)S.calls.size();
  auto decide = [](const Fresh& f, int i, const char* after, const std::string& hist) { std::vector<int> r = call(f.calls[i]); if (r != f.want[i]) fail("%s gives %s %s %s, and %s when it is the first call", show_call(f.calls[i]).c_str(), ref::show(r).c_str(), after, hist.c_str(), ref::show(f.want[i]).c_str()); };
  // 0: operations with nothing called before in the process
  for (int L = 1; L <= 3; L++) h.scopes.push_back(mc::seq_scope("first-operations-" + std::to_string(L), NO, L, [](Ctx& c, const int* v, int n) { in_new_process([&] { Ctx k = c; history(k, v, n); }); c.state(); c.outcome(mc::hseq(std::vector<int>(v, v + n)) + 1); }, show_ops));
  // 1: every two calls as the first ones of a process
  h.scopes.push_back(mc::pair_scope("first-two-calls", NS, NS, [decide](Ctx& c, const int* v, int) {
      in_new_process([&] { call(S.calls[v[0]]); decide(S, v[1], "after", show_call(S.calls[v[0]])); decide(S, v[0], "again after", show_call(S.calls[v[1]])); });
      c.state(); c.step(3); c.outcome(v[0] * 1000 + v[1]); c.nontrivial(); },
    [](const int* v, int) { return show_call(S.calls[v[0]]) + " then " + show_call(S.calls[v[1]]) + " as the first calls of a process"; }));
  // 2: every sequence of three (thorough: four over a half) calls, in any state
  auto chain = [decide](Ctx& c, const int* v, int n) {
    std::string hist; for (int i = 0; i + 1 < n; i++) call(S.calls[v[i]]);
    std::vector<int> r = call(S.calls[v[n - 1]]); if (r != S.want[v[n - 1]]) { for (int i = 0; i + 1 < n; i++) hist += show_call(S.calls[v[i]]) + ", "; decide(S, v[n - 1], "after", hist); fail("%s gives %s after %s once", show_call(S.calls[v[n - 1]]).c_str(), ref::show(r).c_str(), hist.c_str()); }
    c.state(); c.step(n); c.outcome(mc::hseq(std::vector<int>(v, v + n))); c.nontrivial(); };
  auto show_chain = [](const int* v, int n) { std::string s; for (int i = 0; i < n; i++) s += show_call(S.calls[v[i]]) + "; "; return s; };
  h.scopes.push_back(mc::seq_scope("three-calls", NS, 3, chain, show_chain, 1));
  if (thorough()) h.scopes.push_back(mc::seq_scope("four-calls", NS, 4, chain, show_chain, 2));
  // 3: every two rows of a table, in order
  static std::vector<std::vector<Call>> all = all_calls(); static std::vector<Fresh> F;
  for (int f = 0; f < NF; f++) F.push_back(fresh(all[f]));
  for (int f = 0; f < NF; f++) {
    int n = (int)all[f].size();
    h.scopes.push_back(mc::list_scope(std::string("rows: ") + fname[f], "every ordered pair of " + std::to_string(n) + " arguments (all table rows and neighbours)", n,
      [](Ctx& c, uint64_t t) { int v = (int)t; c.go(&v, 1); },
      [f, n, decide](Ctx& c, const int* v, int) { for (int j = 0; j < n; j++) { call(F[f].calls[v[0]]); std::vector<int> r = call(F[f].calls[j]); if (r != F[f].want[j]) { decide(F[f], j, "after", show_call(F[f].calls[v[0]])); fail("%s gives %s once after %s", show_call(F[f].calls[j]).c_str(), ref::show(r).c_str(), show_call(F[f].calls[v[0]]).c_str()); } c.step(2); } c.state(n); c.outcome(v[0] * 8 + f); c.nontrivial(); },
      [f](const int* v, int) { return show_call(F[f].calls[v[0]]) + " before each other argument"; }, n));
  }
  // arguments that have their low bits, or all bits but one, in common
  static uint32_t* base = baseline(); static std::vector<int> rows[4];
  for (int f = 0; f < 4; f++) for (auto& k : all[f]) if (k.a >= 0 && k.a < 0x110000) rows[f].push_back(k.a);
  for (int f = 0; f < 4; f++) h.scopes.push_back(mc::list_scope(std::string("alike: ") + fname[f], std::to_string(rows[f].size()) + " arguments (all table rows and neighbours), each before every codepoint that has the same low 8 bits (thorough: 6), the same low 16 bits or differs in one or two bits", rows[f].size(),
    [](Ctx& c, uint64_t t) { int v = (int)t; c.go(&v, 1); },
    [f](Ctx& c, const int* v, int) { int x = rows[f][v[0]]; uint64_t n = 0;
      auto want = [&](int y) { return base[f * 0x110000 + y]; };
      auto ask = [&](int y) { return (uint32_t)mc::hseq(call({f, y, 0})); };
      auto two = [&](int y) { if (y == x || y < 0 || y >= 0x110000) return; call({f, x, 0}); if (ask(y) != want(y)) fail("%s after %s is not what it is in an ascending sweep", show_call({f, y, 0}).c_str(), show_call({f, x, 0}).c_str()); if (ask(x) != want(x)) fail("%s after %s is not what it is in an ascending sweep", show_call({f, x, 0}).c_str(), show_call({f, y, 0}).c_str()); n += 3; };
      int step = thorough() ? 64 : 256; for (int y = x % step; y < 0x110000; y += step) two(y);
      for (int i = 0; i < 21; i++) for (int j = i; j < 21; j++) two(x ^ 1 << i ^ (j > i ? 1 << j : 0));
      c.state(n / 3); c.step(n); c.outcome(x * 4 + f); c.nontrivial(); },
    [f](const int* v, int) { return show_call({f, rows[f][v[0]], 0}) + " and the arguments like it"; }, 0));
  static std::vector<Call> crows; for (auto& k : all[F_COMP]) if (k.a >= 0 && k.b >= 0) crows.push_back(k);
  static uint32_t* cbase = (uint32_t*)mmap(nullptr, crows.size() * 22 * 22 * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static auto alike = [](const Call& k, int i, int j) { return Call{F_COMP, i < 21 ? k.a ^ 1 << i : k.a, j < 21 ? k.b ^ 1 << j : k.b}; };
  for (int w = 0; w < 8; w++) { pid_t p = fork(); if (!p) { for (int i = 0; i < 22; i++) for (int j = 0; j < 22; j++) for (size_t k = w; k < crows.size(); k += 8) cbase[(k * 22 + i) * 22 + j] = (uint32_t)mc::hseq(call(alike(crows[k], i, j))); _exit(0); } }
  for (int w = 0, st; w < 8; w++) wait(&st);
  h.scopes.push_back(mc::list_scope("alike: composition", "every pair that composes, and its neighbours, before and after every pair that differs from it in at most one bit of each", crows.size(), [](Ctx& c, uint64_t t) { int v = (int)t; c.go(&v, 1); },
    [](Ctx& c, const int* v, int) { const Call& k = crows[v[0]]; auto ask = [](const Call& q) { return (uint32_t)mc::hseq(call(q)); }; uint32_t own = cbase[(v[0] * 22 + 21) * 22 + 21];
      for (int i = 0; i < 22; i++) for (int j = 0; j < 22; j++) { Call q = alike(k, i, j); call(k); if (ask(q) != cbase[(v[0] * 22 + i) * 22 + j]) fail("%s after %s is not what it is otherwise", show_call(q).c_str(), show_call(k).c_str()); if (ask(k) != own) fail("%s after %s is not what it is otherwise", show_call(k).c_str(), show_call(q).c_str()); c.step(3); }
      c.state(484); c.outcome(mc::hmix(k.a, k.b)); c.nontrivial(); },
    [](const int* v, int) { return show_call(crows[v[0]]) + " and the pairs like it"; }, 0));
  same_place<U8V>(h, 0, thorough() ? 10 : 8, 3); same_place<U8S>(h, 1, thorough() ? 10 : 6, 3); same_place<U32V>(h, 2, thorough() ? 10 : 8, 3); same_place<U32S>(h, 3, thorough() ? 10 : 6, 3);
  // 4: operations on live objects
  for (int L = 1; L <= (thorough() ? 7 : 6); L++) h.scopes.push_back(mc::seq_scope("operations-" + std::to_string(L), NO, L, history, show_ops));
  return run_harness(h, argc, argv);
}
