// Long texts for many properties (selected by -DP_<id> or -DFORM): lengths on both sides of 2^15, 2^16 and 2^17, where
// counters and buffers of limited size would wrap, and every length up to 70 and around each power of two up to 4096.
// Patterns X Y Z Y Z ... over an alphabet of each property's classes.
#include <deque>
#include <forward_list>
#include <list>
#include <numeric>
#include "storages.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;
typedef std::string S8;

static std::vector<int> lengths() {
  std::vector<int> r = {65537, 131073, 32767, 32769, 65535, 65536};
  if (thorough()) for (int x : {16384, 16385, 32768, 65534, 65538, 70001, 99999, 131071, 131072, 196609, 262143, 262144, 262145, 524289, 1048577}) r.push_back(x);
  return r;
}
static const std::vector<int>& LEN() { static std::vector<int> l = lengths(); return l; }
static Text pat(const int* al, const int* v) { Text t; t.reserve(v[3]); if (v[3]) t.push_back(al[v[0]]); while ((int)t.size() < v[3]) t.push_back(al[t.size() & 1 ? v[1] : v[2]]); return t; }
static std::string pshow(const int* al, const int* v) { char b[120]; snprintf(b, sizeof b, "%04X then %04X %04X ..., %d codepoints", al[v[0]], al[v[1]], al[v[2]], v[3]); return b; }
// Work that grows faster than linearly is nothing the properties exclude: such a case is cut (and counted as not explored)
// when two shorter runs of the pattern say that the full one would take too long.
static double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool too_slow(Ctx& c, const std::function<void(Ctx&, const int*, int)>& run, const int* v) {
  int w[4] = {v[0], v[1], v[2], 1024}; double t0 = cpu(); run(c, w, 4); double t1 = cpu(); w[3] = 8192; run(c, w, 4); double t2 = cpu(), f = v[3] / 8192.0;
  if (t2 - t1 < 24 * (t1 - t0) || (t2 - t1) * f * f < 0.4) return false;
  c.cut(); return true;
}
// every length from 4 to 70 and those around powers of two and halfway between them: where a buffer or block would be just full
static const std::vector<int>& SHORT() {
  static std::vector<int> r;
  if (r.empty()) { for (int i = 4; i <= 70; i++) r.push_back(i); for (int p = 64; p <= (thorough() ? 4096 : 1024); p *= 2) for (int q : {p, p + p / 2}) for (int d = -2; d <= 2; d++) if (q + d > 70 && (q == p || d)) r.push_back(q + d); if (!thorough()) for (int x : {2047, 2048, 2049, 4095, 4096, 4097}) r.push_back(x); }
  return r;
}
static std::vector<Scope> EXTRA;
static std::string listed(const std::vector<int>& l, size_t from, size_t to) { std::string s; for (size_t i = from; i < to; i++) { size_t j = i; while (j + 1 < to && l[j + 1] == l[j] + 1) j++; s += " " + std::to_string(l[i]); if (j > i) s += (j > i + 1 ? "-" : " ") + std::to_string(l[j]); i = j; } return s; }
static Scope pattern_scope(const std::string& name, const int* al, int k, std::function<void(Ctx&, const int*, int)> run, size_t n, const std::vector<int>& L) {
  size_t all = L.size();
  std::string what = "X Y Z Y Z ..., X Y Z from " + std::to_string(k) + " codepoints, of" + listed(L, 0, n);
  if (n < all) what += ", and for Y = Z" + listed(L, n, all); what += " codepoints";
  return mc::list_scope(name, what, (uint64_t)k * k, [k, n, all, &L](Ctx& c, uint64_t t) { for (int x = 0; x < k; x++) for (size_t i = 0; i < (t / k == t % k ? all : n); i++) { int v[4] = {x, (int)(t / k), (int)(t % k), L[i]}; if (!c.go(v, 4)) return; } },
    [run](Ctx& c, const int* v, int n) { if (v[3] < 8192 || !too_slow(c, run, v)) run(c, v, n); }, [al](const int* v, int) { return pshow(al, v); }, (uint64_t)k * k * k * n + (uint64_t)k * k * (all - n));
}
// all patterns over al[0..k) at the first nlen long lengths, those with Y == Z at all, and all at the shorter lengths
static Scope patterns(const std::string& name, const int* al, int k, std::function<void(Ctx&, const int*, int)> run, size_t nlen = 99) {
  EXTRA.push_back(pattern_scope("lengths", al, k, run, SHORT().size(), SHORT()));
  return pattern_scope(name, al, k, run, std::min(nlen, LEN().size()), LEN());
}
// X Y^k W: what comes last meets what came first, k on both sides of where a counter would wrap
static const int TX[] = {'a', 0x1100, 0x1F466, 0}, TY[] = {0x301, 0x30D, 0x334, 0x1F1E6, 0x1161}, TW[] = {0x301, 0x327, 0x1F3FB, 0x1161, 0x11A8, 0x1F1E6};
static Text tail(const int* v) { Text t(v[3] + 2, TY[v[1]]); t[0] = TX[v[0]]; t.back() = TW[v[2]]; return t; }
static Scope tail_scope(const std::string& name, std::function<void(Ctx&, const int*, int)> run, const std::vector<int>& K) {
  return mc::list_scope(name, "X Y^k W, X from 4, Y from 5, W from 6 codepoints, k =" + listed(K, 0, K.size()), 20, [&K](Ctx& c, uint64_t t) { for (int w = 0; w < 6; w++) for (int k : K) { int v[4] = {(int)t / 5, (int)t % 5, w, k}; if (!c.go(v, 4)) return; } },
    [run](Ctx& c, const int* v, int n) { if (v[3] < 8192 || !too_slow(c, run, v)) run(c, v, n); }, [](const int* v, int) { char b[100]; snprintf(b, sizeof b, "%04X, %d times %04X, %04X", TX[v[0]], v[3], TY[v[1]], TW[v[2]]); return std::string(b); }, 20 * 6 * K.size());
}
static Scope tails(const std::string& name, std::function<void(Ctx&, const int*, int)> run) {
  static const std::vector<int> K = thorough() ? std::vector<int>{16383, 16384, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131071, 131072, 131073} : std::vector<int>{32767, 32768, 65535, 65536};
  EXTRA.push_back(tail_scope("tail-lengths", run, SHORT()));
  return tail_scope(name, run, K);
}
template <class A, class B> static void same(const A& got, const B& want, const char* what) {
  if (got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin())) return;
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  fail("%s: %zu units instead of %zu, first difference at %zu (%04X instead of %04X)", what, (size_t)got.size(), (size_t)want.size(), i, i < got.size() ? (unsigned)got[i] : 0, i < want.size() ? (unsigned)want[i] : 0);
}
// linear forms of the reference model; each case checks them against the plain ones on the first codepoints
static Text lin_compose(const Text& d) {
  Text o; int starter = -1, last = 0;
  for (int c : d) {
    int k = ref::ccc(c), r;
    if (starter >= 0 && (starter + 1 == (int)o.size() || last < k) && ref::compose(o[starter], c, r)) { o[starter] = r; continue; }
    if (!k) starter = (int)o.size();
    last = k; o.push_back(c);
  }
  return o;
}
static Text lin_nf(int form, const Text& in) {
  Text d; for (int c : in) ref::decompose(c, form == ref::NFKD || form == ref::NFKC, d);
  for (size_t i = 0; i < d.size(); ) { if (!ref::ccc(d[i])) { i++; continue; } size_t j = i; while (j < d.size() && ref::ccc(d[j])) j++;
    std::vector<int> bucket[256]; for (size_t x = i; x < j; x++) bucket[ref::ccc(d[x])].push_back(d[x]); size_t w = i; for (auto& b : bucket) for (int c : b) d[w++] = c; i = j; }
  return form == ref::NFC || form == ref::NFKC ? lin_compose(d) : d;
}
static std::vector<int> lin_bounds(const Text& t) {   // boundary(t, i) with the look back of GB10 and GB12 carried along
  std::vector<int> r; bool base = false, odd = false;
  for (size_t i = 0; i < t.size(); i++) {
    int g = ref::gcb(t[i]); bool b;
    if (!i) b = true;
    else if (g == ref::E_MODIFIER && base) b = false;
    else if (g == ref::RI && ref::gcb(t[i - 1]) == ref::RI) b = !odd;
    else { Text two{t[i - 1], t[i]}; b = ref::boundary(two, 1); if (g == ref::E_MODIFIER && (ref::gcb(t[i - 1]) == ref::EXTEND)) b = true; }
    if (b) r.push_back((int)i);
    odd = g == ref::RI && !(odd && ref::gcb(t[i - 1]) == ref::RI);
    base = g == ref::E_BASE || g == ref::EBG || (g == ref::EXTEND && base);
  }
  r.push_back((int)t.size()); if (t.empty()) r.assign(1, 0);
  return r;
}
static Text head(const Text& t, size_t n) { return Text(t.begin(), t.begin() + std::min(n, t.size())); }
static void model(bool ok) { if (!ok) fail("the linear reference model disagrees with the plain one"); }

static const int ENC[] = {'a', 0xE9, 0x20AC, 0x10348, 0x200000, 0x4000000};
static const int GR[] = {'a', 0x301, 0x1F1E6, 0x1F466, 0x1F3FB, 0xD, 0x1100, 0x600, 0x200D};
static const int NF[] = {'a', 0x301, 0x327, 0xE9, 0x1E69, 0xAC01, 0x1100, 0x1161, 0xFB01};

#ifdef P_G0
template <class S> static void clusters(Ctx& c, const Text& t, const std::vector<int>& b, bool inner) {
  S s(t); std::vector<int> off = S::offsets(t);
  typename S::GI it(s.enc.codepoint_cbegin(), s.enc.codepoint_cend());
  for (size_t k = 0; k + 1 < b.size(); k++) {
    auto g = *it;
    if (!(g.codepoint_begin() == s.at(off[b[k]])) || !(g.codepoint_end() == s.at(off[b[k + 1]]))) fail("%s: grapheme %zu of %zu is not units %d to %d", S::name(), k, b.size() - 1, off[b[k]], off[b[k + 1]]);
    ++it; c.step();
  }
  if (!(it == s.enc.codepoint_cend())) fail("%s: the end is not reached after %zu graphemes", S::name(), b.size() - 1);
  if (!inner) return;
  int n = (int)t.size();
  for (int p : {n - 1, n - 2, n / 2, n / 2 + 1, n - 65535, n - 65536, n - 32768, 65535, 65536, 65537, 32768, 1}) {   // iterators created at codepoint p, then one and two graphemes on
    if (p < 0 || p >= n) continue;
    size_t k = std::upper_bound(b.begin(), b.end(), p) - b.begin() - 1;
    typename S::GI j(s.enc.codepoint_cbegin(), s.enc.codepoint_cend(), s.at(off[p]));
    for (int steps = 0; steps < 3; steps++, k++) {
      if (k + 1 >= b.size()) { if (!(j == s.enc.codepoint_cend())) fail("%s: placed on codepoint %d, the end is not reached", S::name(), p); break; }
      auto g = *j;
      if (!(g.codepoint_begin() == s.at(off[b[k]])) || !(g.codepoint_end() == s.at(off[b[k + 1]]))) fail("%s: placed on codepoint %d of %d, after %d steps the grapheme is not units %d to %d", S::name(), p, n, steps, off[b[k]], off[b[k + 1]]);
      ++j; c.step();
    }
  }
}
#endif
#ifdef FORM
template <class S, class Out> static int apply(S& s, Out& out) {
  typedef typename S::Enc E;
  typename S::GI b(s.enc.codepoint_cbegin(), s.enc.codepoint_cend());
  int n = 0;
  for (typename S::GI it = b; !(it == s.enc.codepoint_cend()); ++it) {
    auto g = *it;
    n += FORM == ref::NFD ? u5e::normalization_form_d<E, Out>(g, out) : FORM == ref::NFC ? u5e::normalization_form_c<E, Out>(g, out) : FORM == ref::NFKD ? u5e::normalization_form_kd<E, Out>(g, out) : u5e::normalization_form_kc<E, Out>(g, out);
  }
  return n;
}
#endif

#ifdef P_U03
struct Big {   // like Guard, for long texts
  enum { PAGE = 4096 }; size_t pages; char* base;
  explicit Big(size_t n) : pages(n) { base = (char*)mmap(nullptr, PAGE * (n + 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) _exit(3); mprotect(base, PAGE, PROT_NONE); mprotect(base + PAGE * (n + 1), PAGE, PROT_NONE); }
  char* lo() { return base + PAGE; } char* hi() { return base + PAGE * (pages + 1); }
};
static Big& big() { static Big b(2048); return b; }
template <class V, class GI, class Nat> static void in_view(Ctx& c, Nat nat, const Text& t, const std::vector<int>& b, const std::vector<int>& off, const Text& c0, const char* where) {
  V v(nat); typedef typename V::const_iterator It; int n = (int)t.size();
  same(walk(v.codepoint_cbegin(), v.codepoint_cend(), n + 1), t, where);
  { Text r; It i = v.codepoint_cend(), z = v.codepoint_cbegin(); for (int k = 0; !(i == z); k++) { if (k > n) fail("%s: walking back does not stop", where); --i; int x = *i; r.push_back(x); } std::reverse(r.begin(), r.end()); same(r, t, where); }
  size_t k = 0; for (GI i(v.codepoint_cbegin(), v.codepoint_cend()); !(i == v.codepoint_cend()); ++i, ++k) { if (k + 1 >= b.size()) fail("%s: more than %zu graphemes", where, k); auto g = *i; if (!(g.codepoint_begin() == It(v.native_cbegin() + off[b[k]])) || !(g.codepoint_end() == It(v.native_cbegin() + off[b[k + 1]]))) fail("%s: grapheme %zu is another one", where, k); }
  if (k + 1 != b.size()) fail("%s: %zu graphemes instead of %zu", where, k, b.size() - 1);
  u5e::utf32ne_string o; for (GI i(v.codepoint_cbegin(), v.codepoint_cend()); !(i == v.codepoint_cend()); ++i) u5e::normalization_form_c<V, u5e::utf32ne_string>(*i, o);
  same(o.native_string, c0, where);
  { GI i(v.codepoint_cbegin(), v.codepoint_cend(), It(v.native_cbegin() + off[n - 1])); auto g = *i; if (!(g.codepoint_end() == v.codepoint_cend())) fail("%s: the last grapheme does not reach the end", where); }
  c.step(5);
}
#endif
int main(int argc, char** argv) {
  mc::Harness h;
#ifdef P_U03
  static const int VW[] = {'a', 0x301, 0xE9, 0x1F1E6, 0x20AC, 0x1100};
  h.scopes.push_back(patterns("vast", VW, 6, [](Ctx& c, const int* v, int) {
    Text t = pat(VW, v), c0 = lin_nf(ref::NFC, t); std::vector<int> b = lin_bounds(t); S8 s = ref::encode(t); u32str w = to32(t); std::vector<int> o8 = ref::offsets(t), o32 = U32S::offsets(t);
    static const char* const side[][2] = {{"\xCC\x81", "\xCC\x81"}, {"\xF0\x9F\x87\xA6", "\xF0\x9F\x87\xA6"}, {"\xF0", "\xBF\xBF\xBF\xBF\xBF"}, {"\xE1\x84\x80", "\xE1\x85\xA1"}};
    static const int side32[] = {0x301, 0x1F1E6, -1, 0x1161};
    char *lo = big().lo(), *hi = big().hi(); S8 keep; u32str keep32;
    memcpy(hi - s.size(), s.data(), s.size()); in_view<u5e::utf8_string_view, u5e::utf8_string_view_grapheme_iterator>(c, u8view(hi - s.size(), s.size()), t, b, o8, c0, "UTF-8 view before inaccessible memory");
    memcpy(lo, s.data(), s.size()); in_view<u5e::utf8_string_view, u5e::utf8_string_view_grapheme_iterator>(c, u8view(lo, s.size()), t, b, o8, c0, "UTF-8 view after inaccessible memory");
    memcpy(hi - w.size() * 4, w.data(), w.size() * 4); in_view<u5e::utf32ne_string_view, u5e::utf32ne_string_view_grapheme_iterator>(c, u32view((int*)(hi - w.size() * 4), w.size()), t, b, o32, c0, "UTF-32 view before inaccessible memory");
    memcpy(lo, w.data(), w.size() * 4); in_view<u5e::utf32ne_string_view, u5e::utf32ne_string_view_grapheme_iterator>(c, u32view((int*)lo, w.size()), t, b, o32, c0, "UTF-32 view after inaccessible memory");
    int k = (v[0] + v[3]) % 4; S8 whole = side[k][0] + s + side[k][1]; keep = whole; in_view<u5e::utf8_string_view, u5e::utf8_string_view_grapheme_iterator>(c, u8view(whole.data() + strlen(side[k][0]), s.size()), t, b, o8, c0, "UTF-8 view inside other octets"); same(whole, keep, "the octets afterwards");
    u32str wide = u32str(1, side32[k]) + w + u32str(1, side32[k]); keep32 = wide; in_view<u5e::utf32ne_string_view, u5e::utf32ne_string_view_grapheme_iterator>(c, u32view(wide.data() + 1, w.size()), t, b, o32, c0, "UTF-32 view inside other codepoints"); same(wide, keep32, "the codepoints afterwards");
    c.state(); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }, thorough() ? 4 : 1));
#endif
#ifdef P_X01
  static const int FX[] = {'a', 0x301, 0xD800, 0x110000, 0x7FFFFFFF, -1, 0xAC00, 0x1F1E6, 0x1E69, 0};
  h.scopes.push_back(patterns("vast", FX, 10, [](Ctx& c, const int* v, int) {
    Text t = pat(FX, v); bool neg = false; for (int i = 0; i < 3; i++) if (FX[v[i]] < 0) neg = true;
    std::vector<int> b = lin_bounds(t); model(lin_bounds(head(t, 200)) == ref::bounds(head(t, 200)));
    { U32V s(t); size_t k = 0; for (U32V::GI i(s.enc.codepoint_cbegin(), s.enc.codepoint_cend()); !(i == s.enc.codepoint_cend()); ++i, ++k) { if (k + 1 >= b.size()) fail("more than %zu graphemes", k); auto g = *i; if (g.codepoint_begin() != s.at(b[k]) || g.codepoint_end() != s.at(b[k + 1])) fail("grapheme %zu is not codepoints %d to %d", k, b[k], b[k + 1]); } if (k + 1 != b.size()) fail("%zu graphemes", k); }
    for (int f = 0; f < 4; f++) {
      if (v[3] > 3000 && (v[0] + v[1] + v[3]) % 4 != f) continue;
      Text want = lin_nf(f, t), hd = head(t, 100); model(lin_nf(f, hd) == ref::nf(f, hd));
      auto go = [&](auto& s, auto& out) { int n = 0; auto e = s.enc.codepoint_cend(); for (typename std::decay<decltype(s)>::type::GI i(s.enc.codepoint_cbegin(), e); !(i == e); ++i) { auto g = *i; n += f == 0 ? u5e::normalization_form_d(g, out) : f == 1 ? u5e::normalization_form_c(g, out) : f == 2 ? u5e::normalization_form_kd(g, out) : u5e::normalization_form_kc(g, out); } if (n != (int)want.size()) fail("%s announces %d codepoints instead of %zu", ref::form_name[f], n, want.size()); c.step(); };
      { U32S s(t); u5e::utf32ne_string o; go(s, o); same(o.native_string, want, ref::form_name[f]); }
      if (!neg) { U8V s(t); u5e::utf8_string o; go(s, o); same(o.native_string, ref::encode(want), ref::form_name[f]); }
    }
    c.state(); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }, 1));
#endif
#ifdef P_N06
  auto vast = [](Ctx& c, const int* v, const Text& t) {
    auto nf = [&](int f, const Text& x) { U32S s(x); u5e::utf32ne_string o; auto e = s.enc.codepoint_cend(); int n = 0; for (U32S::GI i(s.enc.codepoint_cbegin(), e); !(i == e); ++i) { auto g = *i; n += f == 0 ? u5e::normalization_form_d(g, o) : f == 1 ? u5e::normalization_form_c(g, o) : f == 2 ? u5e::normalization_form_kd(g, o) : u5e::normalization_form_kc(g, o); } c.step(); return from32(o.native_string); };
    bool longer = v[3] > 3000; int pick = (v[0] + v[1] + v[3]) % 4;
    Text r[4]; for (int f = 0; f < 4; f++) if (!longer || f == pick || f == (pick & 2)) r[f] = nf(f, t);
    for (int f = 0; f < 4; f++) if (!longer || f == pick) { same(nf(f, r[f]), r[f], "normalized again"); if (f != 0) same(nf(f, r[f & 2]), r[f], f & 2 ? "through form KD" : "through form D"); if (f == 0) same(nf(0, longer ? nf(1, t) : r[1]), r[0], "through form C"); }
    // the same text with every codepoint decomposed and each run of marks in another order
    Text u; for (int x : t) ref::decompose(x, false, u);
    for (size_t i = 0; i < u.size(); ) { if (!ref::ccc(u[i])) { i++; continue; } size_t j = i; while (j < u.size() && ref::ccc(u[j])) j++; std::vector<int> bucket[256]; for (size_t x = i; x < j; x++) bucket[ref::ccc(u[x])].push_back(u[x]); size_t w = i; for (int k = 255; k > 0; k--) for (int x : bucket[k]) u[w++] = x; i = j; }
    for (int f = 0; f < 4; f++) if (!longer || f == pick) same(nf(f, u), r[f], "an equivalent text");
    c.state(); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); };
  h.scopes.push_back(patterns("vast", NF, 9, [vast](Ctx& c, const int* v, int) { vast(c, v, pat(NF, v)); }, thorough() ? 3 : 1));
  h.scopes.push_back(tails("vast-tail", [vast](Ctx& c, const int* v, int) { vast(c, v, tail(v)); }));
#endif
#ifdef P_N07
  static const int NE7[] = {'a', 0x301, 0x327, 0xFB01, 0x1E69, 0x10348, 0};
  auto vast = [](Ctx& c, const int* v, const Text& t) {
    bool longer = v[3] > 3000; int pick = (v[0] + v[1] + v[3]) % 4;
    U8S a(t); U8V b(t); U32S x(t); U32V y(t);
    for (int f = 0; f < 4; f++) if (!longer || f == pick) {
      Text want = lin_nf(f, t); S8 want8 = ref::encode(want);
      auto go = [&](auto& s, const char* what) {
        auto run = [&](auto& out) { int n = 0; auto e = s.enc.codepoint_cend(); for (typename std::decay<decltype(s)>::type::GI i(s.enc.codepoint_cbegin(), e); !(i == e); ++i) { auto g = *i; n += f == 0 ? u5e::normalization_form_d(g, out) : f == 1 ? u5e::normalization_form_c(g, out) : f == 2 ? u5e::normalization_form_kd(g, out) : u5e::normalization_form_kc(g, out); } if (n != (int)want.size()) fail("%s from %s announces %d codepoints instead of %zu", ref::form_name[f], what, n, want.size()); c.step(); };
        { u5e::utf8_string o("x"); run(o); same(o.native_string, "x" + want8, what); } { u5e::utf32ne_string o(u32str(1, 'x')); run(o); same(o.native_string, u32str(1, 'x') + to32(want), what); }
      };
      go(a, "UTF-8 string"); go(b, "UTF-8 view"); go(x, "UTF-32 string"); go(y, "UTF-32 view");
    }
    same(a.enc.native_string, ref::encode(t), "the input afterwards"); same(b.data, ref::encode(t), "the input afterwards"); same(x.enc.native_string, t, "the input afterwards"); same(y.data, t, "the input afterwards");
    c.state(); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); };
  h.scopes.push_back(patterns("vast", NE7, 7, [vast](Ctx& c, const int* v, int) { vast(c, v, pat(NE7, v)); }, thorough() ? 3 : 1));
#endif
#ifdef P_U01
  h.scopes.push_back(patterns("vast", ENC, 6, [](Ctx& c, const int* v, int) {
    Text t = pat(ENC, v); S8 want = ref::encode(t); u5e::utf32ne_string src(to32(t));
    { u5e::utf8_string out; out.append_from_utf32ne<u5e::utf32ne_string>(src.codepoint_cbegin(), src.codepoint_cend()); same(out.native_string, want, "converted");
      if (v[3] % 2) { out.append_from_utf32ne<u5e::utf32ne_string>(src.codepoint_cbegin(), std::next(src.codepoint_cbegin(), 3)); same(out.native_string, want + ref::encode(head(t, 3)), "three more appended"); }
      Text back = walk(out.codepoint_cbegin(), out.codepoint_cend(), t.size() + 5); same(head(back, t.size()), t, "read back"); }
    c.state(); c.step(t.size()); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }));
#endif
#ifdef P_U02
  h.scopes.push_back(patterns("vast", ENC, 6, [](Ctx& c, const int* v, int) {
    Text t = pat(ENC, v); std::vector<int> off = ref::offsets(t); u5e::utf8_string s(ref::encode(t)); int n = (int)t.size();
    auto go = [&](auto b, auto e, auto at) {
      typedef decltype(b) It;
      if (std::distance(b, e) != n) fail("std::distance is %ld instead of %d", (long)std::distance(b, e), n);
      { It i = b; for (int k = 0; k < n; k++) { int x = *i; if (x != t[k]) fail("codepoint %d of %d reads U+%04X", k, n, (unsigned)x); i++; } if (i != e || !(e == i)) fail("the end is not reached after %d codepoints", n);
        for (int k = n; k-- > 0; ) { --i; int x = *i; if (x != t[k]) fail("walking back, codepoint %d of %d reads U+%04X", k, n, (unsigned)x); } if (i != b) fail("the start is not reached"); }
      for (int k = 0; k < n; k++) if (k < 70 || n - k < 70 || (k + 3) % 32768 < 6) for (int o = off[k]; o < off[k + 1]; o++) {
        It i(at(o)); if (!(i == It(at(off[k])))) fail("placed on octet %d the iterator is not on codepoint %d", o, k);
        int x = *i; if (x != t[k]) fail("placed on octet %d, reads U+%04X", o, (unsigned)x); It j = i; ++j; if (!(j == It(at(off[k + 1])))) fail("++ from octet %d goes wrong", o); if (k) { --i; if (!(i == It(at(off[k - 1])))) fail("-- from octet %d goes wrong", o); } c.step(3); }
      c.step(2 * n);
    };
    go(s.codepoint_cbegin(), s.codepoint_cend(), [&](int o) { return s.native_string.cbegin() + o; });
    go(s.codepoint_begin(), s.codepoint_end(), [&](int o) { return s.native_string.begin() + o; });
    u5e::utf8_string_view w(u8view(s.native_string.data(), s.native_string.size()));
    go(w.codepoint_cbegin(), w.codepoint_cend(), [&](int o) { return w.native_cbegin() + o; });
    c.state(); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }));
#endif
#ifdef P_U04
  static const int OC[] = {'a', 0x80, 0xC3, 0xE2, 0xF0, 0xF8, 0xFC, 0xFF};
  h.scopes.push_back(mc::list_scope("vast", "octet n times, then all strings of up to 4 of 8 octet classes; n from " + std::to_string(LEN().size()) + " lengths around powers of two", 8 * 8, [](Ctx& c, uint64_t t) {
      for (int n : LEN()) for (int L = 0; L < 512; L++) { int v[6] = {(int)t / 8, n, (int)t % 8, L / 64, L / 8 % 8, L % 8}; if (!c.go(v, 6)) return; } },
    [](Ctx& c, const int* v, int) {
      static thread_local S8 s; s.assign(v[1], (char)OC[v[0]]); for (int i = 2; i < 6; i++) s += (char)OC[v[i]];
      auto cont = [](unsigned char o) { return (o & 0xC0) == 0x80; };
      auto lead = [](unsigned char o) { int k = 0; while (k < 8 && (o & (0x80 >> k))) k++; return k; };
      S8 want = s; for (size_t i = 0; i < s.size() && cont(s[i]); i++) want[i] = '?';
      for (size_t i = s.size() > 9 ? s.size() - 9 : 0; i < s.size(); i++) if (lead(s[i]) >= 2 && (size_t)lead(s[i]) > s.size() - i) want[i] = '?';
      bool ok = want == s;
      bool got = u5e::utf8_bounds<const char*>::check(s.data(), s.data() + s.size()); if (got != ok) fail("check says %d", got);
      bool e = u5e::utf8_bounds<char*>::enforce(&s[0], &s[0] + s.size()); if (e != ok) fail("enforce says %d", e); same(s, want, "enforced");
      c.state(); c.step(2); c.outcome(mc::hmix(v[2] * 512 + v[3] * 64 + v[4] * 8 + v[5], v[0])); c.nontrivial(); },
    [](const int* v, int) { char b[100]; snprintf(b, sizeof b, "%02X %d times, then %02X %02X %02X %02X", OC[v[0]], v[1], OC[v[2]], OC[v[3]], OC[v[4]], OC[v[5]]); return std::string(b); }));
#endif
#ifdef P_U05
  h.scopes.push_back(patterns("vast", ENC, 6, [](Ctx& c, const int* v, int) {
    Text t = pat(ENC, v); S8 want = ref::encode(t);
    for (int fill = 0; fill < 3; fill++) {
      S8 buf(want.size() + 8, fill == 0 ? 0 : fill == 1 ? 'x' : (char)0xBF); S8 rest = buf.substr(want.size());
      u5e::utf8_iterator<char*> it(&buf[0]); int k = 0;
      for (int x : t) { *it = u5e::codepoint(x); if (k++ & 1) it++; else ++it; }
      same(buf, want + rest, "written");
    }
    c.state(); c.step(3 * t.size()); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }));
#endif
#ifdef P_G0
  auto vast = [](Ctx& c, const int* v, const Text& t) {
    std::vector<int> b = lin_bounds(t); model(lin_bounds(head(t, 300)) == ref::bounds(head(t, 300)));
    if (P_G0 == 2 || v[0] % 2) clusters<U8S>(c, t, b, P_G0 == 3); if (P_G0 == 2 || !(v[0] % 2)) clusters<U32V>(c, t, b, P_G0 == 3);
    if (P_G0 == 2 && v[0] == v[1]) { clusters<U8V>(c, t, b, false); clusters<U32S>(c, t, b, false); }
    c.state(); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); };
  h.scopes.push_back(patterns("vast", GR, 9, [vast](Ctx& c, const int* v, int) { vast(c, v, pat(GR, v)); }, thorough() ? 6 : 2));
  h.scopes.push_back(tails("vast-tail", [vast](Ctx& c, const int* v, int) { vast(c, v, tail(v)); }));
#endif
#ifdef FORM
  auto vast = [](Ctx& c, const int* v, const Text& t) {
    Text want = lin_nf(FORM, t), hd = head(t, 200); model(lin_nf(FORM, hd) == ref::nf(FORM, hd));
    if (v[0] % 3 == 1) { U8S s(t); u5e::utf8_string out; int n = apply(s, out); same(out.native_string, ref::encode(want), "from and to UTF-8"); if (n != (int)want.size()) fail("%d codepoints were announced instead of %zu", n, want.size()); }
    U32S s(t); u5e::utf32ne_string out; int n = apply(s, out); same(out.native_string, want, "from and to UTF-32"); if (n != (int)want.size()) fail("%d codepoints were announced instead of %zu", n, want.size());
    c.state(); c.step(t.size()); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); };
  h.scopes.push_back(patterns("vast", NF, 9, [vast](Ctx& c, const int* v, int) { vast(c, v, pat(NF, v)); }, thorough() ? 6 : 2));
  h.scopes.push_back(tails("vast-tail", [vast](Ctx& c, const int* v, int) { vast(c, v, tail(v)); }));
#endif
#ifdef P_N05
  static const int MK[] = {0x301, 0x327, 0x345, 0x334, 0x59A, 0x1D165};
  h.scopes.push_back(patterns("vast", MK, 6, [](Ctx& c, const int* v, int) {
    Text t = pat(MK, v), want = lin_nf(ref::NFD, t); model(lin_nf(ref::NFD, head(t, 200)) == ref::nf(ref::NFD, head(t, 200)));
    u32str s = to32(t); u5e::canonical_combining_reorder(s.begin(), s.end()); same(s, want, "ordered");
    if (v[0] == 0) { Text u = t; u[0] = 'e'; u5e::utf32ne_string o; U32S src(u); u5e::utf32ne_string_grapheme_iterator g(src.enc.codepoint_cbegin(), src.enc.codepoint_cend()); u5e::normalization_form_kd<u5e::utf32ne_string, u5e::utf32ne_string>(*g, o); same(o.native_string, lin_nf(ref::NFD, u), "one grapheme in form KD"); }
    c.state(); c.step(t.size()); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }, thorough() ? 6 : 2));
#endif
#ifdef P_C01
  auto vast = [](Ctx& c, const int* v, const Text& t) {
    Text d = lin_nf(ref::NFD, t), want = lin_compose(d); model(lin_compose(head(d, 200)) == ref::compose_text(head(d, 200)));
    u5e::utf32ne_string s(to32(d)); int n = 5; auto e = u5e::canonical_composition(s, &n);
    same(u32str(s.native_string.begin(), e), want, "composed"); if (n != 5 + (int)(d.size() - want.size())) fail("%d compositions were announced instead of %zu", n - 5, d.size() - want.size());
    c.state(); c.step(t.size()); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); };
  h.scopes.push_back(patterns("vast", NF, 9, [vast](Ctx& c, const int* v, int) { vast(c, v, pat(NF, v)); }, thorough() ? 6 : 2));
  h.scopes.push_back(tails("vast-tail", [vast](Ctx& c, const int* v, int) { vast(c, v, tail(v)); }));
#endif
#ifdef P_S01
  h.scopes.push_back(patterns("vast", ENC, 6, [](Ctx& c, const int* v, int) {
    Text t = pat(ENC, v); S8 e = ref::encode(t); U8S a(t); U8V av(t); U32S w(t); U32V wv(t); int n = (int)t.size();
    u5e::utf8_string o("pre"); o.append<std::string>(a.enc.codepoint_cbegin(), a.enc.codepoint_cend()); same(o.native_string, "pre" + e, "append");
    o.append<u8view>(av.enc.codepoint_cbegin(), av.enc.codepoint_cend()); same(o.native_string, "pre" + e + e, "append of the view");
    u5e::utf8_string f("x"); f = o; same(f.native_string, o.native_string, "assignment"); u5e::utf8_string g(o); same(g.native_string, o.native_string, "copy");
    u5e::utf32ne_string p; p.append<u32str>(w.enc.codepoint_cbegin(), w.enc.codepoint_cend()); p.append<u32view>(wv.enc.codepoint_cbegin(), wv.enc.codepoint_cend());
    u32str want = to32(t); same(p.native_string, want + want, "append");
    for (int cut : {1, n / 2, 32768, n - 2}) if (cut < n - 1) { int o8 = ref::offsets(head(t, cut))[cut];
      u5e::utf8_string q; q.append<std::string>(a.at(o8), a.enc.codepoint_cend()); same(q.native_string, e.substr(o8), "append of a part");
      u5e::utf32ne_string r; r.append<u32str>(w.at(cut), w.enc.codepoint_cend()); same(r.native_string, want.substr(cut), "append of a part"); }
    c.state(); c.step(12); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }));
#endif
#ifdef P_F01
  static const int RES[] = {0, 1, 2, 3, 1000, 16383};
  h.scopes.push_back(patterns("vast", RES, 6, [](Ctx& c, const int* v, int) {
    Text t = pat(RES, v); long sum = 0; for (int x : t) sum += x; if (sum > 0x7FFFFFFF) { c.outcome(1); return; }
    auto go = [&](auto b, auto e, const char* what) { size_t k = 0; std::vector<int> o; int r = u5e::filter(b, e, o, [&](int x, std::vector<int>& out) { if (k >= t.size() || t[k] != x) fail("%s: call %zu gets %d", what, k, x); k++; out.push_back(x); return x; });
      if (k != t.size() || o.size() != k) fail("%s: %zu calls instead of %zu", what, k, t.size()); if (r != sum) fail("%s: the sum is %d instead of %ld", what, r, sum); c.step(k); };
    go(t.begin(), t.end(), "vector"); go(t.data(), t.data() + t.size(), "array"); std::deque<int> d(t.begin(), t.end()); go(d.begin(), d.end(), "deque");
    if (v[0] == 1) { std::list<int> l(t.begin(), t.end()); go(l.begin(), l.end(), "list"); std::forward_list<int> f(t.begin(), t.end()); go(f.begin(), f.end(), "forward_list"); u5e::utf8_string s(ref::encode(t)); go(s.codepoint_cbegin(), s.codepoint_cend(), "UTF-8"); }
    c.state(); c.outcome(mc::hmix(sum, v[3])); c.nontrivial(); }));
#endif
#ifdef P_D02
  h.scopes.push_back(patterns("vast", NF, 9, [](Ctx& c, const int* v, int) {
    Text t = pat(NF, v), wa, wk; u5e::utf32ne_string a; u5e::utf8_string k; int n = 0;
    for (int x : t) { size_t p = wa.size(); ref::decompose(x, false, wa); int r = u5e::canonical_decomposition(u5e::codepoint(x), a); if (r != (int)(wa.size() - p)) fail("call %d announces %d codepoints", n, r); 
      p = wk.size(); ref::decompose(x, true, wk); if (n % 3 == 0 || v[3] < 40000) { u5e::utf32ne_string z; r = u5e::compatibility_and_canonical_decomposition(u5e::codepoint(x), z); if (r != (int)(wk.size() - p) || z.native_string.size() != (size_t)r) fail("compatibility call %d announces %d codepoints", n, r); } n++; }
    same(a.native_string, wa, "decomposed"); c.state(); c.step(t.size()); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }, thorough() ? 6 : 2));
#endif
#ifdef P_U07
  h.scopes.push_back(patterns("vast", ENC, 6, [](Ctx& c, const int* v, int) {
    Text t = pat(ENC, v); u5e::utf8_string s(ref::encode(t)); int n = (int)t.size();
    static const int alt[] = {'b', 0xEA, 0x20AD, 0x10349, 0x200001, 0x4000001};
    auto it = s.codepoint_begin(); for (int k = 0; k < n; k++) { if (k % 3 != 1) { int x = alt[ref::enc_len(t[k]) - 1]; t[k] = x; if (k & 4) { *it++ = u5e::codepoint(x); continue; } *it = u5e::codepoint(x); } ++it; }
    same(s.native_string, ref::encode(t), "edited forwards");
    for (int k = n; k-- > 0; ) { --it; if (k % 2) { int x = alt[ref::enc_len(t[k]) - 1] + 1; *it = u5e::codepoint(x); t[k] = x; if ((int)*it != x) fail("codepoint %d reads U+%04X after it was written", k, (int)*it); } }
    same(s.native_string, ref::encode(t), "edited backwards");
    c.state(); c.step(2 * n); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }));
#endif
#ifdef P_U08
  h.scopes.push_back(patterns("vast", ENC, 6, [](Ctx& c, const int* v, int) {
    Text t = pat(ENC, v); int n = (int)t.size(); S8 e8 = ref::encode(t); u5e::utf8_string s(e8); Text sorted(t); std::sort(sorted.begin(), sorted.end()); u5e::utf8_string o(ref::encode(sorted));
    Text rev(t.rbegin(), t.rend()); long sum = 0; for (int x : t) sum += x; int last = t.back(), first = t[0], other = v[1] == v[2] ? 'b' : t[n - 2];
    auto is = [&](long got, long want, const char* what) { if (got != want) fail("%s gives %ld instead of %ld", what, got, want); c.step(); };
    auto go = [&](auto b, auto e, auto ob, auto oe) {
      typedef decltype(b) It; auto less = [](int x, int y) { return x < y; };
      auto at = [&](It i) { long k = 0; for (It j = b; !(j == i); ++j) k++; return k; };
      is(std::distance(b, e), n, "std::distance"); is(std::count(b, e, u5e::codepoint(last)), std::count(t.begin(), t.end(), last), "std::count"); is(std::count_if(b, e, [&](int x) { return x != first; }), std::count_if(t.begin(), t.end(), [&](int x) { return x != first; }), "std::count_if");
      is(std::accumulate(b, e, 0L, [](long a, int x) { return a + x; }), sum, "std::accumulate"); { Text w; std::copy(b, e, std::back_inserter(w)); same(w, t, "std::copy"); } { Text w(b, e); same(w, t, "a vector"); }
      { Text w; std::reverse_copy(b, e, std::back_inserter(w)); same(w, rev, "std::reverse_copy"); } { std::reverse_iterator<It> x(e), y(b); Text w(x, y); same(w, rev, "reversed"); is(std::distance(x, y), n, "std::distance of reverse iterators"); }
      { int y = 0x7FFFFFFE; It i = std::find(b, e, u5e::codepoint(y)); if (i != e) fail("std::find finds what is not there"); }
      { Text w; std::partial_sum(b, e, std::back_inserter(w), [](int x, int y) { return (x + y) & 0xFFFF; }); Text z; std::partial_sum(t.begin(), t.end(), std::back_inserter(z), [](int x, int y) { return (x + y) & 0xFFFF; }); same(w, z, "std::partial_sum"); }
      { Text w; std::unique_copy(b, e, std::back_inserter(w)); Text z; std::unique_copy(t.begin(), t.end(), std::back_inserter(z)); same(w, z, "std::unique_copy"); }
      for (int k : {32767, 32768, 32769, 65535, 65536, 65537, n - 1}) if (k < n) { It i = std::next(b, k), j = std::prev(e, n - k), a = b; std::advance(a, k); is(at(i), k, "std::next"); is(at(j), k, "std::prev"); is(at(a), k, "std::advance"); std::advance(a, -k); is(at(a), 0, "std::advance back"); is(std::distance(i, e), n - k, "std::distance to the end"); is((int)*i, t[k], "reading there");
        Text w; std::copy_n(b, k, std::back_inserter(w)); same(w, head(t, k), "std::copy_n"); Text r; std::rotate_copy(b, i, e, std::back_inserter(r)); Text q(t.begin() + k, t.end()); q.insert(q.end(), t.begin(), t.begin() + k); same(r, q, "std::rotate_copy"); }
      if (!std::equal(b, e, t.begin()) || !std::equal(b, e, b)) fail("std::equal says no"); { auto m = std::mismatch(b, e, t.begin()); if (!(m.first == e)) fail("std::mismatch finds one"); } if (std::lexicographical_compare(b, e, t.begin(), t.end())) fail("std::lexicographical_compare says less");
      { It f = std::find_end(b, e, std::prev(e, 2), e); is(at(f), std::find_end(t.begin(), t.end(), t.end() - 2, t.end()) - t.begin(), "std::find_end"); } { It f = std::search_n(b, e, n, u5e::codepoint(first)); bool all = std::count(t.begin(), t.end(), first) == n; if ((f == b) != all || (f == e) == all) fail("std::search_n is wrong"); }
      is(at(std::max_element(b, e, less)), std::max_element(t.begin(), t.end()) - t.begin(), "std::max_element"); is(at(std::min_element(b, e, less)), std::min_element(t.begin(), t.end()) - t.begin(), "std::min_element");
      auto oat = [&](It i) { long k = 0; for (It j = ob; !(j == i); ++j) k++; return k; };
      for (int x : {first, last, other, 0, 0x7FFFFFFE}) { is(oat(std::lower_bound(ob, oe, u5e::codepoint(x), less)), std::lower_bound(sorted.begin(), sorted.end(), x) - sorted.begin(), "std::lower_bound"); is(oat(std::upper_bound(ob, oe, u5e::codepoint(x), less)), std::upper_bound(sorted.begin(), sorted.end(), x) - sorted.begin(), "std::upper_bound"); }
      if (!std::is_sorted(ob, oe, less)) fail("std::is_sorted says no"); { Text w; std::merge(b, e, ob, oe, std::back_inserter(w), less); Text z; std::merge(t.begin(), t.end(), sorted.begin(), sorted.end(), std::back_inserter(z)); same(w, z, "std::merge"); }
    };
    go(s.codepoint_cbegin(), s.codepoint_cend(), o.codepoint_cbegin(), o.codepoint_cend()); go(s.codepoint_begin(), s.codepoint_end(), o.codepoint_begin(), o.codepoint_end());
    if (v[0] == v[1]) { u5e::utf32ne_string x(to32(t)), y(to32(sorted)); go(x.codepoint_cbegin(), x.codepoint_cend(), y.codepoint_cbegin(), y.codepoint_cend()); }
    same(s.native_string, e8, "the text after reading");
    static const int alt[] = {'b', 0xEA, 0x20AD, 0x10349, 0x200001, 0x4000001}; auto to = [](int x) { return alt[ref::enc_len(x) - 1]; };
    std::transform(s.codepoint_begin(), s.codepoint_end(), s.codepoint_begin(), [&](int x) { return u5e::codepoint(to(x)); }); Text z(t); std::transform(z.begin(), z.end(), z.begin(), to); same(s.native_string, ref::encode(z), "std::transform");
    std::copy(t.begin(), t.end(), s.codepoint_begin()); same(s.native_string, e8, "std::copy back"); if (!(std::copy_n(z.begin(), n, s.codepoint_begin()) == s.codepoint_end())) fail("std::copy_n does not return the end"); same(s.native_string, ref::encode(z), "std::copy_n");
    std::copy_backward(t.begin(), t.end(), s.codepoint_end()); same(s.native_string, e8, "std::copy_backward");
    std::replace(s.codepoint_begin(), s.codepoint_end(), u5e::codepoint(last), u5e::codepoint(to(last))); z = t; std::replace(z.begin(), z.end(), last, to(last)); same(s.native_string, ref::encode(z), "std::replace");
    c.state(); c.outcome(mc::hmix(mc::hseq(head(t, 3)), v[3])); c.nontrivial(); }, thorough() ? 5 : 2));
#endif
#ifdef P_H01
  // calls on texts of different lengths, one after the other: v[i] is an operation, a kind of text and a length
  static const int HL[] = {1, 4, 33, 300, 1025}; enum { NHL = 5, NHO = 7, NH = NHL * NHO * 2 };
  struct Made { Text t, form[4], dec; S8 enc; std::vector<int> b; };
  static std::vector<Made> made;
  if (made.empty()) for (int k = 0; k < 2; k++) for (int n : HL) { Made m; for (int i = 0; i < n; i++) m.t.push_back(k ? (i % 5 == 0 ? 0x1E69 : i % 5 == 1 ? 0x327 : i % 5 == 2 ? 0xFB01 : i % 5 == 3 ? 0x20AC : 'a') : (i == 0 ? 'e' : i & 1 ? 0x301 : 0x327)); for (int f = 0; f < 4; f++) m.form[f] = lin_nf(f, m.t); m.enc = ref::encode(m.t); m.b = lin_bounds(m.t); m.dec = lin_nf(ref::NFD, m.t); made.push_back(m); }
  auto hop = [](Ctx& c, int q) {
    Made& m = made[q / NHO]; u5e::utf8_string o8; u5e::utf32ne_string o32; c.step();
    switch (q % NHO) {
      case 0: case 1: case 2: case 3: { int f = q % NHO; auto go = [&](auto s, auto& out) { auto e = s.enc.codepoint_cend(); for (typename decltype(s)::GI i(s.enc.codepoint_cbegin(), e); !(i == e); ++i) { auto g = *i; f == 0 ? u5e::normalization_form_d(g, out) : f == 1 ? u5e::normalization_form_c(g, out) : f == 2 ? u5e::normalization_form_kd(g, out) : u5e::normalization_form_kc(g, out); } };
        if (f & 1) { go(U8V(m.t), o8); same(o8.native_string, ref::encode(m.form[f]), ref::form_name[f]); } else { go(U32V(m.t), o32); same(o32.native_string, m.form[f], ref::form_name[f]); } break; }
      case 4: { U8V s(m.t); std::vector<int> off = ref::offsets(m.t); size_t k = 0; for (U8V::GI i(s.enc.codepoint_cbegin(), s.enc.codepoint_cend()); !(i == s.enc.codepoint_cend()); ++i, ++k) { auto g = *i; if (k + 1 >= m.b.size() || !(g.codepoint_end() == s.at(off[m.b[k + 1]]))) fail("grapheme %zu is another one", k); } break; }
      case 5: { u5e::utf32ne_string s(to32(m.t)); o8.append_from_utf32ne<u32str>(s.codepoint_cbegin(), s.codepoint_cend()); same(o8.native_string, m.enc, "converted"); u5e::utf8_string z; z.append(o8.codepoint_cbegin(), o8.codepoint_cend()); same(z.native_string, m.enc, "appended"); break; }
      case 6: { u5e::utf32ne_string s(to32(m.dec)); int n = 0; auto e = u5e::canonical_composition(s, &n); same(u32str(s.native_string.begin(), e), m.form[1], "composed"); if (n != (int)(m.dec.size() - m.form[1].size())) fail("%d compositions", n); break; }
    }
  };
  h.scopes.push_back(mc::seq_scope("lengths", NH, 2, [hop](Ctx& c, const int* v, int n) { for (int i = 0; i < n; i++) hop(c, v[i]); c.state(); c.outcome(mc::hmix(v[0], v[1])); c.nontrivial(); }, [](const int* v, int n) { S8 s; for (int i = 0; i < n; i++) s += "operation " + std::to_string(v[i] % NHO) + " on text " + std::to_string(v[i] / NHO) + "; "; return s; }));
  h.scopes.back().bound += ": 7 operations on 2 kinds of text of 1, 4, 33, 300 and 1025 codepoints, one after the other in one process";
  if (thorough()) { h.scopes.push_back(mc::seq_scope("lengths-3", NH, 3, [hop](Ctx& c, const int* v, int n) { for (int i = 0; i < n; i++) hop(c, v[i]); c.state(); c.outcome(mc::hmix(mc::hmix(v[0], v[1]), v[2])); c.nontrivial(); }, [](const int* v, int n) { S8 s; for (int i = 0; i < n; i++) s += "operation " + std::to_string(v[i] % NHO) + " on text " + std::to_string(v[i] / NHO) + "; "; return s; })); h.scopes.back().bound += ": the same, three of them"; }
  // v[0..2] are calls; the pattern of calls is made v[3] times in one process
  h.scopes.push_back(mc::list_scope("many-calls", "call X, then calls Y Z Y Z ..., X Y Z from 10 calls, 65537 and 131073 calls in one process", 100, [](Ctx& c, uint64_t t) {
      for (int x = 0; x < 10; x++) for (int n : {65537, 131073}) { int v[4] = {x, (int)t / 10, (int)t % 10, n}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) {
      u5e::utf8_string src("e\xCC\x81"); static const int DEC[] = {0x73, 0x323, 0x307};
      for (int i = 0; i < v[3]; i++) {
        bool ok = true; int r = 0;
        switch (i ? v[1 + i % 2] : v[0]) {
          case 0: ok = u5e::props::canonical_combining_class::resolve(0x301) == 230; break;
          case 1: ok = u5e::props::canonical_combining_class::resolve('a') == 0; break;
          case 2: ok = (int)u5e::props::grapheme_cluster_break::resolve(0x1F3FB) == (int)u5e::props::grapheme_cluster_break::resolve(0x1F3FC) && u5e::props::grapheme_cluster_break::resolve(0x1F3FB) != u5e::props::grapheme_cluster_break::resolve('a'); break;
          case 3: { const int* d = u5e::props::canonical_decomposition_mapping::resolve(0x1E69); ok = d && std::equal(DEC, DEC + 3, d) && d[3] == 0; break; }
          case 4: { const int* d = u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(0xFB01); ok = d && d[0] == 'f' && d[1] == 'i' && d[2] == 0; break; }
          case 5: ok = u5e::props::canonical_decomposition_mapping::resolve('a') == nullptr && u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(0x10FFFF) == nullptr; break;
          case 6: ok = u5e::props::canonical_composition_mapping::resolve('a', 0x301, &r) && r == 0xE1; break;
          case 7: ok = !u5e::props::canonical_composition_mapping::resolve(0x301, 'a', &r); break;
          case 8: { u5e::utf8_string o; u5e::utf8_string_grapheme_iterator g(src.codepoint_cbegin(), src.codepoint_cend()); r = u5e::normalization_form_c<u5e::utf8_string, u5e::utf8_string>(*g, o); ok = o.native_string == "\xC3\xA9" && r == 1; break; }
          case 9: { u5e::utf8_string_grapheme_iterator g(src.codepoint_cbegin(), src.codepoint_cend()); ++g; ok = g == src.codepoint_cend(); break; }
        }
        if (!ok) fail("call %d gives something else than the first", i); c.step();
      }
      c.state(); c.outcome(v[0] * 100 + v[1] * 10 + v[2]); c.nontrivial(); },
    [](const int* v, int) { static const char* const N[] = {"class of U+0301", "class of a", "break class of U+1F3FB and U+1F3FC", "decomposition of U+1E69", "compatibility decomposition of U+FB01", "decomposition of a and U+10FFFF", "composition of a U+0301", "composition of U+0301 a", "form C of e U+0301", "segmentation of e U+0301"};
      return std::string(N[v[0]]) + ", then " + N[v[2]] + ", " + N[v[1]] + ", ... " + std::to_string(v[3]) + " calls"; }));
#endif
  for (auto& x : EXTRA) h.scopes.push_back(x);
  return run_harness(h, argc, argv);
}
