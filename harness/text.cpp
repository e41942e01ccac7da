// U03 S01: views are confined to their text; copy, assignment and append are exact.
#include "storages.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;
static Guard& G() { static Guard g; return g; }
static int start_of(const std::vector<int>& off, int o) { int r = off.back(); for (size_t k = 0; k + 1 < off.size(); k++) if (o >= off[k] && o < off[k + 1]) r = off[k]; return r; }
static int index_of(const std::vector<int>& off, int o) { for (size_t k = 0; k + 1 < off.size(); k++) if (o >= off[k] && o < off[k + 1]) return (int)k; return (int)off.size() - 1; }

// ---------------------------------------------------------------- U03
struct W8 {
  static const char* name() { return "UTF-8 view"; }
  typedef u5e::utf8_string_view Enc; typedef char Unit; typedef u8view Nat; typedef u5e::utf8_string_view_grapheme_iterator GI; typedef u5e::utf8_string Str; typedef std::string SNat;
  static SNat units(const Text& t) { return ref::encode(t); }
  static std::vector<int> offsets(const Text& t) { return ref::offsets(t); }
};
struct W32 {
  static const char* name() { return "UTF-32 view"; }
  typedef u5e::utf32ne_string_view Enc; typedef int Unit; typedef u32view Nat; typedef u5e::utf32ne_string_view_grapheme_iterator GI; typedef u5e::utf32ne_string Str; typedef u32str SNat;
  static SNat units(const Text& t) { return to32(t); }
  static std::vector<int> offsets(const Text& t) { std::vector<int> r; for (size_t i = 0; i <= t.size(); i++) r.push_back((int)i); return r; }
};
typedef std::vector<int> Obs;
template <class W, class Out> void forms(Obs& o, typename W::GI g) {
  auto x = *g;
  for (int f = 0; f < 4; f++) {
    Out out{Text()}; int n = 0;
    switch (f) {
      case ref::NFD: n = u5e::normalization_form_d(x, out.enc); break;
      case ref::NFC: n = u5e::normalization_form_c(x, out.enc); break;
      case ref::NFKD: n = u5e::normalization_form_kd(x, out.enc); break;
      case ref::NFKC: n = u5e::normalization_form_kc(x, out.enc); break;
    }
    o.push_back(n); o.push_back((int)out.enc.native_string.size()); o.insert(o.end(), out.enc.native_string.begin(), out.enc.native_string.end());
  }
}
// Everything observable about the view, as numbers. `marks` receives (index in the result, name of the operation).
enum { B_FORWARD, B_MUTABLE, B_BACK, B_COMPARE, B_READ, B_SEGMENT, B_NORMALIZE, B_FIND, B_GAPPEND, B_APPEND, B_CHECK, NB };
static const char* const bname[] = {"forward iteration", "forward iteration", "backward iteration", "comparison", "reading and stepping", "segmentation", "normalization", "finding a grapheme", "appending graphemes", "appending codepoints", "the bounds check"};
template <class W> void observe(const Text& t, const typename W::Unit* p, size_t n, Obs* obs) {
  typedef typename W::Enc Enc; typedef typename W::GI GI; typedef typename Enc::const_iterator CI;
  Enc v(typename W::Nat(p, n)); std::vector<int> off = W::offsets(t); int k = t.size();
  auto at = [&](int o) { return CI(v.native_cbegin() + o); };
  auto pos = [&](CI i) { int r = 0, c = 0; for (int j = 0; j <= k; j++) if (i == at(off[j])) { r = j; c++; } return r + 1000 * c; };
  for (int w = 0; w < NB; w++) obs[w].clear();
  size_t lim = k + 2, s = 0;
  for (CI i = v.codepoint_cbegin(), e = v.codepoint_cend(); i != e && s++ < lim; ++i) obs[B_FORWARD].push_back(*i);
  s = 0;
  for (auto i = v.codepoint_begin(), e = v.codepoint_end(); i != e && s++ < lim; i++) obs[B_MUTABLE].push_back(*i);
  { CI i = v.codepoint_cend(); for (int j = k - 1; j >= 0; j--) { --i; obs[B_BACK].push_back(*i); } obs[B_BACK].push_back(pos(i)); }
  for (size_t a = 0; a <= n; a++) for (size_t b = 0; b <= n; b++) { CI x = at(a), y = at(b); obs[B_COMPARE].push_back((x == y) + 2 * (x != y)); }
  for (size_t a = 0; a < n; a++) { CI x = at(a); obs[B_READ].push_back(*x); obs[B_READ].push_back(pos(at(a))); CI y = at(a); y++; obs[B_READ].push_back(pos(y)); }
  for (size_t a = n; a >= 1 && index_of(off, a) > 0; a--) { CI y = at(a); y--; obs[B_READ].push_back(pos(y)); }
  GI g = v.grapheme_begin(), e = v.grapheme_end(); s = 0;
  while (g != e && s++ < lim) {
    auto x = *g; obs[B_SEGMENT].push_back(pos(x.codepoint_begin())); obs[B_SEGMENT].push_back(pos(x.codepoint_end()));
    forms<W, U8S>(obs[B_NORMALIZE], g); forms<W, U32S>(obs[B_NORMALIZE], g);
    ++g;
  }
  for (size_t a = 0; a <= n; a++) {
    GI f(v.codepoint_cbegin(), v.codepoint_cend(), at(a)); auto x = *f;
    obs[B_FIND].push_back(pos(x.codepoint_begin())); obs[B_FIND].push_back(pos(x.codepoint_end())); obs[B_FIND].push_back((f == e) + 2 * (f != e));
    typename W::Str out; GI first = v.grapheme_begin(); out.template append<typename W::Nat>(first, f);
    obs[B_GAPPEND].push_back(-7); obs[B_GAPPEND].insert(obs[B_GAPPEND].end(), out.native_string.begin(), out.native_string.end());
  }
  for (size_t a = 0; a <= n; a++) for (size_t z = a; z <= n; z++) {
    typename W::Str out(W::units(Text{'k'})); out.template append<typename W::Nat>(at(a), at(z));
    obs[B_APPEND].push_back(-7); obs[B_APPEND].insert(obs[B_APPEND].end(), out.native_string.begin(), out.native_string.end());
  }
}
static void check_bounds(const char* p, size_t n, Obs& o) { o.push_back(u5e::utf8_bounds<const char*>::check(p, p + n)); }
static void check_bounds(const int*, size_t, Obs& o) { o.push_back(1); }
template <class W> void battery(Ctx& c, const Text& t, const typename W::Unit* p, size_t n, const std::string& where) {
  static Obs alone[NB], here[NB]; static Text last; static bool have = false;
  if (!have || last != t) {   // the text alone, in a buffer of its own
    typename W::SNat own = W::units(t); observe<W>(t, own.data(), own.size(), alone); alone[B_CHECK].assign(1, 1); last = t; have = true;
    if (alone[B_FORWARD] != t) fail("%s: the text %s does not read back", W::name(), ref::show(t).c_str());
  }
  observe<W>(t, p, n, here); check_bounds(p, n, here[B_CHECK]);
  for (int w = 0; w < NB; w++) {
    if (here[w] != alone[w]) fail("%s: %s depends on what surrounds %s: %s", W::name(), bname[w], ref::show(t).c_str(), where.c_str());
    c.step(here[w].size());
  }
}
// surroundings: 0 inaccessible memory, else these units
static const char* const L8[] = {0, "", "a", "\x80\x80\x80\x80\x80\x80\x80", "\xC3", "\xF0\x9F\x87", "\xFC\x80", "e\xCC\x81", "\xF0\x9F\x87\xA6", "\xE1\x84\x80", "\xFF\xFF"};
static const char* const R8[] = {0, "", "a", "\x80", "\x80\x80\x80\x80\x80\x80\x80", "\xC3", "\xCC\x81", "\xF0\x9F\x87\xA6", "\xE1\x85\xA1", "\xE2\x80\x8D", "\xF0\x9F\x8F\xBB", "\xFF\xFF"};
static const std::vector<int> L32[] = {{}, {'a'}, {0x301}, {0x1F1E6}, {0x1F1E6, 0x1F1E6}, {0x1100}, {0x200D}, {0x600}, {-1}, {0x7FFFFFFF}, {'e'}, {0x261D, 0x301}};
static const std::vector<int> R32[] = {{}, {'a'}, {0x301}, {0x1F1E6}, {0x1161}, {0x200D}, {0x1F3FB}, {0x903}, {-1}, {0x7FFFFFFF}, {0x323, 0x301}, {0x0A}};
enum { NL8 = sizeof L8 / sizeof *L8, NR8 = sizeof R8 / sizeof *R8, NL32 = sizeof L32 / sizeof *L32, NR32 = sizeof R32 / sizeof *R32 };
static const int VT[] = {'a', 0xE9, 0x301, 0x1100, 0x1F1E6, 0x0D, 0x261D, 0xAC00, 0x600, 0x200D, 0x10FFFF};
static Text vt(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(VT[v[i]]); return t; }

static void view8(Ctx& c, const Text& t) {
  std::string s = ref::encode(t); char* base = G().lo(); size_t cap = Guard::PAGE * Guard::PAGES;
  for (int l = 0; l < NL8; l++) for (int r = 0; r < NR8; r++) {
    if (!l && !r) continue;   // cannot be flush on both sides at once
    std::string left = l ? L8[l] : "", right = r ? R8[r] : "", around = left + s + right;
    size_t pos = !l ? 0 : !r ? cap - around.size() : 100;
    memset(base, 'x', 300); memset(base + cap - 300, 'x', 300);
    memcpy(base + pos, around.data(), around.size());
    std::string where = (l ? "after " + ref::hex(left) : "at the start of memory ") + (r ? "before " + ref::hex(right) : "at the end of memory");
    battery<W8>(c, t, base + pos + left.size(), s.size(), where);
    if (memcmp(base + pos, around.data(), around.size())) fail("the text or its surroundings were written to: %s", where.c_str());
    c.state(); c.nontrivial();
  }
  c.outcome(mc::hseq(t));
}
static void view32(Ctx& c, const Text& t) {
  u32str s = to32(t); int* base = (int*)G().lo(); size_t cap = Guard::PAGE * Guard::PAGES / 4;
  for (int l = -1; l < NL32; l++) for (int r = -1; r < NR32; r++) {
    if (l < 0 && r < 0) continue;
    u32str left, right; if (l >= 0) left = to32(L32[l]); if (r >= 0) right = to32(R32[r]); u32str around = left + s + right;
    size_t pos = l < 0 ? 0 : r < 0 ? cap - around.size() : 100;
    for (int i = 0; i < 300; i++) base[i] = base[cap - 1 - i] = 'x';
    memcpy(base + pos, around.data(), around.size() * 4);
    std::string where = (l >= 0 ? "after " + ref::show(from32(left)) : "at the start of memory ") + (r >= 0 ? "before " + ref::show(from32(right)) : "at the end of memory");
    battery<W32>(c, t, base + pos + left.size(), s.size(), where);
    if (memcmp(base + pos, around.data(), around.size() * 4)) fail("the text or its surroundings were written to: %s", where.c_str());
    c.state(); c.nontrivial();
  }
  c.outcome(mc::hseq(t) + 1);
}
static void empty_views(Ctx& c) {
  Text none;
  { u5e::utf8_string_view v; battery<W8>(c, none, v.native_string.data(), 0, "a default view"); }
  { u5e::utf8_string_view v{u8view()}; if (!(v.codepoint_cbegin() == v.codepoint_cend())) fail("an empty view is not empty"); }
  { u5e::utf32ne_string_view v; battery<W32>(c, none, v.native_string.data(), 0, "a default view"); }
  battery<W8>(c, none, nullptr, 0, "a null view"); battery<W32>(c, none, nullptr, 0, "a null view");
  u5e::utf8_string e; u5e::utf32ne_string f; if (e.codepoint_begin() != e.codepoint_end() || !(e.grapheme_begin() == e.grapheme_end()) || f.codepoint_begin() != f.codepoint_end() || !(f.grapheme_begin() == f.grapheme_end())) fail("an empty string is not empty");
  c.state(8); c.outcome(1);
}

// ---------------------------------------------------------------- S01
static const int ST[] = {'a', 0xE9, 0x20AC, 0x10348, 0x301, 0x7FFFFFFF, 0, 0x1F1E6};
static Text st(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(ST[v[i]]); return t; }
template <class Src, class Dst> void appends(Ctx& c, const Text& t, const Text& pre) {
  std::vector<int> off = Src::offsets(t); int n = off.back();
  Src src(t); auto before = src.data;
  for (int i = 0; i <= n; i++) for (int j = i; j <= n; j++) {
    Dst out(pre); Text w(pre); w.insert(w.end(), t.begin() + index_of(off, i), t.begin() + index_of(off, j));
    auto& r = out.enc.template append<typename Src::Nat>(src.at(i), src.at(j));
    if (&r != &out.enc) fail("append does not return its object");
    if (!same_units(out.enc.native_string, Dst(w).enc.native_string))
      fail("appending units %d to %d of %s (%s) after %s leaves %zu units instead of %zu", i, j, ref::show(t).c_str(), Src::name(), ref::show(pre).c_str(), out.enc.native_string.size(), Dst(w).enc.native_string.size());
    c.step();
  }
  if (src.data != before || !same_units(src.enc.native_string, before)) fail("appending changed its source");
}
template <class Src, class Dst> void appends_own(Ctx& c, const Text& t, const Text& pre) {   // the overload for the same storage
  std::vector<int> off = Src::offsets(t); int n = off.back(); Src src(t);
  for (int i = 0; i <= n; i++) for (int j = i; j <= n; j++) {
    Dst out(pre); Text w(pre); w.insert(w.end(), t.begin() + index_of(off, i), t.begin() + index_of(off, j));
    out.enc.append(src.at(i), src.at(j));
    if (!same_units(out.enc.native_string, Dst(w).enc.native_string)) fail("appending units %d to %d of %s after %s is wrong", i, j, ref::show(t).c_str(), ref::show(pre).c_str());
    c.step();
  }
}
// the caller's iterators stay where they are
template <class GI> void unmoved(GI& i, GI& was) { auto a = *i, b = *was; if (!(a.codepoint_begin() == b.codepoint_begin()) || !(a.codepoint_end() == b.codepoint_end())) fail("appending moved an iterator of the caller"); }
template <class Src, class Dst> void appends_graphemes(Ctx& c, const Text& t, const Text& pre) {
  typedef typename Src::GI GI; Src src(t); auto before = src.data; std::vector<int> bo = ref::bounds(t); std::vector<GI> at; GI g = src.enc.grapheme_begin(); if (bo.empty()) bo.push_back(0);
  for (size_t i = 0; i < bo.size(); i++) { at.push_back(g); if (i + 1 < bo.size()) ++g; }
  for (size_t i = 0; i < bo.size(); i++) for (size_t j = i; j < bo.size(); j++) {
    Dst out(pre); Text w(pre); w.insert(w.end(), t.begin() + bo[i], t.begin() + bo[j]); GI f(at[i]), l(at[j]);
    out.enc.template append<typename Src::Nat>(f, l);
    if (!same_units(out.enc.native_string, Dst(w).enc.native_string)) fail("appending graphemes %zu to %zu of %s (%s) after %s leaves %zu units instead of %zu", i, j, ref::show(t).c_str(), Src::name(), ref::show(pre).c_str(), out.enc.native_string.size(), Dst(w).enc.native_string.size());
    unmoved(f, at[i]); unmoved(l, at[j]);
    c.step();
  }
  if (src.data != before || !same_units(src.enc.native_string, before)) fail("appending graphemes changed their source");
}
template <class Own> void appends_graphemes_own(Ctx& c, const Text& t, const Text& pre) {
  typedef typename Own::GI GI; Own src(t); std::vector<int> bo = ref::bounds(t); std::vector<GI> at; GI g = src.enc.grapheme_begin(); if (bo.empty()) bo.push_back(0);
  for (size_t i = 0; i < bo.size(); i++) { at.push_back(g); if (i + 1 < bo.size()) ++g; }
  for (size_t i = 0; i < bo.size(); i++) for (size_t j = i; j < bo.size(); j++) {
    Own out(pre); Text w(pre); w.insert(w.end(), t.begin() + bo[i], t.begin() + bo[j]); GI f(at[i]), l(at[j]); auto& r = out.enc.append(f, l); unmoved(f, at[i]); unmoved(l, at[j]);
    if (&r != &out.enc || !same_units(out.enc.native_string, Own(w).enc.native_string)) fail("appending graphemes %zu to %zu of %s after %s is wrong", i, j, ref::show(t).c_str(), ref::show(pre).c_str());
    Own self(t); GI sf = self.enc.grapheme_begin(), sl = self.enc.grapheme_begin(); for (size_t k = 0; k < j; k++) { ++sl; if (k < i) ++sf; }
    self.enc.append(sf, sl); Text x(t); x.insert(x.end(), t.begin() + bo[i], t.begin() + bo[j]); if (!same_units(self.enc.native_string, Own(x).enc.native_string)) fail("appending graphemes %zu to %zu of %s to itself is wrong", i, j, ref::show(t).c_str());
    c.step(2);
  }
}
// operation sequences on two strings of one encoding
enum { Q_AB, Q_BA, Q_AA, Q_COPY, Q_APB, Q_BPA, Q_APA, Q_GRAPH, Q_OWNG, Q_TRUNC, Q_WRITE, Q_CONV, NQ };
static const char* const qn[] = {"a = b", "b = a", "a = a", "b = copy of a", "a += b", "b += a without its first codepoint", "a += a", "a += graphemes of b but the last", "a += its own graphemes but the first", "a = a truncated one unit early", "write into a", "a += converted text"};
template <class S> void sequence(Ctx& c, const int* v, int n) {
  typedef typename S::Enc E; typedef typename S::GI GI; typedef typename S::Nat Nat;
  Text A{'a', 0xE9}, B{0x20AC, 0x301, 'b'}; E a(S(A).data), b(S(B).data);
  auto units = [](const Text& t) { return S(t).data; };
  auto at = [](E& e, int o) { return typename E::const_iterator(e.native_cbegin() + o); };
  for (int i = 0; i < n; i++) {
    switch (v[i]) {
      case Q_AB: { E& r = (a = b); if (&r != &a) fail("assignment does not return its object"); A = B; break; }
      case Q_BA: { E& r = (b = a); if (&r != &b) fail("assignment does not return its object"); B = A; break; }
      case Q_AA: { E& self = a; a = self; break; }
      case Q_COPY: { E copy(a); if (copy.native_string != a.native_string) fail("a copy differs"); copy.native_string.push_back('!'); copy.native_string[0] = '!'; if (a.native_string != units(A)) fail("changing a copy changes the original"); E again(a); b = again; again.native_string.clear(); B = A; break; }
      case Q_APB: a.append(b.codepoint_cbegin(), b.codepoint_cend()); A.insert(A.end(), B.begin(), B.end()); break;
      case Q_BPA: { if (A.empty()) return; auto f = a.codepoint_cbegin(); ++f; b.append(f, a.codepoint_cend()); B.insert(B.end(), A.begin() + 1, A.end()); break; }
      case Q_APA: { if (A.size() > 40) return; a.append(a.codepoint_cbegin(), a.codepoint_cend()); Text x = A; A.insert(A.end(), x.begin(), x.end()); break; }
      case Q_GRAPH: { std::vector<int> bo = ref::bounds(B); if (bo.size() < 2) return; GI f = b.grapheme_begin(), l = b.grapheme_begin(); for (size_t k = 0; k + 2 < bo.size(); k++) ++l; GI f0(f), l0(l); a.append(f, l); unmoved(f, f0); unmoved(l, l0); A.insert(A.end(), B.begin(), B.begin() + bo[bo.size() - 2]); break; }
      case Q_OWNG: { std::vector<int> bo = ref::bounds(A); if (bo.size() < 2 || A.size() > 40) return; GI f = a.grapheme_begin(), l = a.grapheme_end(); ++f; a.append(f, l); Text x(A.begin() + bo[1], A.end()); A.insert(A.end(), x.begin(), x.end()); break; }
      case Q_TRUNC: { if (A.empty()) return; E t; int size = (int)units(A).size(); t.append(a.codepoint_cbegin(), at(a, size - 1)); a = t; A.pop_back(); break; }
      case Q_WRITE: { if (A.empty() || A[0] > 0x7F || A[0] < 1) return; *a.native_begin() = 'z'; A[0] = 'z'; break; }
      case Q_CONV: { u5e::utf32ne_string s(to32(Text{0x10348, 'c'})); a.template append_from_utf32ne<u5e::utf32ne_string>(s.codepoint_cbegin(), s.codepoint_cend()); A.push_back(0x10348); A.push_back('c'); break; }
    }
    if (a.native_string != units(A)) fail("%s: after step %d (%s) the first text is %s", S::name(), i, qn[v[i]], ref::show(A).c_str());
    if (b.native_string != units(B)) fail("%s: after step %d (%s) the second text changed or is wrong", S::name(), i, qn[v[i]]);
    if (!std::equal(a.native_cbegin(), a.native_cend(), a.native_string.begin()) || a.native_cend() - a.native_cbegin() != (long)a.native_string.size() || a.native_end() - a.native_begin() != (long)a.native_string.size()) fail("native range is wrong");
    c.step();
  }
  if (walk(a.codepoint_cbegin(), a.codepoint_cend(), A.size() + 2) != A || walk(b.codepoint_begin(), b.codepoint_end(), B.size() + 2) != B) fail("%s: the texts do not read back", S::name());
  c.state(); c.outcome(mc::hmix(mc::hseq(A), mc::hseq(B))); c.nontrivial();
}

int main(int argc, char** argv) {
  mc::Harness h;
#ifdef P_U03
  h.scopes.push_back(mc::list_scope("empty", "empty views: default, null, of each encoding", 1, [](Ctx& c, uint64_t) { int v = 0; c.go(&v, 1); }, [](Ctx& c, const int*, int) { empty_views(c); }, [](const int*, int) { return std::string("empty view"); }));
  for (int L = 0; L <= (thorough() ? 4 : 3); L++) {
    int k = L < 3 ? 11 : L == 3 ? (thorough() ? 11 : 9) : 7;
    auto show = [](const int* v, int n) { return ref::show(vt(v, n)); };
    std::string b = " x " + std::to_string(NL8 * NR8 - 1) + " surroundings";
    h.scopes.push_back(mc::seq_scope("utf8-" + std::to_string(L), k, L, [](Ctx& c, const int* v, int n) { view8(c, vt(v, n)); }, show)); h.scopes.back().bound += b;
    h.scopes.push_back(mc::seq_scope("utf32-" + std::to_string(L), k, L, [](Ctx& c, const int* v, int n) { view32(c, vt(v, n)); }, show)); h.scopes.back().bound += " x " + std::to_string((NL32 + 1) * (NR32 + 1) - 1) + " surroundings";
  }
#endif
#ifdef P_S01
  for (int L = 0; L <= (thorough() ? 5 : 4); L++) h.scopes.push_back(mc::seq_scope("append-" + std::to_string(L), L <= 3 ? 8 : L == 4 ? 6 : 6, L, [](Ctx& c, const int* v, int n) {
    Text t = st(v, n), pre[] = {{}, {'p'}, {0xE9}, {0x20AC, 0x10348}, Text(13, 'q'), Text(15, 'q'), Text(16, 'q'), Text(40, 0xE9)};
    for (auto& p : pre) { appends<U8S, U8S>(c, t, p); appends<U8V, U8S>(c, t, p); appends<U32S, U32S>(c, t, p); appends<U32V, U32S>(c, t, p); if (n > 3) break; }
    for (int k : {0, 2, 5}) { appends_graphemes<U8S, U8S>(c, t, pre[k]); appends_graphemes<U8V, U8S>(c, t, pre[k]); appends_graphemes<U32S, U32S>(c, t, pre[k]); appends_graphemes<U32V, U32S>(c, t, pre[k]); appends_graphemes_own<U8S>(c, t, pre[k]); appends_graphemes_own<U32S>(c, t, pre[k]); if (n > 3) break; }
    appends_own<U8S, U8S>(c, t, pre[2]); appends_own<U32S, U32S>(c, t, pre[2]);
    c.state(); c.outcome(mc::hseq(t)); if (n > 1) c.nontrivial();
  }, [](const int* v, int n) { return ref::show(st(v, n)); }));
  // longer sources: truncation at every unit of a run with one deviating codepoint
  h.scopes.push_back(mc::list_scope("long-append", "runs of 1 to 40 of each of 8 codepoints with one of 8 others at each place, truncated at every native offset", 64, [](Ctx& c, uint64_t t) {
      for (int n = 1; n <= (thorough() ? 70 : 24); n++) for (int p = 0; p < n; p++) { int v[4] = {(int)t / 8, (int)t % 8, n, p}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) {
      Text t(v[2], ST[v[0]]); t[v[3]] = ST[v[1]]; std::vector<int> off = ref::offsets(t); U8S s(t); std::string all = s.data;
      for (int o = 0; o <= off.back(); o++) { u5e::utf8_string out; out.append(s.enc.codepoint_cbegin(), s.at(o)); if (out.native_string != all.substr(0, start_of(off, o))) fail("truncating %zu codepoints at octet %d keeps %zu octets instead of %d", t.size(), o, out.native_string.size(), start_of(off, o)); c.step(); }
      c.state(); c.outcome(mc::hseq(t)); c.nontrivial();
    }, [](const int* v, int) { char b[99]; snprintf(b, sizeof b, "%d x U+%04X with U+%04X at %d", v[2], ST[v[0]], ST[v[1]], v[3]); return std::string(b); }));
  h.scopes.push_back(mc::list_scope("big-append", "runs within 2 of 64, 128, 256, 512, 1024, 4096 of each of 8 codepoints with one of 8 others first, in the middle or last: appended whole, from the middle, and truncated at every one of the last 8 units, after '', 'q' x 13, or itself", 64, [](Ctx& c, uint64_t t) {
      for (int n : {64, 128, 256, 512, 1024, 4096}) for (int d = -2; d <= 2; d++) for (int p = 0; p < 3; p++) { int v[4] = {(int)t / 8, (int)t % 8, n + d, p}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) {
      Text t(v[2], ST[v[0]]); t[v[3] * (v[2] - 1) / 2] = ST[v[1]]; std::vector<int> off = ref::offsets(t); U8S s(t); U32S w(t); std::string all = s.data; u32str all32 = to32(t);
      std::vector<std::string> pre{"", std::string(13, 'q'), all};
      for (auto& p : pre) for (int from : {0, off[v[2] / 2]}) for (int o = off.back(); o >= from && o > off.back() - 8; o--) { u5e::utf8_string out(p); out.append(s.at(from), s.at(o)); int e = start_of(off, o); if (out.native_string != p + all.substr(from, e - from)) fail("appending octets %d to %d of %zu codepoints to %zu octets gives %zu octets", from, o, t.size(), p.size(), out.native_string.size()); c.step(); }
      for (int from : {0, v[2] / 2}) for (int to : {v[2], v[2] - 1}) { u5e::utf32ne_string out(u32str(13, 'q')); out.append(w.at(from), w.at(to)); if (out.native_string != u32str(13, 'q') + all32.substr(from, to - from)) fail("appending codepoints %d to %d of %zu in UTF-32 is wrong", from, to, t.size()); c.step(); }
      c.state(); c.outcome(mc::hseq(t)); c.nontrivial();
    }, [](const int* v, int) { char b[99]; snprintf(b, sizeof b, "%d x U+%04X with U+%04X at %s", v[2], ST[v[0]], ST[v[1]], v[3] == 0 ? "the start" : v[3] == 1 ? "the middle" : "the end"); return std::string(b); }));
  for (int L = 1; L <= (thorough() ? 7 : 6); L++) {
    auto show = [](const int* v, int n) { std::string s; for (int i = 0; i < n; i++) s += std::string(qn[v[i]]) + "; "; return s; };
    h.scopes.push_back(mc::seq_scope("ops-utf8-" + std::to_string(L), NQ, L, [](Ctx& c, const int* v, int n) { sequence<U8S>(c, v, n); }, show));
    if (L <= 5) h.scopes.push_back(mc::seq_scope("ops-utf32-" + std::to_string(L), NQ, L, [](Ctx& c, const int* v, int n) { sequence<U32S>(c, v, n); }, show));
  }
#endif
  return run_harness(h, argc, argv);
}
