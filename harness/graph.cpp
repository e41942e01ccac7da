// G02 G03: segmentation into grapheme clusters.
#include "storages.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;

// one representative per class, then a second one with another encoded length
static const int REP[2][ref::NGCB] = {
  {0x61, 0x600, 0x0D, 0x0A, 0x01, 0x300, 0x1F1E6, 0x903, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x261D, 0x1F3FB, 0x200D, 0x2764, 0x1F466},
  {0x10348, 0x110BD, 0x0D, 0x0A, 0xE0001, 0x1D165, 0x1F1FF, 0xE33, 0xA960, 0xD7B0, 0xD7CB, 0xD788, 0xD7A3, 0x1F385, 0x1F3FF, 0x200D, 0x1F48B, 0x1F469}};
static Text reps(const int* v, int n, int set) { Text t; for (int i = 0; i < n; i++) t.push_back(REP[set][v[i]]); return t; }
static std::vector<Text> clusters(const Text& t) {
  std::vector<int> b = ref::bounds(t); std::vector<Text> r;
  for (size_t i = 0; i + 1 < b.size(); i++) r.push_back(Text(t.begin() + b[i], t.begin() + b[i + 1]));
  return r;
}
static std::string show_c(const std::vector<Text>& c) { std::string s; for (auto& t : c) s += ref::show(t); return s; }

template <class St> void segment(Ctx& c, const Text& t) {
  St s(t); std::vector<Text> want = clusters(t), got;
  typedef typename St::GI GI;
  GI i = s.enc.grapheme_begin(), e = s.enc.grapheme_end();
  auto prev = s.at(0);
  while (i != e) {
    if (got.size() > t.size()) fail("%s: iterating the graphemes of %s does not stop", St::name(), ref::show(t).c_str());
    auto g = *i;
    if (!(g.codepoint_begin() == prev)) fail("%s: grapheme %zu of %s does not start where the previous one ended", St::name(), got.size(), ref::show(t).c_str());
    got.push_back(between(g.codepoint_begin(), g.codepoint_end(), t.size() + 1));
    prev = g.codepoint_end(); ++i; c.step();
  }
  if (got != want) fail("%s: %s is split into %s instead of %s", St::name(), ref::show(t).c_str(), show_c(got).c_str(), show_c(want).c_str());
  if (!(prev == s.at(s.size()))) fail("%s: the graphemes of %s do not reach its end", St::name(), ref::show(t).c_str());
}
// the other ways to write the loop
template <class St> void segment_alt(Ctx& c, const Text& t) {
  St s(t); std::vector<Text> want = clusters(t); size_t k = 0;
  typedef typename St::GI GI;
  GI i(s.enc.codepoint_cbegin(), s.enc.codepoint_cend()); auto last = s.enc.codepoint_cend();
  while (i != last) {
    if (k >= want.size()) fail("%s: too many graphemes in %s", St::name(), ref::show(t).c_str());
    GI o = i++; auto g = *o;
    if (between(g.codepoint_begin(), g.codepoint_end(), t.size() + 1) != want[k++]) fail("%s: i++ over %s gives a wrong grapheme %zu", St::name(), ref::show(t).c_str(), k - 1);
    GI copy(i), assigned(s.enc.codepoint_cbegin(), s.enc.codepoint_cend()); assigned = i;
    if (i != last && (!(copy == i) || !(assigned == i))) fail("%s: a copied grapheme iterator differs in %s", St::name(), ref::show(t).c_str());
    c.step();
  }
  if (k != want.size()) fail("%s: %zu graphemes of %s seen by i++", St::name(), k, ref::show(t).c_str());
  if (!(i == s.enc.grapheme_end()) || i != s.enc.grapheme_end()) fail("%s: after the last grapheme of %s the iterator is not the end", St::name(), ref::show(t).c_str());
}
static void segment_all(Ctx& c, const Text& t, bool alt) {
  segment<U32V>(c, t); segment<U8V>(c, t); segment<U8S>(c, t); segment<U32S>(c, t);
  if (alt) { segment_alt<U8S>(c, t); segment_alt<U32V>(c, t); }
  std::vector<int> b = ref::bounds(t); c.state(); c.outcome(mc::hseq(b, t.size())); if (b.size() > 2 && b.size() <= t.size()) c.nontrivial();
}

// ---------------------------------------------------------------- G03
template <class St> void find(Ctx& c, const Text& t, bool deep) {
  St s(t); typedef typename St::GI GI; typedef typename St::Enc Enc;
  std::vector<Text> want = clusters(t); std::vector<int> b = ref::bounds(t), off = St::offsets(t); int n = t.size(), k = want.size();
  if (!n) b.assign(1, 0);
  auto cb = s.enc.codepoint_cbegin(), ce = s.enc.codepoint_cend();
  std::vector<GI> fromstart; { GI i(cb, ce); for (int j = 0; j <= k; j++) { fromstart.push_back(i); if (j < k) ++i; } }
  for (int o = 0; o <= off[n]; o++) {
    int cp = n; for (int j = 0; j < n; j++) if (o >= off[j] && o < off[j + 1]) cp = j;
    int cl = k; for (int j = 0; j < k; j++) if (cp >= b[j] && cp < b[j + 1]) cl = j;
    GI g(cb, ce, s.at(o));
    c.step();
    if (cl < k) {
      auto x = *g;
      Text got = between(x.codepoint_begin(), x.codepoint_end(), n + 1);
      if (got != want[cl] || !(x.codepoint_begin() == s.at(off[b[cl]])) || !(x.codepoint_end() == s.at(off[b[cl + 1]])))
        fail("%s: from octet %d of %s the grapheme found is %s instead of %s", St::name(), o, ref::show(t).c_str(), ref::show(got).c_str(), ref::show(want[cl]).c_str());
    } else {
      if (!(g == s.enc.grapheme_end()) || g != s.enc.grapheme_end()) fail("%s: the grapheme iterator at the end of %s is not the end", St::name(), ref::show(t).c_str());
      if (!((*g).codepoint_begin() == ce)) fail("%s: the grapheme at the end of %s does not begin at the end", St::name(), ref::show(t).c_str());
    }
    for (int j = 0; j <= k; j++) {
      bool eq = g == fromstart[j], qe = fromstart[j] == g, ne = g != fromstart[j];
      if (eq != (j == cl) || qe != eq || ne == eq) fail("%s: the grapheme iterator made at unit %d of %s (grapheme %d of %d) compares %s with the one that came from the start to %d", St::name(), o, ref::show(t).c_str(), cl, k, eq ? "equal" : "unequal", j);
    }
    for (int j = 0; j <= n; j++) {
      bool w = cl == k ? j == n : j >= b[cl] && j < b[cl + 1];
      if ((g == s.at(off[j])) != w || (g != s.at(off[j])) == w) fail("%s: the grapheme iterator made at unit %d of %s compares wrongly with codepoint %d", St::name(), o, ref::show(t).c_str(), j);
    }
    if (deep) {
      GI a(g); for (int j = cl; j < k; j++) {
        auto x = *a; Text got = between(x.codepoint_begin(), x.codepoint_end(), n + 1);
        if (got != want[j]) fail("%s: advancing from unit %d of %s gives %s instead of %s", St::name(), o, ref::show(t).c_str(), ref::show(got).c_str(), ref::show(want[j]).c_str());
        if (j & 1) a++; else ++a;
      }
      if (!(a == s.enc.grapheme_end())) fail("%s: advancing from unit %d of %s does not end at the end", St::name(), o, ref::show(t).c_str());
      c.step(k - cl);
    }
  }
}
// truncation: text up to the grapheme that holds each unit, into a string of the same encoding
template <class St, class Out> void truncate(Ctx& c, const Text& t) {
  St s(t); typedef typename St::GI GI; std::vector<int> b = ref::bounds(t), off = St::offsets(t); int n = t.size(); if (!n) b.assign(1, 0);
  auto cb = s.enc.codepoint_cbegin(), ce = s.enc.codepoint_cend();
  Text keep = {'k', 0xE9}; Out head(keep), whole(t);
  for (int o = 0; o <= off[n]; o++) {
    int cp = n; for (int j = 0; j < n; j++) if (o >= off[j] && o < off[j + 1]) cp = j;
    int cut = 0; for (int x : b) if (x <= cp) cut = x;
    GI first(cb, ce), upto(cb, ce, s.at(o));
    Out out(keep);
    auto& r = out.enc.append(first, upto);
    Text e(keep); e.insert(e.end(), t.begin(), t.begin() + cut); Out want(e);
    if (!same_units(out.enc.native_string, want.enc.native_string)) fail("%s: truncating %s at unit %d keeps %zu units instead of %zu (codepoints 0 to %d)", St::name(), ref::show(t).c_str(), o, out.enc.native_string.size() - head.enc.native_string.size(), want.enc.native_string.size() - head.enc.native_string.size(), cut);
    if (&r != &out.enc) fail("append does not return its object");
    // from there to the end
    Out rest{Text()}; GI end = s.enc.grapheme_end(); rest.enc.append(upto, end);
    Out wr(Text(t.begin() + cut, t.end()));
    if (!same_units(rest.enc.native_string, wr.enc.native_string)) fail("%s: appending %s from unit %d to the end gives %zu units instead of %zu", St::name(), ref::show(t).c_str(), o, rest.enc.native_string.size(), wr.enc.native_string.size());
    c.step(2);
  }
}
static void find_all(Ctx& c, const Text& t, bool deep) {
  find<U32V>(c, t, deep); find<U8S>(c, t, deep); find<U8V>(c, t, deep); if (deep) find<U32S>(c, t, deep);
  truncate<U8S, U8S>(c, t); truncate<U32S, U32S>(c, t);
  std::vector<int> b = ref::bounds(t); c.state(); c.outcome(mc::hseq(b, t.size())); if (b.size() > 2 && b.size() <= t.size()) c.nontrivial();
}

static Text xay(const int* v) { Text t; if (v[0] < ref::NGCB) t.push_back(REP[0][v[0]]); for (int i = 0; i < v[3]; i++) t.push_back(REP[0][v[1]]); if (v[2] < ref::NGCB) t.push_back(REP[0][v[2]]); return t; }

// X A^k Y with k around 2^9 to 2^16: the boundaries within the run are those of a run of 12 or 13 (of the same parity), repeated
static std::vector<int> huge_bounds(const Text& t) {
  size_t n = t.size(); if (n < 40) return ref::bounds(t);
  size_t cut = (n - 26) & ~(size_t)1; Text u(t.begin(), t.begin() + 10); u.insert(u.end(), t.begin() + 10 + cut, t.end());
  std::vector<int> s = ref::bounds(u), r; std::vector<char> at(u.size() + 1); for (int x : s) at[x] = 1;
  for (size_t i = 0; i <= n; i++) if (i < 8 ? at[i] : i <= n - 8 ? at[8 - (i & 1 ? 1 : 2)] : at[i - cut]) r.push_back((int)i);
  return r;
}
#ifdef P_G03
static const int HK[] = {511, 512, 513, 1024, 4095, 4096, 4097, 32768, 65537};
#else
static const int HK[] = {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537};
#endif
enum { NHK = sizeof HK / sizeof *HK };
static mc::Scope huge_scope(const char* more, std::function<void(Ctx&, const Text&, const std::vector<int>&)> f) {
  return mc::list_scope("huge", std::string("X A^k Y for all classes A, X from Other, RI, E_Base or nothing, Y from E_Modifier, RI or nothing, " + std::to_string((int)NHK) + " k from 511 to 65537; ") + more, ref::NGCB * NHK, [](Ctx& c, uint64_t t) {
      for (int x : {(int)ref::OTHER, (int)ref::RI, (int)ref::E_BASE, (int)ref::NGCB}) for (int y : {(int)ref::E_MODIFIER, (int)ref::RI, (int)ref::NGCB}) { int v[4] = {x, (int)t % ref::NGCB, y, HK[t / ref::NGCB]}; if (!c.go(v, 4)) return; } },
    [f](Ctx& c, const int* v, int) { Text t = xay(v); std::vector<int> b = huge_bounds(t); f(c, t, b); c.state(); c.outcome(mc::hseq(b, t.size())); c.nontrivial(); },
    [](const int* v, int) { int w[4] = {v[0], v[1], v[2], 1}; return std::to_string(v[3]) + " times the middle of " + ref::show(xay(w)); });
}
template <class St> void huge_split(Ctx& c, const Text& t, const std::vector<int>& b) {
  St s(t); std::vector<int> off = St::offsets(t); size_t k = 0; typename St::GI i = s.enc.grapheme_begin(), e = s.enc.grapheme_end();
  for (; i != e; ++i, k++) { auto g = *i; if (k + 1 >= b.size() || !(g.codepoint_begin() == s.at(off[b[k]])) || !(g.codepoint_end() == s.at(off[b[k + 1]]))) fail("%s: grapheme %zu of %zu codepoints is wrong", St::name(), k, t.size()); c.step(); }
  if (k + 1 != b.size()) fail("%s: %zu graphemes instead of %zu", St::name(), k, b.size() - 1);
}
template <class St> void huge_find(Ctx& c, const Text& t, const std::vector<int>& b) {
  St s(t); std::vector<int> off = St::offsets(t); int n = t.size(); auto cb = s.enc.codepoint_cbegin(), ce = s.enc.codepoint_cend();
  for (int p : {0, n / 2, n - 4, n - 3, n - 2, n - 1}) { int o = off[p + 1] - 1;
    size_t k = std::upper_bound(b.begin(), b.end(), p) - b.begin(); typename St::GI g(cb, ce, s.at(o)); auto x = *g; c.step();
    if (!(x.codepoint_begin() == s.at(off[b[k - 1]])) || !(x.codepoint_end() == s.at(off[b[k]]))) fail("%s: the grapheme found from unit %d of %d is wrong", St::name(), o, off[n]);
  }
}

int main(int argc, char** argv) {
  mc::Harness h;
  auto add_seq = [&](int set, int L, std::function<void(Ctx&, const Text&)> f) {
    h.scopes.push_back(mc::seq_scope("classes" + std::to_string(set) + "-" + std::to_string(L), ref::NGCB, L, [f, set](Ctx& c, const int* v, int n) { f(c, reps(v, n, set)); }, [set](const int* v, int n) { return ref::show(reps(v, n, set)); }));
  };
  // X A^k Y: every class X (or nothing), run of k of class A, every class Y (or nothing)
  auto edge = [](int x) { return x != ref::NGCB && x != ref::OTHER && x != ref::EXTEND && x != ref::RI && x != ref::E_BASE && x != ref::PREPEND && x != ref::L; };   // not among the X and Y of the long runs
  auto add_runs = [&](std::vector<int> ks, std::function<void(Ctx&, const Text&)> f, int longk = 1000) {
    std::string what; for (int k : ks) what += " " + std::to_string(k); if (longk < 1000) what += " (X and Y from 7 when k > " + std::to_string(longk) + ")";
    h.scopes.push_back(mc::list_scope("runs", "X A^k Y for all classes A, all classes or nothing X and Y, k =" + what, ref::NGCB * (ref::NGCB + 1), [ks, edge, longk](Ctx& c, uint64_t t) {
      for (int y = 0; y <= ref::NGCB; y++) for (int k : ks) { if (k > longk && (edge((int)(t / ref::NGCB)) || edge(y))) continue; int v[4] = {(int)(t / ref::NGCB), (int)(t % ref::NGCB), y, k}; if (!c.go(v, 4)) return; } },
      [f](Ctx& c, const int* v, int) { f(c, xay(v)); }, [](const int* v, int) { Text t = xay(v); return std::to_string(v[3]) + " in " + ref::show(Text(t.begin(), t.begin() + std::min<size_t>(t.size(), 12))); },
      [&] { uint64_t n = 0; for (int k : ks) n += k > longk ? ref::NGCB * 49 : ref::NGCB * (ref::NGCB + 1) * (ref::NGCB + 1); return n; }()));
  };
#ifdef P_G02
  for (int set = 0; set < 2; set++) for (int L = 0; L <= 4; L++) add_seq(set, L, [](Ctx& c, const Text& t) { segment_all(c, t, t.size() <= 3); });
  add_seq(0, 5, [](Ctx& c, const Text& t) { segment<U32V>(c, t); segment<U8V>(c, t); std::vector<int> b = ref::bounds(t); c.state(); c.outcome(mc::hseq(b, t.size())); if (b.size() > 2) c.nontrivial(); });
  if (thorough()) for (int set = 0; set < 2; set++) add_seq(set, set ? 5 : 6, [](Ctx& c, const Text& t) { segment<U32V>(c, t); segment<U8S>(c, t); std::vector<int> b = ref::bounds(t); c.state(); c.outcome(mc::hseq(b, t.size())); if (b.size() > 2) c.nontrivial(); });
  std::vector<int> ks; for (int k = 2; k <= (thorough() ? 80 : 36); k++) ks.push_back(k); ks.push_back(127); ks.push_back(128); ks.push_back(255); ks.push_back(256); ks.push_back(257);
  add_runs(ks, [](Ctx& c, const Text& t) { segment<U32V>(c, t); segment<U8V>(c, t); c.state(); std::vector<int> b = ref::bounds(t); c.outcome(mc::hseq(b, t.size())); c.nontrivial(); });
  h.scopes.push_back(mc::list_scope("codepoint-x-class", "every codepoint before, after and between representatives of all 18 classes", 272, [](Ctx& c, uint64_t t) {
      for (int a = (int)t * 4096; a < (int)(t + 1) * 4096; a++) for (int k = 0; k < ref::NGCB; k++) { int v[2] = {a, k}; if (!c.go(v, 2)) return; } },
    [](Ctx& c, const int* v, int) { int r = REP[0][v[1]]; Text t{r, v[0], r}; segment<U32V>(c, t); if (v[1] == 0 || v[1] == 5) segment<U8S>(c, t); c.state(); std::vector<int> b = ref::bounds(t); c.outcome(mc::hseq(b, v[1])); if (b.size() < 4) c.nontrivial(); },
    [](const int* v, int) { int r = REP[0][v[1]]; return ref::show(Text{r, v[0], r}); }, 272ull * 4096 * ref::NGCB));
  h.scopes.push_back(huge_scope("UTF-32 and UTF-8", [](Ctx& c, const Text& t, const std::vector<int>& b) { huge_split<U32V>(c, t, b); huge_split<U8V>(c, t, b); }));
  // all strings of regional indicators, Extend and one other codepoint
  static const int RI[] = {0x1F1E6, 0x1F1FF, 0x300, 0x61, 0x200D, 0x2764};
  for (int L = 5; L <= (thorough() ? 10 : 8); L++) h.scopes.push_back(mc::seq_scope("regional-" + std::to_string(L), L > 8 ? 4 : 6, L, [](Ctx& c, const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(RI[v[i]]); segment<U32V>(c, t); if (n < 8) segment<U8V>(c, t); c.state(); std::vector<int> b = ref::bounds(t); c.outcome(mc::hseq(b, n)); if (b.size() > 2) c.nontrivial(); },
    [](const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(RI[v[i]]); return ref::show(t); }, 3));
#endif
#ifdef P_G03
  for (int set = 0; set < 2; set++) for (int L = 0; L <= 4; L++) add_seq(set, L, [](Ctx& c, const Text& t) { if (t.size() <= 3) find_all(c, t, true); else { find<U8V>(c, t, false); find<U32S>(c, t, true); truncate<U8S, U8S>(c, t); c.state(); std::vector<int> b = ref::bounds(t); c.outcome(mc::hseq(b, t.size())); if (b.size() > 2) c.nontrivial(); } });
  if (thorough()) for (int set = 0; set < 2; set++) { add_seq(set, 4 + !set, [](Ctx& c, const Text& t) { find<U8V>(c, t, true); find<U32V>(c, t, true); c.state(); std::vector<int> b = ref::bounds(t); c.outcome(mc::hseq(b, t.size())); c.nontrivial(); }); }
  std::vector<int> ks = {2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 64, 65, 127, 128, 129, 257}; if (thorough()) for (int k : {10, 11, 12, 13, 14, 19, 20, 40, 41, 63, 255, 256, 300, 513}) ks.push_back(k);
  add_runs(ks, [](Ctx& c, const Text& t) { find<U32V>(c, t, false); if (t.size() <= 10) truncate<U8S, U8S>(c, t); c.state(); std::vector<int> b = ref::bounds(t); c.outcome(mc::hseq(b, t.size())); c.nontrivial(); }, thorough() ? 80 : 33);
  h.scopes.push_back(huge_scope("found from the first, middle and 4 last codepoints", [](Ctx& c, const Text& t, const std::vector<int>& b) { huge_find<U32V>(c, t, b); huge_find<U8S>(c, t, b); }));
  static const int RI[] = {0x1F1E6, 0x300, 0x61, 0x1F3FB, 0x261D, 0x200D};
  for (int L = 5; L <= (thorough() ? 8 : 6); L++) h.scopes.push_back(mc::seq_scope("regional-" + std::to_string(L), L > 6 ? 4 : 6, L, [](Ctx& c, const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(RI[v[i]]); find<U8V>(c, t, true); truncate<U8S, U8S>(c, t); c.state(); std::vector<int> b = ref::bounds(t); c.outcome(mc::hseq(b, n)); if (b.size() > 2) c.nontrivial(); },
    [](const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(RI[v[i]]); return ref::show(t); }));
#endif
  return run_harness(h, argc, argv);
}
