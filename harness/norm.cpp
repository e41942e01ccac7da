// N01-N07: the four normalization forms.
#include "storages.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;

template <class G, class Out> int apply(int f, G g, Out& out) {
  switch (f) {
    case ref::NFD: return u5e::normalization_form_d(g, out);
    case ref::NFC: return u5e::normalization_form_c(g, out);
    case ref::NFKD: return u5e::normalization_form_kd(g, out);
    default: return u5e::normalization_form_kc(g, out);
  }
}
// normalizes the text grapheme by grapheme, after `pre`; returns the sum of the counts
template <class In, class Out> int normalize(int f, In& in, Out& out) {
  int n = 0; typename In::GI i = in.enc.grapheme_begin(), e = in.enc.grapheme_end();
  size_t lim = in.size() + 2;
  for (; i != e; ++i) { if (!lim--) fail("%s: iterating the graphemes does not stop", In::name()); n += apply(f, *i, out); }
  return n;
}
static Text lib(int f, const Text& t, int* count = nullptr) {
  U32V in(t); u5e::utf32ne_string out; int n = normalize(f, in, out); if (count) *count = n; return from32(out.native_string);
}

// Recorded finding: the library normalizes each grapheme on its own, and form KC of Hangul jamo that only appear through
// compatibility decomposition would compose with the neighbouring grapheme. True if `t` has such a boundary.
static bool jamo_boundary(const Text& t) {
  std::vector<int> b = ref::bounds(t);
  for (size_t i = 1; i + 1 < b.size(); i++) {
    Text l, r; for (int k = b[i - 1]; k < b[i]; k++) ref::decompose(t[k], true, l); for (int k = b[i]; k < b[i + 1]; k++) ref::decompose(t[k], true, r);
    if (l.empty() || r.empty()) continue;
    Text a = ref::compose_text(l), z = ref::compose_text(r); int x; if (a.empty() || z.empty()) continue;
    int p = a.back(), q = r.front();
    bool jam = (p >= ref::LB && p < ref::LB + ref::LC) || (p >= ref::SB && p < ref::SB + ref::SC);
    bool vt = (q >= ref::VB && q < ref::VB + ref::VC) || (q > ref::TB && q < ref::TB + ref::TC);
    if (jam && vt && ref::compose(p, q, x)) return true;
  }
  return false;
}
static Text per_grapheme(int f, const Text& t) {
  Text o; std::vector<int> b = ref::bounds(t);
  for (size_t i = 0; i + 1 < b.size(); i++) { Text p = ref::nf(f, Text(t.begin() + b[i], t.begin() + b[i + 1])); o.insert(o.end(), p.begin(), p.end()); }
  return o;
}
enum { K_JAMO = 0 };

template <class In, class Out> void decide1(Ctx& c, int f, const Text& t, const Text& pre, const Text& want, bool known_ok) {
  In in(t); Out out(pre); int n = normalize(f, in, out.enc);
  Text w(pre); w.insert(w.end(), want.begin(), want.end());
  c.step();
  if (same_units(out.enc.native_string, Out(w).enc.native_string)) {
    if (n != (int)want.size()) fail("%s of %s (%s to %s) appends %zu codepoints but returns %d", ref::form_name[f], ref::show(t).c_str(), In::name(), Out::name(), want.size(), n);
    return;
  }
  if (known_ok && f == ref::NFKC && jamo_boundary(t)) {
    Text alt = per_grapheme(f, t), aw(pre); aw.insert(aw.end(), alt.begin(), alt.end());
    if (same_units(out.enc.native_string, Out(aw).enc.native_string) && n == (int)alt.size()) { c.known(K_JAMO); return; }
  }
  std::string got = Out::wide ? ref::show(Text(out.enc.native_string.begin(), out.enc.native_string.end())) : ref::hex(std::string(out.enc.native_string.begin(), out.enc.native_string.end()));
  fail("%s of %s (%s to %s)%s%s is %s instead of %s", ref::form_name[f], ref::show(t).c_str(), In::name(), Out::name(), pre.empty() ? "" : " after ", pre.empty() ? "" : ref::show(pre).c_str(), got.c_str(), ref::show(w).c_str());
}
// fewer configurations when there are many texts; N07 compares all of them
static void decide(Ctx& c, int f, const Text& t, int configs) {
  Text want = ref::nf(f, t);
  decide1<U32V, U32S>(c, f, t, Text(), want, true);
  if (configs >= 2) decide1<U8S, U8S>(c, f, t, Text(), want, true);
  if (configs >= 3) { decide1<U8V, U8S>(c, f, t, Text{'p', 0x301}, want, true); decide1<U32S, U32S>(c, f, t, Text{0xE9}, want, true); }
  c.state(); c.outcome(mc::hseq(want)); if (want != t) c.nontrivial();
}

static const int AL[] = {0x61, 0x301, 0x323, 0x300, 0x327, 0x345, 0x344, 0xAC00, 0x1100, 0x1161, 0x11A8, 0x1E69, 0x212B, 0x958, 0x9C7, 0x9BE, 0x200D, 0xFB01, 0x308, 0x20, 0x3131, 0x314F, 0x1F1E6, 0xE1, 0x0D, 0x34F, 0x1D15F, 0xFDFA, 0xAC01, 0x5B4, 0x3133, 0x73};
enum { NAL = sizeof AL / sizeof *AL };
static Text al(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(AL[v[i]]); return t; }
static Text raw(const int* v, int n) { return Text(v, v + n); }
static std::string show_raw(const int* v, int n) { return ref::show(raw(v, n)); }
static std::string show_al(const int* v, int n) { return ref::show(al(v, n)); }

struct Sets {
  std::vector<int> dec, marks, bases, composing, firstmarks, cjamo;
  Sets() {
    for (auto& d : ref::dec_rows) dec.push_back(d.cp);
    std::vector<char> m(ref::MAXCP, 0);
    for (auto& r : ref::ccc_rows) m[r.cp] = 1;
    for (auto& d : ref::dec_rows) if (d.n == 2 && !d.compat) { m[d.m[1]] |= 2; }
    for (int v = ref::VB; v < ref::VB + ref::VC; v += 5) m[v] |= 2; for (int t = ref::TB + 1; t < ref::TB + ref::TC; t += 6) m[t] |= 2;
    m[0x34F] |= 1; m[0x200D] |= 1;
    for (int c = 0; c < ref::MAXCP; c++) { if (m[c]) marks.push_back(c); if (m[c] & 2) composing.push_back(c); }
    std::vector<char> b(ref::MAXCP, 0);
    for (auto& d : ref::dec_rows) if (d.n == 2 && !d.compat) b[d.m[0]] = 1;
    for (int c : {0x1100, 0x1112, 0xAC00, 0xAC01, 0xD788, 0xD7A3, 0x61, 0x3042}) b[c] = 1;
    for (int c = 0; c < ref::MAXCP; c++) if (b[c]) bases.push_back(c);
    int last = -1; std::vector<char> seen(256, 0);
    for (auto& r : ref::ccc_rows) if (!seen[r.ccc]) { seen[r.ccc] = 1; firstmarks.push_back(r.cp); }
    for (int c : {0x300, 0x301, 0x302, 0x304, 0x306, 0x307, 0x308, 0x30C, 0x323, 0x327, 0x328, 0x345, 0x344, 0x343, 0x341, 0x9BE, 0x34F, 0x1161, 0x11A8, 0x302E, 0x3099}) firstmarks.push_back(c);
    for (auto& d : ref::dec_rows) if (d.compat) { Text t; ref::decompose(d.cp, true, t); if ((t.back() >= 0x1100 && t.back() < 0x1200) || (t.front() >= 0x1100 && t.front() < 0x1200)) cjamo.push_back(d.cp); }
    (void)last;
  }
};
static const Sets& sets() { static const Sets s; return s; }

static Scope prod(const std::string& name, const std::string& what, std::vector<std::vector<int>> lists, std::function<void(Ctx&, const int*, int)> run) {
  uint64_t n = 1; for (auto& l : lists) n *= l.size();
  std::string b = "all " + std::to_string(n) + " texts: " + what;
  // tasks: first list in slices
  uint64_t nt = lists[0].size();
  return mc::list_scope(name, b, nt, [lists](Ctx& c, uint64_t t) {
    std::vector<size_t> i(lists.size(), 0); std::vector<int> v(lists.size()); i[0] = t;
    for (size_t k = 0; k < lists.size(); k++) v[k] = lists[k][i[k]];
    for (;;) {
      if (!c.go(v)) return;
      size_t k = lists.size() - 1;
      while (k > 0 && ++i[k] == lists[k].size()) { i[k] = 0; v[k] = lists[k][0]; k--; }
      if (k == 0) return;
      v[k] = lists[k][i[k]];
    }
  }, run, show_raw, n);
}

#ifdef P_N07
// other string-like types of the right unit
template <class T> struct OtherAlloc {
  typedef T value_type; OtherAlloc() {} template <class U> OtherAlloc(const OtherAlloc<U>&) {}
  T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); }
  template <class U> bool operator==(const OtherAlloc<U>&) const { return true; } template <class U> bool operator!=(const OtherAlloc<U>&) const { return false; }
};
template <class Out, class In> void into(Ctx& c, const Text& t, In& in, int f, const Text& want, bool u8) {
  Out out; int n = 0; size_t lim = t.size() + 1; typedef u5e::basic_grapheme_iterator<In> GI;
  for (GI i = in.grapheme_begin(), e = in.grapheme_end(); i != e; ++i) { if (!lim--) fail("iterating the graphemes of %s does not stop", ref::show(t).c_str()); n += apply(f, *i, out); }
  bool ok; if (u8) ok = same_units(out.native_string, ref::encode(want)); else ok = same_units(out.native_string, want);
  if (!ok || n != (int)want.size()) fail("%s of %s, between unusual string types, is not %s", ref::form_name[f], ref::show(t).c_str(), ref::show(want).c_str());
  c.step();
}
template <class In> void held(Ctx& c, const Text& t, const decltype(In::native_string)& s, const std::vector<Text>& g, const Text* want) {
  In in(s); typedef u5e::basic_grapheme_iterator<In> GI; std::vector<Text> got;
  if (walk(in.codepoint_cbegin(), in.codepoint_cend(), t.size() + 2) != t) fail("the codepoints of %s depend on the type of string", ref::show(t).c_str());
  for (GI i = in.grapheme_begin(), e = in.grapheme_end(); i != e; ++i) { if (got.size() > t.size()) fail("iteration does not stop"); auto k = *i; got.push_back(walk(k.codepoint_begin(), k.codepoint_end(), t.size() + 2)); }
  if (got != g) fail("the graphemes of %s depend on the type of string", ref::show(t).c_str());
  typedef u5e::basic_encodedstring<u5e::utf8, std::basic_string<char, std::char_traits<char>, OtherAlloc<char>>> S8A; typedef u5e::basic_encodedstring<u5e::utf32ne, std::u32string> SC;
  for (int f = 0; f < 4; f++) { into<S8A>(c, t, in, f, want[f], true); into<SC>(c, t, in, f, want[f], false); into<u5e::utf8_string>(c, t, in, f, want[f], true); into<u5e::utf32ne_string>(c, t, in, f, want[f], false);
    into<u5e::basic_encodedstring<u5e::utf32ne, std::wstring>>(c, t, in, f, want[f], false); }
  if (!same_units(in.native_string, s)) fail("normalizing %s changed the input", ref::show(t).c_str());
}
#endif
int main(int argc, char** argv) {
  mc::Harness h; const Sets& S = sets(); (void)S;
#ifdef FORM
  const int F = FORM;
  if (F == ref::NFKC) h.known.push_back("NFKC-jamo-across-graphemes");
  h.scopes.push_back(mc::range_scope("codespace", 0, ref::MAXCP, [F](Ctx& c, const int* v, int n) { decide(c, F, raw(v, n), ref::db().dec.count(v[0]) || v[0] < 0x3000 ? 3 : (v[0] >= 0xAC00 && v[0] < 0xD7B0) ? 2 : 1); }, show_raw));
  { std::vector<int> x = S.dec; for (int c : S.bases) x.push_back(c); for (int s = ref::SB; s < ref::SB + ref::SC; s += thorough() ? 1 : 7) x.push_back(s); for (auto c : S.marks) x.push_back(c);
    std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end());
    h.scopes.push_back(prod("pairs", "every decomposable codepoint, composition base, mark and Hangul syllable before every mark and every second element of a composition", {x, S.marks}, [F](Ctx& c, const int* v, int n) { decide(c, F, raw(v, n), 1); }));
    h.scopes.push_back(prod("marked-pairs", "'a' and one mark of each class before every decomposable codepoint, base and mark before one of 12 marks", {{0x61, 0xAC00, 0x1100}, x, {0x301, 0x323, 0x327, 0x345, 0x5B4, 0x3099, 0x9BE, 0x1161, 0x11A8, 0x61, 0x1D165, 0x94D}}, [F](Ctx& c, const int* v, int n) { decide(c, F, raw(v, n), 1); })); }
  h.scopes.push_back(prod("two-marks", "every composition base before every two composing marks", {S.bases, S.composing, thorough() ? S.composing : S.firstmarks}, [F](Ctx& c, const int* v, int n) { decide(c, F, raw(v, n), 1); }));
  h.scopes.push_back(prod("mark-order", "'a' before every mark before every mark", {S.marks, {0x61}, S.marks}, [F](Ctx& c, const int* v, int n) { int t[3] = {v[1], v[0], v[2]}; decide(c, F, raw(t, 3), 1); }));
  h.scopes.push_back(prod("three-marks", "6 bases before every three of one mark per class and the common composing marks", {S.firstmarks, {0x61, 0x73, 0x3B1, 0x1E63, 0xAC00, 0x212B}, S.firstmarks, S.firstmarks}, [F](Ctx& c, const int* v, int n) { int t[4] = {v[1], v[0], v[2], v[3]}; decide(c, F, raw(t, 4), 1); }));
  { std::vector<int> L, V, T; for (int i = 0; i < ref::LC; i++) L.push_back(ref::LB + i); L.push_back(0x1113); for (int i = 0; i < ref::VC; i++) V.push_back(ref::VB + i); V.push_back(0x1176); for (int i = 0; i < ref::TC + 1; i++) T.push_back(ref::TB + i);
    h.scopes.push_back(prod("hangul", "every L V T", {L, V, T}, [F](Ctx& c, const int* v, int n) { decide(c, F, raw(v, n), 2); }));
    h.scopes.push_back(prod("hangul-mix", "L/LV/LVT/V/T sequences of 5 over 9 jamo and syllables", {{0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x1112, 0x11C2, 0xD7A3, 0x301}, {0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x1175, 0x11A7, 0xD788, 0x301}, {0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x1175, 0x11C2, 0xD788, 0x323}, {0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x11C3, 0x1176, 0xD788, 0x301}, {0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x61}}, [F](Ctx& c, const int* v, int n) { decide(c, F, raw(v, n), 1); })); }
  if (F == ref::NFKC || F == ref::NFKD) h.scopes.push_back(prod("compat-jamo", "jamo that come from compatibility decomposition, with each other and with jamo and syllables", {S.cjamo, [&] { auto x = S.cjamo; for (int c : {0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x61, 0x301}) x.push_back(c); return x; }()}, [F](Ctx& c, const int* v, int n) { decide(c, F, raw(v, n), 1); int r[2] = {v[1], v[0]}; decide(c, F, raw(r, 2), 1); }));
  for (int L = 0; L <= (thorough() ? 6 : 5); L++) {
    int k = L <= 3 ? NAL : L == 4 ? (thorough() ? 26 : 22) : L == 5 ? (thorough() ? 15 : 12) : 10;
    h.scopes.push_back(mc::seq_scope("sequences-" + std::to_string(L), k, L, [F](Ctx& c, const int* v, int n) { decide(c, F, al(v, n), n <= 3 ? 3 : 1); }, show_al));
  }
  // long texts: X (Y Z)^k, cut after any element
  { static const int LA[] = {0x61, 0x301, 0x323, 0x345, 0x344, 0xAC00, 0x1100, 0x1161, 0x11A8, 0x1E69, 0xFB01, 0x9C7, 0x9BE, 0x200D, 0x1F1E6, 0x0D};
    auto mk = [](const int* v) { Text t{LA[v[0]]}; while ((int)t.size() < v[3]) t.push_back(LA[v[t.size() & 1 ? 1 : 2]]); return t; };
    h.scopes.push_back(mc::list_scope("long", "X then Y Z Y Z ..., X Y Z from 16 codepoints, every length from 6 to 40 and within 1 of 64, 128, 256" + std::string(thorough() ? ", 512, 1024" : ""), 4096, [](Ctx& c, uint64_t t) {
        for (int n = 6; n <= (thorough() ? 1025 : 257); n++) { if (n > 40) { bool near = false; for (int d = -1; d <= 1; d++) near |= !((n + d) & (n + d - 1)); if (!near) continue; } int v[4] = {(int)t % 16, (int)t / 16 % 16, (int)t / 256, n}; if (!c.go(v, 4)) return; } },
      [F, mk](Ctx& c, const int* v, int) { decide(c, F, mk(v), v[3] < 12 ? 2 : 1); }, [mk](const int* v, int) { return std::to_string(v[3]) + " codepoints of " + ref::show(mk(v)); })); }
  // every decomposable codepoint in every company, and twice
  { std::vector<int> y; for (int i = 0; i < NAL; i++) y.push_back(AL[i]);
    h.scopes.push_back(prod("in-context", "every decomposable codepoint between every two of the alphabet", {S.dec, y, thorough() ? y : std::vector<int>(y.begin(), y.begin() + 12)}, [F](Ctx& c, const int* v, int n) { int t[3] = {v[1], v[0], v[2]}; decide(c, F, raw(t, 3), 1); })); }
  if (thorough()) h.scopes.push_back(prod("decomposable-pairs", "every decomposable codepoint before every decomposable codepoint", {S.dec, S.dec}, [F](Ctx& c, const int* v, int n) { decide(c, F, raw(v, n), 1); }));
#endif
#ifdef P_N05
  // base + n marks of class 230 all distinguishable, with up to two deviating codepoints at any place, all forms
  static const int M230[] = {0x30A, 0x311, 0x313, 0x314, 0x33D, 0x346, 0x34A, 0x363, 0x364, 0x365, 0x366, 0x367, 0x368, 0x369, 0x36A, 0x36B, 0x36C};
  static const int DEV[] = {0x301, 0x323, 0x327, 0x34F, 0x345, 0x344, 0x5B4, 0x200D, 0x61, 0x1D165};
  static const int BASE[] = {0x61, 0xE9, 0x1E69, 0xAC00, 0x0D, 0x301};
  auto mk = [](const int* v) { Text t{BASE[v[1]]}; int n = v[2]; for (int i = 0; i < n; i++) { if (i == v[3]) t.push_back(DEV[v[4]]); else if (i == v[5]) t.push_back(DEV[v[6]]); else t.push_back(M230[(i + i / 17) % 17]); } return t; };
  auto show = [mk](const int* v, int) { return std::string(ref::form_name[v[0]]) + " of " + ref::show(mk(v)); };
  auto run = [mk](Ctx& c, const int* v, int) {
    Text t = mk(v), want = ref::nf(v[0], t);
    decide1<U32V, U32S>(c, v[0], t, Text(), want, false); if (v[2] % 5 == 0) decide1<U8S, U8S>(c, v[0], t, Text(), want, false);
    c.state(); c.outcome(mc::hseq(want)); if (want != t) c.nontrivial();
  };
  int top = thorough() ? 300 : 150, two = thorough() ? 60 : 36;
  h.scopes.push_back(mc::list_scope("one-deviation", "4 forms x 6 bases x runs of 0 to " + std::to_string(top) + " equal-class marks x 10 deviating codepoints at every fourth place and near both ends", top + 1, [](Ctx& c, uint64_t n) {
      for (int f = 0; f < 4; f++) for (int b = 0; b < 6; b++) for (int d = 0; d < 10; d++) for (int p = -1; p < (int)n; p++) { if (p > 20 && p < (int)n - 3 && p % 4) continue; int v[7] = {f, b, (int)n, p, d, -1, 0}; if (!c.go(v, 7)) return; } }, run, show));
  h.scopes.push_back(mc::list_scope("two-deviations", "4 forms x runs of 2 to " + std::to_string(two) + " equal-class marks x every two of 10 deviating codepoints at every two places", two - 1, [two](Ctx& c, uint64_t t) {
      int n = two - (int)t; for (int f = 0; f < 4; f++) for (int d = 0; d < 10; d++) for (int e = 0; e < 10; e++) for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) { if (p == q) continue; int v[7] = {f, 0, n, p, d, q, e}; if (!c.go(v, 7)) return; } }, run, show));
  // runs in which every mark is from a repeating pattern of 2 or 3 classes
  h.scopes.push_back(mc::list_scope("patterns", "4 forms x all patterns of 3 from 10 codepoints repeated to lengths 1 to " + std::to_string(two * 3), 1000, [two](Ctx& c, uint64_t t) {
      for (int f = 0; f < 4; f++) for (int n = 1; n <= two * 3; n++) { int v[5] = {f, n, (int)t / 100, (int)t / 10 % 10, (int)t % 10}; if (!c.go(v, 5)) return; } },
    [](Ctx& c, const int* v, int) { Text t{0x61}; for (int i = 0; i < v[1]; i++) { int d = DEV[v[2 + i % 3]]; t.push_back(i % 3 == 0 && d == 0x301 ? M230[i % 17] : d); } Text want = ref::nf(v[0], t); decide1<U32V, U32S>(c, v[0], t, Text(), want, false); c.state(); c.outcome(mc::hseq(want)); if (want != t) c.nontrivial(); },
    [](const int* v, int) { Text t; for (int i = 0; i < 3; i++) t.push_back(DEV[v[2 + i]]); return std::string(ref::form_name[v[0]]) + " of 'a' and " + std::to_string(v[1]) + " marks in the pattern " + ref::show(t); }));
  h.scopes.push_back(mc::list_scope("huge", "4 forms of single graphemes of 511-513, 1023-1025, 4095-4097, 20000, 32766-32769, 65534-65537, 131073 marks in three patterns", 20, [](Ctx& c, uint64_t t) {
      static const int N[] = {511, 512, 513, 1023, 1024, 1025, 2047, 4095, 4096, 4097, 20000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131073}; for (int f = 0; f < 4; f++) for (int p = 0; p < 3; p++) { int v[3] = {f, N[t], p}; if (!c.go(v, 3)) return; } },
    [](Ctx& c, const int* v, int) { Text t{0x61}; for (int i = 0; i < v[1]; i++) t.push_back(v[2] == 0 ? M230[(i * 7) % 17] : v[2] == 1 ? (i % 50 == 49 ? 0x34F : M230[(i * 7) % 17]) : (i % 3 == 2 ? 0x323 : M230[(i * 5) % 17]));
      // large runs: the reference insertion sort is quadratic, so build the expected order with a counting pass per run instead
      Text d; for (int x : t) ref::decompose(x, v[0] >= ref::NFKD, d); Text w; size_t i = 0;
      while (i < d.size()) { if (!ref::ccc(d[i])) { w.push_back(d[i++]); continue; } size_t j = i; while (j < d.size() && ref::ccc(d[j])) j++; std::vector<Text> by(256); for (size_t q = i; q < j; q++) by[ref::ccc(d[q])].push_back(d[q]); for (auto& x : by) w.insert(w.end(), x.begin(), x.end()); i = j; }
      U32V in(t); u5e::utf32ne_string out; int n = normalize(v[0], in, out); Text got = from32(out.native_string);
      if (v[0] == ref::NFC || v[0] == ref::NFKC) w = ref::compose_text(w);
      if (got != w || n != (int)w.size()) fail("%s of a grapheme of %d marks is wrong", ref::form_name[v[0]], v[1]);
      c.step(); c.state(); c.outcome(v[1]); c.nontrivial(); },
    [](const int* v, int) { char b[80]; snprintf(b, sizeof b, "%s, %d marks, pattern %d", ref::form_name[v[0]], v[1], v[2]); return std::string(b); }));
#endif
#ifdef P_N06
  h.known.push_back("NFKC-jamo-across-graphemes");
  // all chains of two forms on one text: the library against itself
  auto chains = [](Ctx& c, const Text& t) {
    Text n[4]; for (int f = 0; f < 4; f++) { int k; n[f] = lib(f, t, &k); if (k != (int)n[f].size()) fail("%s of %s: count %d, %zu codepoints", ref::form_name[f], ref::show(t).c_str(), k, n[f].size()); }
    // form KC leaves jamo of neighbouring graphemes apart; what that text normalizes to differs. Recorded, and recognised exactly.
    bool kc_known = jamo_boundary(t) && n[ref::NFKC] == per_grapheme(ref::NFKC, t) && n[ref::NFKC] != ref::nf(ref::NFKC, t);
    for (int g = 0; g < 4; g++) for (int f = 0; f < 4; f++) {
      if (g >= 2 && f < 2) continue;                    // going through KD or KC loses information for D and C
      Text r = lib(f, n[g]); c.step();
      if (r == n[f]) continue;
      if (kc_known && f == ref::NFKC && r == per_grapheme(f, n[g])) { c.known(K_JAMO); continue; }
      if (f == g) fail("%s of %s is %s, but normalizing that again gives %s", ref::form_name[f], ref::show(t).c_str(), ref::show(n[f]).c_str(), ref::show(r).c_str());
      fail("%s of %s is %s directly but %s through %s (%s)", ref::form_name[f], ref::show(t).c_str(), ref::show(n[f]).c_str(), ref::show(r).c_str(), ref::form_name[g], ref::show(n[g]).c_str());
    }
    c.state(); c.outcome(mc::hmix(mc::hseq(n[0]), mc::hseq(n[3]))); if (n[0] != t || n[3] != t) c.nontrivial();
  };
  // every elementary rewrite that keeps canonical equivalence must keep all four forms
  auto rewrites = [](Ctx& c, const Text& t) {
    Text n[4]; bool have = false;
    auto same = [&](const Text& u) {
      if (!have) { for (int f = 0; f < 4; f++) n[f] = lib(f, t); have = true; }
      for (int f = 0; f < 4; f++) {
        Text r = lib(f, u); c.step();
        if (r == n[f]) continue;
        if (f == ref::NFKC && (jamo_boundary(t) || jamo_boundary(u)) && r == per_grapheme(f, u) && n[f] == per_grapheme(f, t)) { c.known(K_JAMO); continue; }
        fail("%s and %s are canonically equivalent but their %s are %s and %s", ref::show(t).c_str(), ref::show(u).c_str(), ref::form_name[f], ref::show(n[f]).c_str(), ref::show(r).c_str());
      }
      c.nontrivial();
    };
    for (size_t i = 0; i < t.size(); i++) {
      Text d; ref::decompose(t[i], false, d);
      if (d.size() != 1 || d[0] != t[i]) { Text u(t.begin(), t.begin() + i); u.insert(u.end(), d.begin(), d.end()); u.insert(u.end(), t.begin() + i + 1, t.end()); same(u); }
      auto it = ref::db().dec.find(t[i]);     // one level only
      if (it != ref::db().dec.end() && !it->second->compat) { Text u(t.begin(), t.begin() + i); u.insert(u.end(), it->second->m, it->second->m + it->second->n); u.insert(u.end(), t.begin() + i + 1, t.end()); same(u); }
      if (i + 1 < t.size()) {
        int a = ref::ccc(t[i]), b = ref::ccc(t[i + 1]), x;
        if (a && b && a != b) { Text u(t); std::swap(u[i], u[i + 1]); same(u); }
        if (ref::compose(t[i], t[i + 1], x)) { Text u(t.begin(), t.begin() + i); u.push_back(x); u.insert(u.end(), t.begin() + i + 2, t.end()); same(u); }
      }
    }
    c.state();
  };
  h.scopes.push_back(mc::range_scope("chains-codespace", 0, ref::MAXCP, [chains](Ctx& c, const int* v, int n) { chains(c, raw(v, n)); }, show_raw));
  h.scopes.push_back(prod("chains-pairs", "every decomposable codepoint and base before every composing or class-representative mark", {[&] { auto x = S.dec; x.insert(x.end(), S.bases.begin(), S.bases.end()); return x; }(), S.firstmarks}, [chains](Ctx& c, const int* v, int n) { chains(c, raw(v, n)); }));
  h.scopes.push_back(prod("rewrites-pairs", "every decomposable codepoint and base before every composing or class-representative mark", {[&] { auto x = S.dec; x.insert(x.end(), S.bases.begin(), S.bases.end()); return x; }(), S.firstmarks}, [rewrites](Ctx& c, const int* v, int n) { rewrites(c, raw(v, n)); }));
  h.scopes.push_back(prod("rewrites-two-marks", "every composition base before every two of the representative marks", {S.bases, S.firstmarks, S.firstmarks}, [rewrites](Ctx& c, const int* v, int n) { rewrites(c, raw(v, n)); }));
  for (int L = 1; L <= (thorough() ? 5 : 4); L++) {
    int k = L <= 3 ? NAL : L == 4 ? (thorough() ? 20 : 14) : 11;
    h.scopes.push_back(mc::seq_scope("chains-" + std::to_string(L), k, L, [chains](Ctx& c, const int* v, int n) { chains(c, al(v, n)); }, show_al));
    h.scopes.push_back(mc::seq_scope("rewrites-" + std::to_string(L), k, L, [rewrites](Ctx& c, const int* v, int n) { rewrites(c, al(v, n)); c.outcome(mc::hseq(al(v, n))); }, show_al));
  }
#endif
#ifdef P_N07
  auto agree = [](Ctx& c, const Text& t, bool heavy) {
    U8S a(t); U8V b(t); U32S x(t); U32V y(t); std::string s8 = a.data; u32str s32 = x.data;
    // codepoints and graphemes
    Text r0 = walk(y.enc.codepoint_cbegin(), y.enc.codepoint_cend(), t.size() + 2), r1 = walk(a.enc.codepoint_cbegin(), a.enc.codepoint_cend(), t.size() + 2), r2 = walk(b.enc.codepoint_cbegin(), b.enc.codepoint_cend(), t.size() + 2), r3 = walk(x.enc.codepoint_cbegin(), x.enc.codepoint_cend(), t.size() + 2);
    if (r1 != r0 || r2 != r0 || r3 != r0) fail("the codepoints of %s depend on how it is held", ref::show(t).c_str());
    auto graphs = [&](auto& st) { std::vector<Text> g; auto e = st.enc.grapheme_end(); for (auto i = st.enc.grapheme_begin(); i != e; ++i) { if (g.size() > t.size()) fail("iteration does not stop"); auto k = *i; g.push_back(walk(k.codepoint_begin(), k.codepoint_end(), t.size() + 2)); } return g; };
    std::vector<Text> g0 = graphs(y); if (graphs(a) != g0 || graphs(b) != g0 || graphs(x) != g0) fail("the graphemes of %s depend on how it is held", ref::show(t).c_str());
    for (int f = 0; f < 4; f++) {
      u5e::utf32ne_string o; int n = normalize(f, y, o); Text w = from32(o.native_string); std::string w8 = ref::encode(w);
      auto both = [&](auto& in, const char* name) {
        for (int p = 0; p < (heavy ? 4 : 2); p++) {
          static const Text pres[] = {{}, {'p', 0x301}, Text(15, 'q'), {0x10FFFF, 0x1F1E6}};
          std::string pre8 = ref::encode(pres[p]); u32str pre32 = to32(pres[p]);
          u5e::utf8_string o8(pre8); int n8 = normalize(f, in, o8);
          if (o8.native_string != pre8 + w8 || n8 != n) fail("%s of %s from a %s into UTF-8 after %s gives %s (%d) instead of %s (%d)", ref::form_name[f], ref::show(t).c_str(), name, ref::show(pres[p]).c_str(), ref::hex(o8.native_string).c_str(), n8, ref::hex(pre8 + w8).c_str(), n);
          u5e::utf32ne_string o32(pre32); int n32 = normalize(f, in, o32);
          if (o32.native_string != pre32 + o.native_string || n32 != n) fail("%s of %s from a %s into UTF-32 after %s gives %s (%d) instead of %s (%d)", ref::form_name[f], ref::show(t).c_str(), name, ref::show(pres[p]).c_str(), ref::show(from32(o32.native_string)).c_str(), n32, ref::show(from32(pre32 + o.native_string)).c_str(), n);
          c.step(2);
        }
      };
      both(a, "UTF-8 string"); both(b, "UTF-8 view"); both(x, "UTF-32 string"); both(y, "UTF-32 view");
      if (n != (int)w.size()) fail("%s of %s appends %zu codepoints and returns %d", ref::form_name[f], ref::show(t).c_str(), w.size(), n);
    }
    if (a.data != s8 || a.enc.native_string != s8 || b.data != s8 || x.data != s32 || x.enc.native_string != s32 || y.data != s32) fail("normalizing %s changed the input", ref::show(t).c_str());
    c.state(); c.outcome(mc::hseq(t)); c.nontrivial();
  };
  h.scopes.push_back(mc::list_scope("relevant-codepoints", "every codepoint with a decomposition, class or non-default break class, and 1 in 16 of the others", 272, [](Ctx& c, uint64_t t) {
      for (int a = (int)t * 4096; a < (int)(t + 1) * 4096; a++) if (a % (thorough() ? 1 : 16) == 0 || ref::db().dec.count(a) || ref::ccc(a) || (ref::gcb(a) && !(a >= 0xAC00 && a <= 0xD7A3) && a < 0xE0000)) if (!c.go(&a, 1)) return; },
    [agree](Ctx& c, const int* v, int n) { agree(c, raw(v, n), false); }, show_raw));
  for (int L = 0; L <= 4; L++) { if (L == 4 && !thorough()) { h.scopes.push_back(mc::seq_scope("sequences-4", 12, 4, [agree](Ctx& c, const int* v, int n) { agree(c, al(v, n), false); }, show_al)); break; }
    h.scopes.push_back(mc::seq_scope("sequences-" + std::to_string(L), L < 4 ? NAL : 20, L, [agree](Ctx& c, const int* v, int n) { agree(c, al(v, n), n < 3); }, show_al)); }
  h.scopes.push_back(prod("pairs", "every decomposable codepoint before every representative mark", {S.dec, thorough() ? S.firstmarks : std::vector<int>{0x301, 0x323, 0x345, 0x9BE, 0x34F}}, [agree](Ctx& c, const int* v, int n) { agree(c, raw(v, n), false); }));
  auto holders = [](Ctx& c, const int* v, int n) {
    Text t = al(v, n); std::string s8 = ref::encode(t); u32str s32 = to32(t); std::vector<Text> g; for (auto b = ref::bounds(t); g.size() + 1 < b.size();) { size_t i = g.size(); g.push_back(Text(t.begin() + b[i], t.begin() + b[i + 1])); }
    Text want[4]; for (int f = 0; f < 4; f++) want[f] = per_grapheme(f, t);
    typedef u5e::basic_encodedstring<u5e::utf8, std::basic_string<char, std::char_traits<char>, OtherAlloc<char>>> S8A; typedef u5e::basic_encodedstring<u5e::utf32ne, std::u32string> SC; typedef u5e::basic_encodedstring<u5e::utf32ne, std::wstring> SW;
    typedef u5e::basic_encodedstring<u5e::utf32ne, std::experimental::u32string_view> VC; typedef u5e::basic_encodedstring<u5e::utf32ne, std::basic_string<int, std::char_traits<int>, OtherAlloc<int>>> S32A;
    std::u32string uc(t.begin(), t.end());
    held<S8A>(c, t, {s8.begin(), s8.end()}, g, want); held<SC>(c, t, uc, g, want); held<SW>(c, t, {t.begin(), t.end()}, g, want); held<VC>(c, t, {uc.data(), uc.size()}, g, want); held<S32A>(c, t, {t.begin(), t.end()}, g, want);
    c.state(); c.outcome(mc::hseq(t)); if (n) c.nontrivial();
  };
  for (int L = 0; L <= (thorough() ? 4 : 3); L++) h.scopes.push_back(mc::seq_scope("other-holders-" + std::to_string(L), L < 3 || thorough() ? (L == 4 ? 18 : NAL) : 20, L, holders, show_al));
  h.scopes.back().bound += ", held in and written to char32_t and wchar_t strings and views and strings with another allocator";
  h.scopes.push_back(mc::list_scope("long", "texts of 1 to 200 codepoints, six patterns (several allocations, long graphemes)", 200, [](Ctx& c, uint64_t t) { for (int p = 0; p < 6; p++) { int v[2] = {(int)t + 1, p}; if (!c.go(v, 2)) return; } },
    [agree](Ctx& c, const int* v, int) { static const int P[6][4] = {{0x61, 0x301, 0x323, 0x327}, {0xFDFA, 0x20, 0xAC01, 0x344}, {0x300, 0x301, 0x302, 0x315}, {0x10FFFF, 0x1D15F, 0x1F1E6, 0x1F1E6}, {0xE9, 0xFB01, 0x0D, 0x0A}, {0, 0x61, 0x301, 0}}; Text t; for (int i = 0; i < v[0]; i++) t.push_back(P[v[1]][(i * 7 + i / 5) % 4]); agree(c, t, true); },
    [](const int* v, int) { return std::to_string(v[0]) + " codepoints, pattern " + std::to_string(v[1]); }));
#endif
  return run_harness(h, argc, argv);
}
