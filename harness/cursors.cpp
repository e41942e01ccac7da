// G04: grapheme iterators as values. U07: editing a text in place through the mutable iterator.
#include <deque>
#include "storages.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;

#ifdef P_G04
enum { O_INCA, O_PINCA, O_BA, O_AB, O_INCB, O_BEGIN, O_END, O_MID, O_LAST, O_KEEP, O_COPYCON, O_LOOK, O_OTHER, O_PRE, NOPS };
static const char* const opn[] = {"++a", "a++", "b = a", "a = b", "++b", "a = the begin", "a = the end", "a found from the middle unit", "a found from the last unit", "keep the grapheme of a", "a = a copy that has moved on, undone", "read and compare", "b = a's counterpart over another text, then moved on and back to a", "a made from the ends of its grapheme"};
static const int AL[] = {0x61, 0x301, 0x1F1E6, 0x0D, 0x0A, 0x1100, 0x1161, 0x200D, 0x2764, 0x261D, 0x1F3FB, 0x10348};
enum { NAL = sizeof AL / sizeof *AL };

// views in the middle of a longer text that would join theirs
struct V8 : U8V { std::string whole; explicit V8(const Text& t) : U8V(t), whole("\xF0\x9F\x87\xA6" + data + "\xCC\x81\xCC\x81") { enc = Enc(Nat(whole.data() + 4, data.size())); } };
struct V32 : U32V { u32str whole; explicit V32(const Text& t) : U32V(t), whole(1, 0x1F1E6) { whole += data; whole += 0x301; whole += 0x301; enc = Enc(Nat(whole.data() + 1, data.size())); } };
template <class St> struct Cur {
  typedef typename St::GI GI; typedef typename St::Enc Enc;
  St s; Text t; std::vector<int> b, off; int k, n; std::vector<GI> at; Cur* other = nullptr;   // at[j]: the iterator that came from the start to cluster j
  explicit Cur(const Text& t) : s(t), t(t), b(ref::bounds(t)), off(St::offsets(t)), n(t.size()) {
    if (!n) b.assign(1, 0);
    k = (int)b.size() - 1;
    GI i = s.enc.grapheme_begin(); for (int j = 0; j <= k; j++) { at.push_back(i); if (j < k) ++i; }
  }
  int unit_cluster(int o) { int cp = n; for (int j = 0; j < n; j++) if (o >= off[j] && o < off[j + 1]) cp = j; for (int j = 0; j < k; j++) if (cp >= b[j] && cp < b[j + 1]) return j; return k; }
  void grapheme(u5e::basic_grapheme<Enc>& g, int j, const char* what) {
    if (j == k) { if (!(g.codepoint_begin() == s.enc.codepoint_cend())) fail("%s: %s, at the end of %s: the grapheme does not begin there", St::name(), what, ref::show(t).c_str()); return; }
    Text want(t.begin() + b[j], t.begin() + b[j + 1]);
    for (int twice = 0; twice < 2; twice++) { Text got = walk(g.codepoint_begin(), g.codepoint_end(), n + 1); if (got != want) fail("%s: %s, in %s: the grapheme is %s instead of %s", St::name(), what, ref::show(t).c_str(), ref::show(got).c_str(), ref::show(want).c_str()); }
  }
  void denotes(Ctx& c, GI& g, int j, const char* what) { auto x = *g; grapheme(x, j, what); c.step(); }
  // everything the iterator can be compared with
  void compare(Ctx& c, GI& g, int j, const char* what) {
    for (int q = 0; q <= k; q++) { bool e = g == at[q], f = at[q] == g, m = g != at[q], r = at[q] != g; if (e != (q == j) || f != e || m == e || r == e) fail("%s: %s, in %s: the iterator at grapheme %d of %d compares %s with the one at %d", St::name(), what, ref::show(t).c_str(), j, k, e ? "equal" : f != e || m == e || r == e ? "inconsistently" : "unequal", q); c.step(); }
    for (int o = 0; o <= off[n]; o++) { bool w = unit_cluster(o) == j, e = g == s.at(o), m = g != s.at(o); if (e != w || m == e) fail("%s: %s, in %s: the iterator at grapheme %d of %d compares %s with unit %d", St::name(), what, ref::show(t).c_str(), j, k, e ? "equal" : "unequal", o); c.step(); }
  }
  void run(Ctx& c, const int* ops, int nops) {
    GI A = s.enc.grapheme_begin(), B = s.enc.grapheme_end(); int a = 0, z = k;
    if (n == 0) a = z = 0;
    u5e::basic_grapheme<Enc> kept = *A; int kj = a;
    for (int i = 0; i < nops; i++) {
      const char* what = opn[ops[i]];
      switch (ops[i]) {
        case O_INCA: { if (a == k) return; GI r = ++A; a++; denotes(c, r, a, "the value of ++a"); break; }
        case O_PINCA: { if (a == k) return; GI r = A++; denotes(c, r, a, "the value of a++"); a++; break; }
        case O_INCB: { if (z == k) return; ++B; z++; break; }
        case O_BA: B = A; z = a; break;
        case O_AB: A = B; a = z; break;
        case O_BEGIN: A = GI(s.enc.codepoint_cbegin(), s.enc.codepoint_cend()); a = 0; break;
        case O_END: A = s.enc.grapheme_end(); a = k; break;
        case O_MID: A = GI(s.enc.codepoint_cbegin(), s.enc.codepoint_cend(), s.at(off[n] / 2)); a = unit_cluster(off[n] / 2); break;
        case O_LAST: if (!n) return; A = GI(s.enc.codepoint_cbegin(), s.enc.codepoint_cend(), s.at(off[n] - 1)); a = k - 1; break;
        case O_KEEP: kept = *A; kj = a; break;
        case O_COPYCON: { GI x(A), y(A); if (a < k) { ++x; denotes(c, x, a + 1, "a copy that moved on"); } denotes(c, A, a, "the original of a copy that moved on"); if (a < k) { A++; A = y; } break; }
        case O_OTHER: {   // an iterator over another text becomes one over this text, and the other way round
          GI x = other->at[0]; if (other->k > 1) { ++x; other->denotes(c, x, 1, "over another text"); } GI y = x;
          x = A; denotes(c, x, a, "assigned from an iterator over another text"); for (int j = a; j < k; ) { ++x; denotes(c, x, ++j, "assigned from an iterator over another text, and advanced"); } if (a == k || k - a < 3) compare(c, x, k, "assigned from an iterator over another text, and advanced to the end");
          GI w = A; w = y; int j = other->k > 1 ? 1 : 0; other->denotes(c, w, j, "over this text, assigned from one over another"); while (j < other->k) { w++; other->denotes(c, w, ++j, "over this text, assigned from one over another, and advanced"); } if (!(w == other->s.enc.grapheme_end()) || w != other->s.enc.grapheme_end()) fail("an iterator assigned from one over another text does not reach the end of that");
          break; }
        case O_PRE: { auto g = *A; A = GI(s.enc.codepoint_cbegin(), s.enc.codepoint_cend(), g.codepoint_begin(), g.codepoint_end()); break; }
        case O_LOOK: compare(c, A, a, what); compare(c, B, z, what); break;
      }
      denotes(c, A, a, what); denotes(c, B, z, what); grapheme(kept, kj, "a grapheme kept from before");
      bool e = A == B, f = B == A, m = A != B; if (e != (a == z) || f != e || m == e) fail("%s: %s, in %s: a at grapheme %d and b at %d compare %s", St::name(), what, ref::show(t).c_str(), a, z, e ? "equal" : "unequal");
    }
    compare(c, A, a, "in the end"); if (nops < 3) compare(c, B, z, "in the end");
    if (!same_units(s.enc.native_string, s.data)) fail("the text changed");
    c.state(); c.outcome(mc::hmix(mc::hseq(t), a * 64 + z * 8 + kj));
  }
};
static Text txt(const int* v) { Text t; for (int i = 0; i < v[0]; i++) t.push_back(AL[v[1 + i]]); return t; }
template <class St> static void both(Ctx& c, const Text& t, const int* ops, int no) { static const Text o{0x1F1E6, 0x1F1E6, 0x20AC, 0x301, 0x62}; static thread_local Cur<St>* y; if (!y) y = new Cur<St>(o); Cur<St> x(t); x.other = y; x.run(c, ops, no); }
static void one(Ctx& c, const int* v, int n) {
  Text t = txt(v); const int* ops = v + 1 + v[0]; int no = n - 1 - v[0];
  both<U8S>(c, t, ops, no); both<V32>(c, t, ops, no); if (no <= 3) { both<V8>(c, t, ops, no); both<U32S>(c, t, ops, no); }
  if (no > 1 && v[0] > 1) c.nontrivial();
}
static std::string show1(const int* v, int n) { std::string s = ref::show(txt(v)) + ":"; for (int i = 1 + v[0]; i < n; i++) s += std::string(" ") + opn[v[i]] + ";"; return s; }
#endif

#ifdef P_U07
typedef std::string S8;
// one codepoint and its partner of the same length
static const int PAIR[6][3] = {{'a', 'Z', 0x7F}, {0xE9, 0xC0, 0x7FF}, {0x20AC, 0x2FFF, 0x800}, {0x10348, 0x10000, 0x1FFFFF}, {0x200000, 0x3FFFFFF, 0x2ABCDE}, {0x4000000, 0x7FFFFFFF, 0x5ABCDEF}};   // the second has the same leading octet as one of the others
enum { E_INC, E_DEC, E_PINC, E_PDEC, E_READ, E_W0, E_W1, E_W2, E_WINC, E_DECW, E_WVAL, E_CHANGE, E_COPYW, E_KEPT, NE };
static const char* const en[] = {"++it", "--it", "it++", "it--", "*it", "*it = 1st", "*it = 2nd", "*it = 3rd", "*it++ = 2nd", "*--it = 3rd", "value of (*it = 2nd)", "*it = the one after *it", "*copy = 3rd", "p = *it; *it = 2nd; p = 1st"};
static Text tx(const int* v, int L) { Text t; for (int i = 0; i < L; i++) t.push_back(PAIR[v[i]][0]); return t; }
template <class It, class Nat> static void edit(Ctx& c, const int* kind, int L, Nat b, std::function<S8()> content, int start, const int* ops, int nops) {
  Text t = tx(kind, L); std::vector<int> off = ref::offsets(t); int pos = start;
  It it(b + off[pos]);
  auto stands = [&](const It& x, int k, const char* what) { for (int j = 0; j <= L; j++) { It w(b + off[j]); if ((x == w) != (j == k) || (w == x) != (j == k) || (x != w) == (j == k)) fail("%s: the iterator should stand on codepoint %d of %d", what, k, L); } };
  for (int i = 0; i < nops; i++) {
    const char* what = en[ops[i]]; int o = ops[i];
    if (o == E_DEC || o == E_PDEC || o == E_DECW) { if (pos == 0) return; } else if (o != E_COPYW && pos == L) return;
    switch (o) {
      case E_INC: ++it; pos++; break; case E_PINC: { It r = it++; stands(r, pos, what); pos++; break; }
      case E_DEC: --it; pos--; break; case E_PDEC: { It r = it--; stands(r, pos, what); pos--; break; }
      case E_READ: { int x = *it; if (x != t[pos]) fail("%s reads U+%04X instead of U+%04X", what, (unsigned)x, (unsigned)t[pos]); break; }
      case E_W0: case E_W1: case E_W2: { int x = PAIR[kind[pos]][o - E_W0]; *it = u5e::codepoint(x); t[pos] = x; int r = *it; if (r != x) fail("%s, U+%04X, reads back as U+%04X", what, (unsigned)x, (unsigned)r); break; }
      case E_WINC: { int x = PAIR[kind[pos]][1]; *it++ = u5e::codepoint(x); t[pos] = x; pos++; break; }
      case E_DECW: { pos--; int x = PAIR[kind[pos]][2]; *--it = u5e::codepoint(x); t[pos] = x; break; }
      case E_WVAL: { int x = PAIR[kind[pos]][1]; int r = (*it = u5e::codepoint(x)); t[pos] = x; if (r != x) fail("the value of assigning U+%04X is U+%04X", (unsigned)x, (unsigned)r); break; }
      case E_CHANGE: { int x = *it; int y = x == PAIR[kind[pos]][0] ? PAIR[kind[pos]][1] : x == PAIR[kind[pos]][1] ? PAIR[kind[pos]][2] : PAIR[kind[pos]][0]; *it = y; t[pos] = y; break; }
      case E_KEPT: { auto p = *it; int was = p; if (was != t[pos]) fail("%s reads U+%04X", what, (unsigned)was); *it = u5e::codepoint(PAIR[kind[pos]][1]); p = u5e::codepoint(was); int now = p; if (now != was) fail("the value of a reference assigned U+%04X is U+%04X", (unsigned)was, (unsigned)now); t[pos] = was; break; }
      case E_COPYW: { if (pos == L) return; It x(it); *x = u5e::codepoint(PAIR[kind[pos]][2]); t[pos] = PAIR[kind[pos]][2]; stands(x, pos, "the copy"); break; }
    }
    S8 want = ref::encode(t), got = content();
    if (got != want) fail("after operation %d (%s) the buffer holds %s instead of %s", i, what, ref::hex(got).c_str(), ref::hex(want).c_str());
    stands(it, pos, what); c.step();
  }
  Text got; size_t k = 0; for (It i(b), e(b + off[L]); i != e; ++i) { if (k++ > t.size()) fail("reading the edited text does not stop"); int x = *i; got.push_back(x); }
  if (got != t) fail("the edited text reads %s instead of %s", ref::show(got).c_str(), ref::show(t).c_str());
  c.state(); c.outcome(mc::hmix(mc::hseq(t), pos));
}
static Guard& G() { static Guard g; return g; }
static void edits(Ctx& c, const int* v, int n) {
  int L = v[0], start = v[1]; const int *kind = v + 2, *ops = v + 2 + L; int no = n - 2 - L; S8 s = ref::encode(tx(kind, L));
  { u5e::utf8_string x(s); edit<u5e::utf8_string::iterator, S8::iterator>(c, kind, L, x.native_string.begin(), [&] { return x.native_string; }, start, ops, no); }
  { char* p = G().right(s.data(), s.size()); edit<u5e::utf8_iterator<char*>, char*>(c, kind, L, p, [&] { return S8(p, s.size()); }, start, ops, no); }
  if (no <= 3) {
    { char* p = G().left(s.data(), s.size()); edit<u5e::utf8_iterator<char*>, char*>(c, kind, L, p, [&] { return S8(p, s.size()); }, start, ops, no); }
    { std::deque<char> d(s.begin(), s.end()); edit<u5e::utf8_iterator<std::deque<char>::iterator>, std::deque<char>::iterator>(c, kind, L, d.begin(), [&] { return S8(d.begin(), d.end()); }, start, ops, no); }
    // inside other octets that stay
    S8 pre = "\xC3\xA9", post = "\xE2\x82\xAC"; std::vector<char> w(pre.begin(), pre.end()); w.insert(w.end(), s.begin(), s.end()); w.insert(w.end(), post.begin(), post.end());
    edit<u5e::utf8_iterator<char*>, char*>(c, kind, L, w.data() + 2, [&] { if (S8(w.data(), 2) != pre || S8(w.data() + 2 + s.size(), 3) != post) fail("octets around the text changed"); return S8(w.data() + 2, s.size()); }, start, ops, no);
  }
  if (no > 1) c.nontrivial();
}
static std::string showe(const int* v, int n) { std::string s = ref::show(tx(v + 2, v[0])) + " from codepoint " + std::to_string(v[1]) + ":"; for (int i = 2 + v[0]; i < n; i++) s += std::string(" ") + en[v[i]] + ";"; return s; }
#endif

int main(int argc, char** argv) {
  mc::Harness h;
  struct Lim { int L, k, d; };
  auto name = [](const Lim& l) { return "texts-" + std::to_string(l.L) + "-k" + std::to_string(l.k) + "-ops-" + std::to_string(l.d); };
#ifdef P_G04
  // {length, alphabet, operations}
  std::vector<Lim> lims = thorough() ? std::vector<Lim>{{0, 1, 4}, {1, 12, 4}, {2, 12, 4}, {3, 7, 4}, {3, 12, 3}, {4, 7, 3}, {4, 12, 2}, {5, 7, 2}} : std::vector<Lim>{{0, 1, 4}, {1, 12, 4}, {2, 12, 3}, {2, 4, 4}, {3, 8, 3}, {3, 12, 2}, {4, 6, 2}};
  for (auto& l : lims) {
    uint64_t nt = 1, no = 1; for (int i = 0; i < l.L; i++) nt *= l.k; for (int i = 0; i < l.d; i++) no *= NOPS;
    h.scopes.push_back(mc::list_scope(name(l), "all texts of " + std::to_string(l.L) + " from " + std::to_string(l.k) + " codepoints x all sequences of " + std::to_string(l.d) + " of " + std::to_string(NOPS) + " operations on two iterators and a kept grapheme, two or four storages", nt,
      [l, no](Ctx& c, uint64_t t) {
        std::vector<int> v(1 + l.L + l.d); v[0] = l.L; for (int i = 0; i < l.L; i++) { v[1 + i] = t % l.k; t /= l.k; }
        for (uint64_t o = 0; o < no; o++) { uint64_t y = o; for (int i = 0; i < l.d; i++) { v[1 + l.L + i] = y % NOPS; y /= NOPS; } if (!c.go(v)) return; }
      }, one, show1));
  }
#endif
#ifdef P_U07
  std::vector<Lim> lims = thorough() ? std::vector<Lim>{{1, 6, 5}, {2, 6, 4}, {3, 4, 4}, {3, 6, 3}, {4, 6, 3}, {5, 4, 3}} : std::vector<Lim>{{1, 6, 4}, {2, 6, 4}, {3, 6, 3}, {4, 4, 3}};
  for (auto& l : lims) {
    uint64_t nt = 1, no = 1; for (int i = 0; i < l.L; i++) nt *= l.k; for (int i = 0; i < l.d; i++) no *= NE;
    h.scopes.push_back(mc::list_scope(name(l), "all texts of " + std::to_string(l.L) + " of " + std::to_string(l.k) + " encoded lengths x every codepoint to start on (and the end) x all sequences of " + std::to_string(l.d) + " of " + std::to_string(NE) + " operations, two or five kinds of buffer", nt,
      [l, no](Ctx& c, uint64_t t) {
        std::vector<int> v(2 + l.L + l.d); v[0] = l.L; for (int i = 0; i < l.L; i++) { v[2 + i] = t % l.k; t /= l.k; }
        for (v[1] = 0; v[1] <= l.L; v[1]++) for (uint64_t o = 0; o < no; o++) { uint64_t y = o; for (int i = 0; i < l.d; i++) { v[2 + l.L + i] = y % NE; y /= NE; } if (!c.go(v)) return; }
      }, edits, showe));
  }
#endif
  return run_harness(h, argc, argv);
}
