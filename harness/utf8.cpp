// U01 U02 U04 U05: encoding, decoding, iteration, bounds.
#include <deque>
#include <sys/mman.h>
#include "common.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;
typedef std::string S8;
typedef u5e::utf8_const_iterator<const char*> PtrIt;          // what a utf8 view uses
typedef u5e::utf8_string::const_iterator StrIt;
typedef u5e::utf8_string::iterator MutIt;
typedef u5e::utf8_iterator<char*> MutPtrIt;

// octets kept apart from each other: what is next in memory is not the next octet
struct Cell { unsigned char before[7]; char octet; unsigned char after[8]; };
struct Apart {
  typedef std::random_access_iterator_tag iterator_category; typedef char value_type; typedef std::ptrdiff_t difference_type; typedef char* pointer; typedef char& reference;
  Cell* p; Apart(Cell* q = nullptr) : p(q) {}
  reference operator*() const { return p->octet; } pointer operator->() const { return &p->octet; } reference operator[](difference_type n) const { return p[n].octet; }
  Apart& operator++() { ++p; return *this; } Apart& operator--() { --p; return *this; } Apart operator++(int) { return Apart(p++); } Apart operator--(int) { return Apart(p--); }
  Apart& operator+=(difference_type n) { p += n; return *this; } Apart& operator-=(difference_type n) { p -= n; return *this; }
  friend Apart operator+(Apart a, difference_type n) { return a += n; } friend Apart operator+(difference_type n, Apart a) { return a += n; } friend Apart operator-(Apart a, difference_type n) { return a -= n; }
  friend difference_type operator-(Apart a, Apart b) { return a.p - b.p; }
  friend bool operator==(Apart a, Apart b) { return a.p == b.p; } friend bool operator!=(Apart a, Apart b) { return a.p != b.p; }
  friend bool operator<(Apart a, Apart b) { return a.p < b.p; } friend bool operator>(Apart a, Apart b) { return a.p > b.p; } friend bool operator<=(Apart a, Apart b) { return a.p <= b.p; } friend bool operator>=(Apart a, Apart b) { return a.p >= b.p; }
};
struct Cells {
  std::vector<Cell> v;
  Cells(const S8& s) : v(s.size() + 16) { for (size_t i = 0; i < v.size(); i++) { memset(&v[i], 0xA5, sizeof(Cell)); if (i >= 8 && i < s.size() + 8) v[i].octet = s[i - 8]; } }
  Apart begin() { return Apart(&v[8]); }
  S8 text() { S8 s; for (size_t i = 0; i < v.size(); i++) { for (int k = 0; k < 8; k++) if (v[i].after[k] != 0xA5 || (k < 7 && v[i].before[k] != 0xA5)) fail("what lies between the octets was written to"); if (i >= 8 && i + 8 < v.size()) s += v[i].octet; else if ((unsigned char)v[i].octet != 0xA5) fail("an octet outside the buffer was written"); } return s; }
};
// an address range of this many zero octets, of which only what is touched takes memory
static char* far_p; static const size_t FAR_SIZE = (8ull << 30) + 8192;
static void reserve_far(mc::Harness& h) { void* p = mmap(nullptr, FAR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } far_p = (char*)p; h.reserved = FAR_SIZE; }
static char* far(size_t n) { if (n > FAR_SIZE) _exit(3); return far_p; }
static const long long FAR[] = {1ll << 31, 1ll << 32, 3ll << 31, 1ll << 33};

static const int LENS[] = {'a', 0xE9, 0x20AC, 0x10348, 0x200000, 0x4000000, 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0x1FFFFF, 0x3FFFFFF, 0x7FFFFFFF,
  1, 0x3F, 0x40, 0xFFF, 0x1000, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0x8000, 0xD7FF, 0xE000, 0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF};
static const int POW[] = {128, 256, 512, 1024, 2048, 4096, 32768, 65536};
static Text syms(const int* v, int n, const int* al) { Text t; for (int i = 0; i < n; i++) t.push_back(al[v[i]]); return t; }

// ---------------------------------------------------------------- U01
static void encode_case(Ctx& c, const Text& t, const S8& prefix) {
  S8 want = prefix + ref::encode(t);
  u5e::utf32ne_string src(to32(t));
  u5e::utf8_string out(prefix);
  out.append_from_utf32ne<u5e::utf32ne_string>(src.codepoint_cbegin(), src.codepoint_cend());
  if (out.native_string != want) fail("%s after [%s] is stored as %s instead of %s", ref::show(t).c_str(), ref::hex(prefix).c_str(), ref::hex(out.native_string).c_str(), ref::hex(want).c_str());
  // read back through the const iterator, starting where this text starts
  S8 body = ref::encode(t);
  StrIt b(out.native_string.cbegin() + prefix.size()), e(out.native_string.cend());
  Text got = walk(b, e, t.size() + 2);
  if (got != t) fail("%s reads back as %s", ref::show(t).c_str(), ref::show(got).c_str());
  if (src.native_string != to32(t)) fail("the source changed");
  c.step(t.size());
}

// ---------------------------------------------------------------- U02
// v[0] = text index parts..., see below: the case is (n, symbols..., start octet, op count, ops...)
static const int CUR[] = {'a', 0xE9, 0x20AC, 0x10348, 0x7FFFFFFF, 0x200000, 0, 0x7F, 0x7FF, 0xFFFF, 0x10FFFF};
enum { O_INC, O_DEC, O_PINC, O_PDEC, O_READ, O_READ2, O_CMP, O_COPY, NOPS };
static const char* const op_name[] = {"++it", "--it", "it++", "it--", "*it", "*it twice", "compare", "copy"};

template <class It, class Nat> struct Cursor {
  static It make(Nat b, int off) { return It(b + off); }
  static void check_pos(It& it, Nat b, const std::vector<int>& off, int want, const char* what) {
    // `it` must be equal to exactly the candidate it should stand on, from both sides
    int n = (int)off.size() - 1;
    for (int k = 0; k <= n; k++) {
      It cand = make(b, off[k]);
      bool e1 = it == cand, e2 = cand == it, n1 = it != cand, n2 = cand != it;
      if (e1 != (k == want) || e2 != e1 || n1 == e1 || n2 == e1) fail("after %s the iterator should stand on codepoint %d of %d but compares %s%s with %d", what, want, n, e1 ? "equal" : "unequal", e1 != e2 || n1 == e1 || n2 == e1 ? " (inconsistently)" : "", k);
    }
  }
  static void run(Ctx& c, const Text& t, const S8& s, Nat b, int start, const int* ops, int nops) {
    std::vector<int> off = ref::offsets(t); int n = t.size();
    int pos = n; for (int k = 0; k < n; k++) if (start >= off[k] && start < off[k + 1]) pos = k;
    It it = make(b, start);
    check_pos(it, b, off, pos, "placing it");
    c.state();
    for (int i = 0; i < nops; i++) {
      switch (ops[i]) {
        case O_INC: { if (pos == n) return; It& r = ++it; if (&r != &it) fail("++it does not return it"); pos++; break; }
        case O_DEC: { if (pos == 0) return; It& r = --it; if (&r != &it) fail("--it does not return it"); pos--; break; }
        case O_PINC: { if (pos == n) return; It o = it++; check_pos(o, b, off, pos, "it++ (the value returned)"); pos++; break; }
        case O_PDEC: { if (pos == 0) return; It o = it--; check_pos(o, b, off, pos, "it-- (the value returned)"); pos--; break; }
        case O_READ: { if (pos == n) return; int v = *it; if (v != t[pos]) fail("reading codepoint %d of %s gives U+%04X", pos, ref::show(t).c_str(), (unsigned)v); break; }
        case O_READ2: { if (pos == n) return; int v = *it, w = *it; if (v != t[pos] || w != v) fail("reading codepoint %d of %s twice gives U+%04X then U+%04X", pos, ref::show(t).c_str(), (unsigned)v, (unsigned)w); break; }
        case O_CMP: { if (!(it == it) || it != it) fail("an iterator is not equal to itself"); for (int o = 0; o <= off[n]; o++) { int p = n; for (int k = 0; k < n; k++) if (o >= off[k] && o < off[k + 1]) p = k;
            It x = make(b, o); if ((it == x) != (p == pos) || (x == it) != (p == pos) || (it != x) == (p == pos)) fail("at codepoint %d: comparison with octet %d (codepoint %d) of %s is wrong", pos, o, p, ref::show(t).c_str()); } break; }
        case O_COPY: { It x(it); It y = make(b, 0); y = x; check_pos(x, b, off, pos, "copying it"); check_pos(y, b, off, pos, "assigning it"); it = y; break; }
      }
      check_pos(it, b, off, pos, op_name[ops[i]]); c.step();
    }
    c.outcome(mc::hmix(mc::hseq(t), pos));
  }
};

static Guard& G() { static Guard g; return g; }

static void cursor_case(Ctx& c, const int* v, int n) {
  int L = v[0]; Text t = syms(v + 1, L, CUR); int start = v[1 + L], nops = n - 2 - L; const int* ops = v + 2 + L;
  S8 s = ref::encode(t);
  u5e::utf8_string str(s);
  Cursor<StrIt, S8::const_iterator>::run(c, t, s, str.native_string.cbegin(), start, ops, nops);
  Cursor<MutIt, S8::iterator>::run(c, t, s, str.native_string.begin(), start, ops, nops);
  const char* p = G().right(s.data(), s.size());
  Cursor<PtrIt, const char*>::run(c, t, s, p, start, ops, nops);
  if (str.native_string != s) fail("the text changed");
  if (nops <= 4) { Cells d(s); Cursor<u5e::utf8_const_iterator<Apart>, Apart>::run(c, t, s, d.begin(), start, ops, nops); Cursor<u5e::utf8_iterator<Apart>, Apart>::run(c, t, s, d.begin(), start, ops, nops); d.text(); }   // random access, not contiguous
  if (nops > 1) c.nontrivial();
}
static Text pattern(const int* v) { Text t{CUR[v[2]]}; while ((int)t.size() < v[3]) t.push_back(CUR[v[t.size() & 1 ? 0 : 1]]); return t; }
template <class It, class Nat> static void long_walk(Ctx& c, const Text& t, Nat b) {
  std::vector<int> off = ref::offsets(t); int n = t.size();
  auto where = [&](const It& it, int k, const char* what) { It w(b + off[k]); if (!(it == w) || it != w || !(w == it)) fail("%s: the iterator is not on codepoint %d of %d", what, k, n); c.step(); };
  { It it(b), e(b + off[n]); for (int k = 0; k < n; k++) { if (it == e) fail("the end is reached after %d of %d codepoints", k, n); int x = *it; if (x != t[k]) fail("codepoint %d of %d reads U+%04X", k, n, x); ++it; } where(it, n, "walking to the end");
    for (int k = n; k-- > 0; ) { if (it == It(b)) fail("the start is reached too early"); --it; int x = *it; if (x != t[k]) fail("walking back, codepoint %d of %d reads U+%04X", k, n, x); } where(it, 0, "walking to the start"); }
  for (int k = 0; k < n; k++) for (int o = off[k]; o < off[k + 1]; o++) {
    It f(b + o), g(b + o); where(f, k, "placing it");
    int x = *f; if (x != t[k]) fail("placed on octet %d, codepoint %d of %d reads U+%04X", o, k, n, x);
    for (int j = k + 1; j <= n && j <= k + 24; j++) { f++; where(f, j, "stepping forward"); }
    for (int j = k - 1; j >= 0 && j >= k - 24; j--) { g--; where(g, j, "stepping backward"); x = *g; if (x != t[j]) fail("stepping backward onto codepoint %d of %d reads U+%04X", j, n, x); }
    if (n <= 40) for (int j = 0; j <= n; j++) { It w(b + off[j]), p(b + o); if ((p == w) != (j == k) || (w == p) != (j == k) || (p != w) == (j == k)) fail("codepoints %d and %d of %d compare wrongly", k, j, n); }
  }
}
static std::string cursor_show(const int* v, int n) {
  int L = v[0]; std::string s = ref::show(syms(v + 1, L, CUR)) + " start at octet " + std::to_string(v[1 + L]) + ":";
  for (int i = 2 + L; i < n; i++) s += std::string(" ") + op_name[v[i]];
  return s;
}

// ---------------------------------------------------------------- U04
static bool cont(unsigned char o) { return (o & 0xC0) == 0x80; }
static int announced(unsigned char o) { int k = 0; while (k < 8 && (o & (0x80 >> k))) k++; return k; }   // leading one bits
static bool offending(const S8& s, size_t i, bool atstart) {
  unsigned char o = s[i];
  return (atstart && cont(o)) || (announced(o) >= 2 && (size_t)announced(o) > s.size() - i);
}
static bool acceptable(const S8& s) {
  if (!s.empty() && cont(s[0])) return false;
  for (size_t i = 0; i < s.size(); i++) if (offending(s, i, false)) return false;
  return true;
}
// a native iterator that notices where it is put and what is read through it
struct Probe {
  typedef std::random_access_iterator_tag iterator_category; typedef char value_type; typedef std::ptrdiff_t difference_type; typedef const char* pointer; typedef const char& reference;
  const char* p; static const char *lo, *hi; static bool left;
  Probe(const char* q = nullptr) : p(q) {}
  Probe& to(const char* q) { p = q; if (q < lo || q > hi) left = true; return *this; }
  reference operator*() const { static const char none = 0; if (p < lo || p >= hi) { left = true; return none; } return *p; }
  reference operator[](difference_type n) const { return *Probe(p + n); }
  Probe& operator++() { return to(p + 1); } Probe& operator--() { return to(p - 1); }
  Probe operator++(int) { Probe o = *this; to(p + 1); return o; } Probe operator--(int) { Probe o = *this; to(p - 1); return o; }
  Probe& operator+=(difference_type n) { return to(p + n); } Probe& operator-=(difference_type n) { return to(p - n); }
  friend Probe operator+(Probe a, difference_type n) { return a += n; } friend Probe operator+(difference_type n, Probe a) { return a += n; } friend Probe operator-(Probe a, difference_type n) { return a -= n; }
  friend difference_type operator-(Probe a, Probe b) { return a.p - b.p; }
  friend bool operator==(Probe a, Probe b) { return a.p == b.p; } friend bool operator!=(Probe a, Probe b) { return a.p != b.p; }
  friend bool operator<(Probe a, Probe b) { return a.p < b.p; } friend bool operator>(Probe a, Probe b) { return a.p > b.p; } friend bool operator<=(Probe a, Probe b) { return a.p <= b.p; } friend bool operator>=(Probe a, Probe b) { return a.p >= b.p; }
};
const char *Probe::lo, *Probe::hi; bool Probe::left;
template <class It, class Nat> static void walk(Ctx& c, const S8& s, const char* p) {
  It b{Nat(p)}, e{Nat(p + s.size())}; size_t k = 0; Probe::lo = p; Probe::hi = p + s.size(); Probe::left = false;
  It i = b;
  while (k++ <= s.size() && i != e) { int x = *i; (void)x; ++i; c.step(); }
  if (Probe::left) fail("walking forward leaves the buffer %s", ref::hex(s).c_str());
  i = e; k = 0;
  while (k++ <= s.size() && i != b) { --i; int x = *i; (void)x; c.step(); }
  if (Probe::left) fail("walking backward leaves the buffer %s", ref::hex(s).c_str());
}
static void bounds_case(Ctx& c, const S8& s) {
  bool want = acceptable(s);
  char* p = G().right(s.data(), s.size());   // reading past the end, or before it if the buffer is on the left, faults
  for (int side = 0; side < 2; side++) {
    if (side) p = G().left(s.data(), s.size());
    bool got = u5e::utf8_bounds<const char*>::check(p, p + s.size());
    if (got != want) fail("check says %s for %s", got ? "good" : "bad", ref::hex(s).c_str());
    if (memcmp(p, s.data(), s.size())) fail("check changed the buffer");
    c.step();
    if (got) { walk<PtrIt, const char*>(c, s, p); walk<u5e::utf8_const_iterator<Probe>, Probe>(c, s, p); }   // outside is inaccessible on one side
  }
  S8 w = s; bool clean = true;
  for (size_t i = 0, st = 1; i < s.size(); i++) { if (offending(s, i, st)) { w[i] = '?'; clean = false; } if (!cont(s[i])) st = 0; }
  for (int side = 0; side < 2; side++) {
    p = side ? G().left(s.data(), s.size()) : G().right(s.data(), s.size());
    char* far = side ? p + s.size() : p - 64; memset(far, 0x80 + side * 0x40, 64); S8 guard(far, 64);
    bool got = u5e::utf8_bounds<char*>::enforce(p, p + s.size());
    S8 after(p, s.size());
    if (after != w) fail("enforce turns %s into %s instead of %s", ref::hex(s).c_str(), ref::hex(after).c_str(), ref::hex(w).c_str());
    if (got != clean) fail("enforce says %s for %s", got ? "unchanged" : "changed", ref::hex(s).c_str());
    if (S8(far, 64) != guard) fail("enforce wrote outside the buffer");
    if (!u5e::utf8_bounds<const char*>::check(p, p + s.size())) fail("check rejects what enforce left of %s", ref::hex(s).c_str());
    if (!u5e::utf8_bounds<char*>::enforce(p, p + s.size()) || S8(p, s.size()) != w) fail("enforcing twice changes the buffer again");
    c.step();
  }
  // the owning storage
  S8 own = s;
  if (u5e::utf8_bounds<S8::const_iterator>::check(own.cbegin(), own.cend()) != want) fail("check on a string disagrees for %s", ref::hex(s).c_str());
  bool r = u5e::utf8_bounds<S8::iterator>::enforce(own.begin(), own.end());
  if (own != w || r != clean) fail("enforce on a string disagrees for %s", ref::hex(s).c_str());
  c.state(); c.outcome(want * 2 + clean + 4 * (int)s.size()); if (!want) c.nontrivial();
}
static const unsigned char OCT[] = {0x61, 0x80, 0xBF, 0xC2, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF, 0x00, 0x7F, 0xDF, 0xEF};
static S8 octs(const int* v, int n) { S8 s; for (int i = 0; i < n; i++) s += (char)OCT[v[i]]; return s; }

// ---------------------------------------------------------------- U05
static const int WR[] = {'a', 0xE9, 0x20AC, 0x10348, 0x10FFFF, 0x7FFFFFFF, 0, 0x7F, 0x7FF, 0x800, 0xFFFF, 0x200000, 0x3FFFFFF};
template <class It, class Nat> void write_case(Ctx& c, Nat b, const Text& t, const S8& before, std::function<S8()> content, int post) {
  It it(b); S8 want = before; std::vector<int> off = ref::offsets(t);
  for (size_t i = 0; i < t.size(); i++) {
    S8 e; ref::encode(t[i], e);
    *it = u5e::codepoint(t[i]);
    want.replace(off[i], e.size(), e);
    if (content() != want) fail("writing codepoint %zu of %s leaves %s instead of %s", i, ref::show(t).c_str(), ref::hex(content()).c_str(), ref::hex(want).c_str());
    int v = *it;
    if (v != t[i]) fail("after writing U+%04X the iterator reads U+%04X", (unsigned)t[i], (unsigned)v);
    It here(b + off[i]);
    if (!(it == here) || !(here == it)) fail("after writing codepoint %zu the iterator is not on it", i);
    if (post) it++; else ++it;
    It next(b + off[i + 1]);
    if (!(it == next) || it != next || it == here) fail("after writing codepoint %zu of %s and one step the iterator is not right after it", i, ref::show(t).c_str());
    c.step();
  }
  // the written text reads back, with the mutable iterator too
  It r(b), e(b + off.back()); size_t k = 0;
  while (r != e) { if (k >= t.size()) fail("reading back runs on"); int v = *r; if (v != t[k++]) fail("reads back U+%04X", (unsigned)v); r++; }
  if (k != t.size()) fail("reads back %zu codepoints instead of %zu", k, t.size());
  c.state(); c.outcome(mc::hseq(t));
}
static S8 fillpat(int f, size_t n) {
  S8 s(n, 0);
  if (f == 1) s.assign(n, 'x');
  else if (f == 2) { s.clear(); while (s.size() + 2 <= n) s += "\xC3\xA9"; s.resize(n, 'z'); }
  else if (f == 3) { s.clear(); while (s.size() + 4 <= n) s += "\xF0\x90\x8D\x88"; s.resize(n, 'z'); }
  else if (f == 4) { s.clear(); s += 'z'; while (s.size() + 3 <= n) s += "\xE2\x82\xAC"; s.resize(n, 'z'); }
  else if (f == 5) { s.assign(n, (char)0x80); s[0] = 'q'; }
  else if (f == 6) s.assign(n, (char)0xC3);
  return s;
}
enum { NFILL = 7 };

int main(int argc, char** argv) {
  mc::Harness h; (void)far; (void)FAR;
#if defined P_U02 || defined P_U04
  reserve_far(h);
#else
  (void)reserve_far;
#endif
#ifdef P_U01
  auto one = [](Ctx& c, const int* v, int) { encode_case(c, Text(1, v[0]), S8()); c.state(); c.outcome(ref::enc_len(v[0])); if (v[0] > 0x7F) c.nontrivial(); };
  auto showcp = [](const int* v, int) { return ref::show(Text(1, v[0])); };
  h.scopes.push_back(mc::range_scope("codespace", 0, ref::MAXCP, one, showcp));
  if (thorough()) h.scopes.push_back(mc::range_scope("all-31-bit", 0, 1ll << 31, one, showcp));
  else {
    h.scopes.push_back(mc::range_scope("up-to-2^25", ref::MAXCP, 1 << 25, one, showcp));
    h.scopes.push_back(mc::range_scope("top", (1ll << 31) - (1 << 20), 1ll << 31, one, showcp));
    h.scopes.push_back(mc::range_scope("around-2^26", (1 << 26) - (1 << 18), (1 << 26) + (1 << 18), one, showcp));
  }
  int na = sizeof LENS / sizeof *LENS;
  for (int L = 0; L <= (thorough() ? 5 : 4); L++) {
    int k = L <= 3 ? na : 17; if (L == 5) k = 12;
    h.scopes.push_back(mc::seq_scope("sequences-" + std::to_string(L), k, L, [](Ctx& c, const int* v, int n) {
      Text t = syms(v, n, LENS); S8 full = ref::encode(Text{'p', 0xE9, 0x20AC, 0x10348});
      encode_case(c, t, S8());
      if (n <= 3) { encode_case(c, t, "p"); encode_case(c, t, full); encode_case(c, t, S8(15, 'x')); encode_case(c, t, S8(16, 'y')); }
      // from a view, and into the other encoding
      u32str b = to32(t); u5e::utf32ne_string_view view{u32view(b)}; u5e::utf8_string out("ab"); u5e::utf32ne_string o32(u32str(1, 7));
      out.append_from_utf32ne<u5e::utf32ne_string_view>(view.codepoint_cbegin(), view.codepoint_cend());
      if (out.native_string != "ab" + ref::encode(t)) fail("from a view, %s is stored as %s", ref::show(t).c_str(), ref::hex(out.native_string).c_str());
      o32.append_from_utf32ne<u5e::utf32ne_string_view>(view.codepoint_cbegin(), view.codepoint_cend());
      if (o32.native_string != u32str(1, 7) + b) fail("appending %s to UTF-32 text is wrong", ref::show(t).c_str());
      c.state(); c.outcome(mc::hseq(t)); if (n > 1) c.nontrivial();
    }, [](const int* v, int n) { return ref::show(syms(v, n, LENS)); }));
  }
  // longer texts: every length to 80 of each value, and one deviating codepoint at each place
  h.scopes.push_back(mc::list_scope("runs", "runs of 1 to 70 of each of 8 values with at most one different codepoint at each place", 8, [](Ctx& c, uint64_t t) {
      for (int n = 1; n <= 70; n++) for (int at = 0; at <= n; at++) { int v[4] = {(int)t, n, at, (int)((t + 1) % 8)}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { Text t(v[1], LENS[v[0]]); if (v[2] < v[1]) t[v[2]] = LENS[v[3]]; encode_case(c, t, S8()); encode_case(c, t, "\xC3\xA9"); c.state(); c.nontrivial(); c.outcome(mc::hseq(t)); },
    [](const int* v, int) { char b[99]; snprintf(b, sizeof b, "%d x U+%04X with U+%04X at %d", v[1], LENS[v[0]], LENS[v[3]], v[2]); return std::string(b); }));
  // every distance from the start, for what is written in blocks
  h.scopes.push_back(mc::list_scope("distances", "0 to " + std::to_string(thorough() ? 4200 : 1100) + " codepoints of one of 8 values, then one of 8, then two of the first", 64, [](Ctx& c, uint64_t t) {
      for (int n = 0; n <= (thorough() ? 4200 : 1100); n++) { int v[3] = {(int)t % 8, (int)t / 8, n}; if (!c.go(v, 3)) return; } },
    [](Ctx& c, const int* v, int) { Text t(v[2] + 3, LENS[v[0]]); t[v[2]] = LENS[v[1]]; encode_case(c, t, S8()); c.state(); c.nontrivial(); c.outcome(mc::hseq(t)); },
    [](const int* v, int) { char b[99]; snprintf(b, sizeof b, "%d x U+%04X, U+%04X, 2 x U+%04X", v[2], LENS[v[0]], LENS[v[1]], LENS[v[0]]); return std::string(b); }));
  // lengths around the powers of two, where buffers and counters have their limits
  h.scopes.push_back(mc::list_scope("long-runs", "runs whose length is within 2 of 128, 256, 512, 1024, 2048, 4096" + std::string(thorough() ? ", 32768, 65536" : "") + " of each of 8 values with at most one of the 7 others first, in the middle or last", 8, [](Ctx& c, uint64_t t) {
      for (int n : POW) for (int d = -2; d <= 2; d++) for (int o = 1; o < 8; o++) for (int at = 0; at < 4; at++) { if (n > 4096 && !thorough()) break; if (at == 3 && o > 1) break; int v[4] = {(int)t, n + d, at, (int)((t + o) % 8)}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { Text t(v[1], LENS[v[0]]); if (v[2] < 3) t[v[2] * (v[1] - 1) / 2] = LENS[v[3]]; encode_case(c, t, S8()); encode_case(c, t, "\xC3\xA9"); c.state(); c.nontrivial(); c.outcome(mc::hseq(t)); },
    [](const int* v, int) { char b[99]; snprintf(b, sizeof b, "%d x U+%04X with U+%04X at %s", v[1], LENS[v[0]], LENS[v[3]], v[2] == 0 ? "the start" : v[2] == 1 ? "the middle" : v[2] == 2 ? "the end" : "no place"); return std::string(b); }));
#endif
#ifdef P_U02
  // every text, every starting octet, every sequence of operations
  struct Lim { int L, k, d; };
  std::vector<Lim> lims = thorough() ? std::vector<Lim>{{1, 11, 6}, {2, 8, 5}, {3, 6, 4}, {4, 4, 4}, {2, 11, 3}, {3, 11, 2}, {5, 5, 2}} : std::vector<Lim>{{1, 11, 5}, {2, 6, 4}, {3, 4, 4}, {2, 11, 2}, {3, 8, 2}, {4, 5, 2}};
  for (auto& l : lims) {
    uint64_t nt = 1; for (int i = 0; i < l.L; i++) nt *= l.k;
    uint64_t no = 1; for (int i = 0; i < l.d; i++) no *= NOPS;
    h.scopes.push_back(mc::list_scope("texts-" + std::to_string(l.L) + "-ops-" + std::to_string(l.d) + "-k" + std::to_string(l.k),
      "all texts of " + std::to_string(l.L) + " from " + std::to_string(l.k) + " codepoints x every starting octet x all " + std::to_string(no) + " sequences of " + std::to_string(l.d) + " operations, three kinds of iterators, and two over octets that lie apart for up to 4 operations", nt,
      [l, no](Ctx& c, uint64_t t) {
        std::vector<int> v(2 + l.L + l.d); v[0] = l.L; uint64_t x = t; for (int i = 0; i < l.L; i++) { v[1 + i] = x % l.k; x /= l.k; }
        int size = ref::encode(syms(&v[1], l.L, CUR)).size();
        for (int s = 0; s <= size; s++) { v[1 + l.L] = s; for (uint64_t o = 0; o < no; o++) { uint64_t y = o; for (int i = 0; i < l.d; i++) { v[2 + l.L + i] = y % NOPS; y /= NOPS; } if (!c.go(v)) return; } }
      }, cursor_case, cursor_show));
  }
  // single-codepoint decoding of every codepoint, forward and backward, between neighbours
  h.scopes.push_back(mc::range_scope("every-codepoint", 0, ref::MAXCP, [](Ctx& c, const int* v, int) {
    Text t{0xE9, v[0], 0x20AC}; S8 s = ref::encode(t); std::vector<int> off = ref::offsets(t);
    PtrIt it(s.data() + off[1]); int x = *it; if (x != v[0]) fail("U+%04X reads as U+%04X", v[0], x);
    ++it; x = *it; if (x != 0x20AC) fail("the codepoint after U+%04X reads as U+%04X", v[0], x);
    --it; x = *it; if (x != v[0]) fail("stepping back onto U+%04X reads U+%04X", v[0], x);
    --it; x = *it; if (x != 0xE9) fail("the codepoint before U+%04X reads as U+%04X", v[0], x);
    PtrIt last(s.data() + off[2] - 1); x = *last; if (x != v[0]) fail("read from its last octet, U+%04X is U+%04X", v[0], x);
    c.state(); c.step(5); c.outcome(ref::enc_len(v[0])); c.nontrivial();
  }, [](const int* v, int) { return ref::show(Text(1, v[0])); }));
  // long texts: placed on every octet, walked to both ends and back
  h.scopes.push_back(mc::list_scope("long", "texts of 5 to " + std::to_string(thorough() ? 300 : 140) + " codepoints repeating every pattern of 2 of 6 codepoints after one of 6: every starting octet, up to 24 codepoints forward and back from it, both ends walked to from the other, all pairs compared up to 40 codepoints", 216, [](Ctx& c, uint64_t t) {
      for (int n = 5; n <= (thorough() ? 300 : 140); n++) { int v[4] = {(int)t % 6, (int)t / 6 % 6, (int)t / 36, n}; if (n > 40 && n % 7 && (n & (n - 1)) && (n & (n + 1))) continue; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { Text t = pattern(v); S8 s = ref::encode(t); u5e::utf8_string str(s); std::deque<char> d(s.begin(), s.end());
      long_walk<StrIt>(c, t, str.native_string.cbegin()); long_walk<MutIt>(c, t, str.native_string.begin()); long_walk<PtrIt>(c, t, (const char*)G().right(s.data(), s.size())); long_walk<PtrIt>(c, t, (const char*)G().left(s.data(), s.size()));
      { Cells a(s); long_walk<u5e::utf8_const_iterator<Apart>>(c, t, a.begin()); }
      if (v[3] <= 24) long_walk<u5e::utf8_const_iterator<std::deque<char>::const_iterator>>(c, t, d.cbegin());
      c.state(); c.outcome(mc::hseq(t)); c.nontrivial(); },
    [](const int* v, int) { return std::to_string(v[3]) + " codepoints: " + ref::show(Text{CUR[v[2]], CUR[v[0]], CUR[v[1]]}) + " then the last two again and again"; }));
  // codepoints whose distance does not fit into 32 bits
  h.scopes.push_back(mc::list_scope("far-apart", "two texts of one or two of 11 codepoints 2^31, 2^32, 3*2^31 or 2^33 octets apart, give or take 6: iterators on every octet of each compared with those of the other, read and stepped", 44, [](Ctx& c, uint64_t t) {
      for (int d = -6; d <= 6; d++) for (int b = 0; b < 11; b++) for (int e = 0; e < 3; e++) { int v[5] = {(int)t / 11, d, (int)t % 11, b, e}; if (!c.go(v, 5)) return; } },
    [](Ctx& c, const int* v, int) { char* p = far(FAR[3] + 4096); Text t{CUR[v[2]], CUR[v[3]]}; if (v[4]) t.push_back(CUR[v[4]]); S8 s = ref::encode(t); std::vector<int> off = ref::offsets(t); int n = t.size();
      char *a = p + 64, *b = a + FAR[v[0]] + v[1]; memcpy(a, s.data(), s.size()); memcpy(b, s.data(), s.size());
      for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) for (int o = off[i]; o < (i < n ? off[i + 1] : off[i] + 1); o++) {
        PtrIt x(a + o), y(b + off[j]); if (x == y || y == x || !(x != y) || !(y != x)) fail("iterators on codepoint %d and on codepoint %d, %lld octets later, compare equal", i, j, (long long)(b + off[j] - a - o));
        MutPtrIt k(a + o), l(b + off[j]); if (k == l || l == k || !(k != l) || !(l != k)) fail("writing iterators on codepoint %d and on codepoint %d, %lld octets later, compare equal", i, j, (long long)(b + off[j] - a - o));
        if (j < n && (int)*y != t[j]) fail("codepoint %d reads U+%04X", j, (int)*y); if (j < n) { ++y; if (!(y == PtrIt(b + off[j + 1]))) fail("stepping from codepoint %d", j); } if (j > 0) { --y; if (j == n) { if (!(y == PtrIt(b + off[n - 1]))) fail("stepping back from the end"); } } c.step(2); }
      memset(a, 0, s.size()); memset(b, 0, s.size()); c.state(); c.outcome(mc::hmix(mc::hseq(t), v[0])); c.nontrivial(); },
    [](const int* v, int) { return ref::show(Text{CUR[v[2]], CUR[v[3]]}) + (v[4] ? " " + ref::show(Text{CUR[v[4]]}) : S8()) + ", twice, " + std::to_string(FAR[v[0]] + v[1]) + " octets apart"; }));
  // reverse iteration through the standard adaptor
  for (int L = 0; L <= (thorough() ? 5 : 4); L++) h.scopes.push_back(mc::seq_scope("reverse-" + std::to_string(L), L < 4 ? 11 : 6, L, [](Ctx& c, const int* v, int n) {
    Text t = syms(v, n, CUR); S8 s = ref::encode(t); u5e::utf8_string str(s); Text want(t.rbegin(), t.rend());
    typedef u5e::utf8_string::const_reverse_iterator RI;
    RI rb(str.codepoint_cend()), re(str.codepoint_cbegin()); Text got; size_t k = 0;
    for (RI i = rb; i != re; ++i) { if (k++ > t.size()) fail("reverse iteration does not stop"); int x = *i; got.push_back(x); }
    if (got != want) fail("reverse iteration over %s reads %s", ref::show(t).c_str(), ref::show(got).c_str());
    typedef u5e::utf8_string::reverse_iterator MRI;
    MRI mb(str.codepoint_end()), me(str.codepoint_begin()); got.clear(); k = 0;
    for (MRI i = mb; i != me; ++i) { if (k++ > t.size()) fail("reverse iteration does not stop"); int x = *i; got.push_back(x); }
    if (got != want) fail("mutable reverse iteration over %s reads %s", ref::show(t).c_str(), ref::show(got).c_str());
    // standard algorithms over the pair
    if (std::distance(str.codepoint_cbegin(), str.codepoint_cend()) != n) fail("std::distance over %s is wrong", ref::show(t).c_str());
    Text cp; for (auto i = str.codepoint_cbegin(); i != str.codepoint_cend(); ++i) cp.push_back((int)*i);
    if (cp != t) fail("forward iteration over %s reads %s", ref::show(t).c_str(), ref::show(cp).c_str());
    c.state(); c.step(2 * n); c.outcome(mc::hseq(t)); if (n > 1) c.nontrivial();
  }, [](const int* v, int n) { return ref::show(syms(v, n, CUR)); }));
#endif
#ifdef P_U04
  for (int L = 0; L <= (thorough() ? 7 : 5); L++)
    h.scopes.push_back(mc::seq_scope("classes-" + std::to_string(L), L <= 5 ? 14 : L == 6 ? 11 : 10, L, [](Ctx& c, const int* v, int n) { bounds_case(c, octs(v, n)); }, [](const int* v, int n) { return ref::hex(octs(v, n)); }, L > 4 ? 3 : 2));
  auto bytes = [](const int* v, int n) { S8 s; for (int i = 0; i < n; i++) s += (char)v[i]; return s; };
  for (int L = 1; L <= (thorough() ? 3 : 2); L++)
    h.scopes.push_back(mc::seq_scope("octets-" + std::to_string(L), 256, L, [bytes](Ctx& c, const int* v, int n) { bounds_case(c, bytes(v, n)); }, [bytes](const int* v, int n) { return ref::hex(bytes(v, n)); }));
  // long buffers: every octet class at every distance from each end
  h.scopes.push_back(mc::list_scope("positions", "buffers of 8 to 40 octets filled with 'a' or with continuations after 'a', two arbitrary octets of 14 classes within 10 of either end", 33, [](Ctx& c, uint64_t t) {
      int n = 8 + (int)t;
      for (int fill = 0; fill < 2; fill++) for (int e = 0; e < 2; e++) for (int p = 0; p < 10 && p < n; p++) for (int q = p + 1; q < 11 && q < n; q++) for (int a = 0; a < 14; a++) for (int b = 0; b < 14; b++) {
        int v[7] = {n, fill, e ? n - 1 - p : p, a, e ? n - 1 - q : q, b, 0}; if (!c.go(v, 7)) return; } },
    [](Ctx& c, const int* v, int) { S8 s(v[0], v[1] ? (char)0x80 : 'a'); s[0] = 'a'; s[v[2]] = OCT[v[3]]; s[v[4]] = OCT[v[5]]; bounds_case(c, s); },
    [](const int* v, int) { S8 s(v[0], v[1] ? (char)0x80 : 'a'); s[0] = 'a'; s[v[2]] = OCT[v[3]]; s[v[4]] = OCT[v[5]]; return ref::hex(s); }));
  // buffers whose size does not fit into 32 bits
  h.scopes.push_back(mc::list_scope("huge", "buffers of 2^31, 2^32, 3*2^31 and 2^33 octets, give or take 6, zeros but for every three octets of 14 classes at the end and, of 14, the first", 52, [](Ctx& c, uint64_t t) {
      for (int f = 0; f < 14; f++) for (int x = 0; x < 196; x++) for (int y = 0; y < 14; y++) { if (f > 2 && x % 14 != 10) break; int v[6] = {(int)t / 13, (int)t % 13 - 6, f, x / 14, x % 14, y}; if (!c.go(v, 6)) return; } },
    [](Ctx& c, const int* v, int) { char* p = far(FAR[3] + 4096); long long n = FAR[v[0]] + v[1]; char* e = p + n; S8 tail; for (int i = 3; i < 6; i++) tail += (char)OCT[v[i]];
      p[0] = OCT[v[2]]; memcpy(e - 3, tail.data(), 3); bool first = !cont(p[0]), want = first; S8 w = tail; for (int i = 0; i < 3; i++) if (offending(tail, i, false)) { want = false; w[i] = '?'; }
      // runs of continuations at the start are offending too, but here one octet is all there is
      struct Clean { char *p, *e; ~Clean() { p[0] = 0; memset(e - 3, 0, 3); } } clean{p, e};
      bool got = u5e::utf8_bounds<const char*>::check(p, e); if (got != want) fail("check says %s for %lld octets that start with %02X and end with %s", got ? "good" : "bad", n, OCT[v[2]], ref::hex(tail).c_str());
      if (p[0] != (char)OCT[v[2]] || memcmp(e - 3, tail.data(), 3)) fail("check changed the buffer");
      bool un = u5e::utf8_bounds<char*>::enforce(p, e); if (un != want) fail("enforce says %s for %lld octets that start with %02X and end with %s", un ? "unchanged" : "changed", n, OCT[v[2]], ref::hex(tail).c_str());
      if (p[0] != (first ? (char)OCT[v[2]] : '?') || S8(e - 3, 3) != w || p[1] || e[-4] || *e) fail("enforce turns %lld octets that start with %02X and end with %s into ones that start with %02X %02X and end with %s", n, OCT[v[2]], ref::hex(tail).c_str(), p[0] & 255, p[1] & 255, ref::hex(S8(e - 4, 4)).c_str());
      if (!u5e::utf8_bounds<const char*>::check(p, e)) fail("check rejects what enforce left"); c.state(); c.step(3); c.outcome(want * 2 + first); if (!want) c.nontrivial(); },
    [](const int* v, int) { return std::to_string(FAR[v[0]] + v[1]) + " octets that start with " + ref::hex(S8(1, (char)OCT[v[2]])) + "and end with " + ref::hex(S8{(char)OCT[v[3]], (char)OCT[v[4]], (char)OCT[v[5]]}); }));
  // runs: n continuations, then m octets of one class
  h.scopes.push_back(mc::list_scope("runs", "k continuation octets (0-40) followed by m octets (0-12) of each class, one class octet, nothing", 41, [](Ctx& c, uint64_t t) {
      for (int m = 0; m <= 12; m++) for (int a = 0; a < 14; a++) for (int b = 0; b < 15; b++) { int v[4] = {(int)t, m, a, b}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { S8 s(v[0], (char)0x80); s += S8(v[1], (char)OCT[v[2]]); if (v[3] < 14) s += (char)OCT[v[3]]; bounds_case(c, s); },
    [](const int* v, int) { S8 s(v[0], (char)0x80); s += S8(v[1], (char)OCT[v[2]]); if (v[3] < 14) s += (char)OCT[v[3]]; return ref::hex(s); }));
#endif
#ifdef P_U05
  int nw = sizeof WR / sizeof *WR;
  auto all = [](Ctx& c, const Text& t, int fill, int post, int slack) {
    S8 body(ref::encode(t)); size_t n = body.size() + slack; S8 before = fillpat(fill, n + 8);
    if (fill <= 4 && slack == 0) {   // exact fit, flush against inaccessible memory (contents that are themselves text)
      S8 z(n, fill ? 'x' : 0); char* p = G().right(z.data(), n);
      if (n) write_case<MutPtrIt, char*>(c, p, t, z, [p, n] { return S8(p, n); }, post);
      p = G().left(z.data(), n);
      if (n) write_case<MutPtrIt, char*>(c, p, t, z, [p, n] { return S8(p, n); }, post);
    }
    u5e::utf8_string str(before);
    write_case<MutIt, S8::iterator>(c, str.native_string.begin(), t, before, [&str] { return str.native_string; }, post);
    std::deque<char> dq(before.begin(), before.end());
    write_case<u5e::utf8_iterator<std::deque<char>::iterator>, std::deque<char>::iterator>(c, dq.begin(), t, before, [&dq] { return S8(dq.begin(), dq.end()); }, post);
    if (slack == 0) { Cells a(before); write_case<u5e::utf8_iterator<Apart>, Apart>(c, a.begin(), t, before, [&a] { return a.text(); }, post); }
    std::vector<char> buf(64 + before.size() + 64, 'w'); char* p = &buf[64]; memcpy(p, before.data(), before.size()); size_t bn = before.size();
    write_case<MutPtrIt, char*>(c, p, t, before, [p, bn] { return S8(p, bn); }, post);
    for (int i = 0; i < 64; i++) if (buf[i] != 'w' || buf[64 + bn + i] != 'w') fail("writing %s touched memory outside the buffer", ref::show(t).c_str());
    c.nontrivial();
  };
  for (int L = 1; L <= (thorough() ? 5 : 4); L++) {
    int k = L <= 3 ? nw : L == 4 ? 8 : 7;
    h.scopes.push_back(mc::seq_scope("writes-" + std::to_string(L), k, L, [all](Ctx& c, const int* v, int n) {
      Text t = syms(v, n, WR); for (int f = 0; f < NFILL; f++) for (int slack : {0, 5}) { if (n >= 4 && slack && f > 2) continue; all(c, t, f, f & 1, slack); }
    }, [](const int* v, int n) { return ref::show(syms(v, n, WR)); }));
  }
  h.scopes.push_back(mc::range_scope("every-codepoint", 0, ref::MAXCP, [](Ctx& c, const int* v, int) {
    char buf[20]; memset(buf, 'x', sizeof buf); Text t{v[0], 'k'}; S8 want = ref::encode(t); 
    MutPtrIt it(buf + 4); *it = u5e::codepoint(v[0]); int r = *it; ++it; *it = u5e::codepoint('k');
    if (S8(buf + 4, want.size()) != want) fail("U+%04X then 'k' is written as %s", v[0], ref::hex(S8(buf + 4, want.size())).c_str());
    if (r != v[0]) fail("U+%04X reads back as U+%04X", v[0], r);
    for (int i = 0; i < 20; i++) if ((i < 4 || i >= 4 + (int)want.size()) && buf[i] != 'x') fail("octet %d around the text was touched", i - 4);
    c.state(); c.step(2); c.outcome(want.size());
  }, [](const int* v, int) { return ref::show(Text(1, v[0])); }));
  h.scopes.push_back(mc::list_scope("overwrite", "every text of 3 from 6 codepoints overwritten in place by every text of 3, then by the first again", 216, [](Ctx& c, uint64_t t) {
      for (int u = 0; u < 216; u++) { int v[6] = {(int)t / 36, (int)t / 6 % 6, (int)t % 6, u / 36, u / 6 % 6, u % 6}; if (!c.go(v, 6)) return; } },
    [](Ctx& c, const int* v, int) {
      Text a = syms(v, 3, WR), b = syms(v + 3, 3, WR); S8 before = ref::encode(a) + ref::encode(a) + ref::encode(a) + S8(20, 'z');
      u5e::utf8_string s(before);
      write_case<MutIt, S8::iterator>(c, s.native_string.begin(), b, before, [&s] { return s.native_string; }, 0);
      S8 mid = s.native_string;
      write_case<MutIt, S8::iterator>(c, s.native_string.begin(), a, mid, [&s] { return s.native_string; }, 1);
      c.nontrivial();
    }, [](const int* v, int) { return ref::show(syms(v, 3, WR)) + " overwritten by " + ref::show(syms(v + 3, 3, WR)); }));
  // the buffer already holds something that decodes to the codepoint written, but is not its encoding
  h.scopes.push_back(mc::list_scope("same-value-before", "every written codepoint of the alphabet x each longer form of it, and forms whose other octets are no continuation octets, x a next codepoint", nw, [nw](Ctx& c, uint64_t t) {
      for (int size = 1; size <= 6; size++) for (int top = 0; top < 4; top++) for (int next = 0; next < nw; next++) { int v[4] = {(int)t, size, top, next}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) {
      int x = WR[v[0]], size = v[1]; if (size < ref::enc_len(x)) { c.outcome(1); return; }
      S8 pre; if (size == 1) pre += (char)x; else { pre += (char)((0xFF << (8 - size)) | (x >> ((size - 1) * 6))); for (int k = size - 2; k >= 0; k--) pre += (char)(v[2] << 6 | (x >> (k * 6) & 0x3F)); }
      S8 before = "k" + pre + pre + pre + "some room for the rest"; Text t{x, WR[v[3]]};
      u5e::utf8_string str(before); S8 rest = before.substr(1);
      write_case<MutIt, S8::iterator>(c, str.native_string.begin() + 1, t, rest, [&str] { return str.native_string.substr(1); }, v[2] & 1);
      if (str.native_string[0] != 'k') fail("the octet before was touched"); c.nontrivial();
    }, [](const int* v, int) { return ref::show(Text{WR[v[0]], WR[v[3]]}) + " over a form of the first in " + std::to_string(v[1]) + " octets with top bits " + std::to_string(v[2]); }));
#endif
#if defined P_U01 || defined P_U05
  // values that have no encoding: still one complete sequence, and the neighbours are as ever
  h.scopes.push_back(mc::list_scope("beyond-31-bits", "every value of more than 31 bits with up to three more bits set, and the complement of every value of up to 31 bits with up to two set, between two of 6 codepoints", 32, [](Ctx& c, uint64_t t) {
      for (int i = 0; i < 32; i++) for (int j = i; j < 32; j++) for (int n = 0; n < 36; n++) { unsigned x = 1u << 31 | (t < 31 ? 1u << t : 0) | (i < 31 ? 1u << i : 0) | (j < 31 ? 1u << j : 0); int v[2] = {(int)x, n}; if (!c.go(v, 2)) return;
        if (t == 31) { v[0] = (int)~((i < 31 ? 1u << i : 0) | (j < 31 ? 1u << j : 0)); if (!c.go(v, 2)) return; } } },
    [](Ctx& c, const int* v, int) {
      Text a{LENS[v[1] / 6]}, b{LENS[v[1] % 6]}; S8 pre = ref::encode(a), post = ref::encode(b), s; size_t n, extra = 0;
#ifdef P_U01
      u5e::utf32ne_string src(to32(Text{a[0], v[0], b[0]})); u5e::utf8_string out; out.append_from_utf32ne<u5e::utf32ne_string>(src.codepoint_cbegin(), src.codepoint_cend()); s = out.native_string;
#else
      char buf[40]; memset(buf, 'x', sizeof buf); MutPtrIt it(buf + 4); *it = u5e::codepoint(a[0]); ++it; *it = u5e::codepoint(v[0]); ++it; *it = u5e::codepoint(b[0]); ++it;
      s.assign(buf + 4, buf + 34); while (!s.empty() && s.back() == 'x') s.pop_back(); for (int i = 0; i < 4; i++) if (buf[i] != 'x') fail("octets before the text were touched");
      if (!(it == MutPtrIt(buf + 4 + s.size()))) fail("the iterator is not after the text [%s]", ref::hex(s).c_str());
#endif
      n = s.size() - pre.size() - post.size(); (void)extra;
      if (s.size() < pre.size() + post.size() + 1 || s.compare(0, pre.size(), pre) || s.compare(s.size() - post.size(), post.size(), post)) fail("U+%04X, %08X, U+%04X is stored as [%s]", a[0], (unsigned)v[0], b[0], ref::hex(s).c_str());
      S8 m = s.substr(pre.size(), n); bool ok = n == 1 ? !(m[0] & 0x80) : announced(m[0]) == (int)n; for (size_t i = 1; i < n; i++) if (!cont(m[i])) ok = false;
      if (!ok) fail("%08X is stored as [%s], which is not one sequence", (unsigned)v[0], ref::hex(m).c_str());
      c.state(); c.step(); c.outcome(mc::hmix(n, v[1])); c.nontrivial(); },
    [](const int* v, int) { char b[40]; snprintf(b, sizeof b, "%08X, neighbours %d", (unsigned)v[0], v[1]); return S8(b); }));
#endif
  return run_harness(h, argc, argv);
}
