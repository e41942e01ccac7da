// F01: filter calls the operation once per element, in order, and sums the results.
#include <forward_list>
#include <list>
#include <memory>
#include <deque>
#include "storages.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;

// ---- a range that notices any misuse. Single pass: all copies share the position, like std::istream_iterator.
struct Tape { std::vector<int> data; size_t pos = 0; size_t end() const { return data.size(); } };
struct SinglePass {
  typedef std::input_iterator_tag iterator_category; typedef int value_type; typedef long difference_type; typedef const int* pointer; typedef int reference;
  Tape* t; bool atend;
  explicit SinglePass(Tape* t_) : t(t_), atend(false) {}
  SinglePass() : t(nullptr), atend(true) {}
  bool done() const { return !t || t->pos >= t->end(); }
  int operator*() const { if (done()) fail("an element past the end of the range was read"); return t->data[t->pos]; }
  SinglePass& operator++() { if (done()) fail("the range was advanced past its end"); t->pos++; return *this; }
  struct Old { int v; int operator*() const { return v; } };
  Old operator++(int) { Old o{**this}; ++*this; return o; }
  friend bool operator==(const SinglePass& a, const SinglePass& b) { return a.done() == b.done(); }
  friend bool operator!=(const SinglePass& a, const SinglePass& b) { return !(a == b); }
};
// Multi pass and checked: knows the whole range it belongs to, refuses to be used outside [first, last)
struct Checked {
  typedef std::forward_iterator_tag iterator_category; typedef int value_type; typedef long difference_type; typedef const int* pointer; typedef const int& reference;
  const std::vector<int>* d; int p, lo, hi;
  const int& operator*() const { if (p < lo || p >= hi) fail("the element at %d was read, the range is %d to %d", p, lo, hi); return (*d)[p]; }
  Checked& operator++() { if (p < lo || p >= hi) fail("the iterator was advanced from %d, the range is %d to %d", p, lo, hi); p++; return *this; }
  Checked operator++(int) { Checked o = *this; ++*this; return o; }
  friend bool operator==(const Checked& a, const Checked& b) { return a.p == b.p; }
  friend bool operator!=(const Checked& a, const Checked& b) { return a.p != b.p; }
};

struct Boom { int at; };
// the caller's own output: can be neither copied nor moved, and records what it received
struct Log {
  std::vector<int> seen; Log() {} Log(const Log&) = delete; Log& operator=(const Log&) = delete;
};
struct Plan { const int* ret; int n; int boom; Log* self; };
static const int RV[] = {0, 1, 3, -2, 1000000};
static Plan* P;   // for plain functions
static int step(Plan& p, int v, Log& out) {
  if (&out != p.self) fail("the operation was given another output object");
  int k = (int)out.seen.size();
  if (k == p.boom) throw Boom{k};
  if (k >= p.n) fail("the operation was called %d times for %d elements", k + 1, p.n);
  out.seen.push_back(v); return p.ret[k];
}
static int plain(int v, Log& out) { return step(*P, v, out); }
struct Stateful {      // an operation with state of its own, which must be the same object from call to call
  Plan* p; int calls; explicit Stateful(Plan* p_) : p(p_), calls(0) {}
  int operator()(int v, Log& out) { if (calls != (int)out.seen.size()) fail("the state of the operation was lost between calls: %d after %zu calls", calls, out.seen.size()); int r = step(*p, v, out); calls++; return r; }
};
struct Owning {        // an operation that can be moved but not copied
  std::unique_ptr<Plan*> p; int calls; explicit Owning(Plan* p_) : p(new Plan*(p_)), calls(0) {}
  int operator()(int v, Log& out) { if (!p || calls != (int)out.seen.size()) fail("the state of the operation was lost between calls: %d after %zu calls", calls, out.seen.size()); int r = step(**p, v, out); calls++; return r; }
};
template <class It, class Op> void one(Ctx& c, const char* kind, It b, It e, Op op, Plan& p, const std::vector<int>& want) {
  Log out; p.self = &out; P = &p;
  bool threw = false; int r = 0, sum = 0; size_t upto = want.size();
  if (p.boom >= 0 && p.boom < (int)want.size()) upto = p.boom;
  for (size_t i = 0; i < want.size(); i++) sum += p.ret[i];
  try { r = u5e::filter(b, e, out, std::move(op)); } catch (Boom& x) { threw = true; if (x.at != (int)upto) fail("%s: another error than the one thrown arrived", kind); }
  std::vector<int> w(want.begin(), want.begin() + upto);
  if (out.seen != w) fail("%s: %zu elements: the operation saw %s", kind, want.size(), ref::show(out.seen).c_str());
  if (threw != (upto < want.size())) fail("%s: the error thrown by the operation at call %zu did not reach the caller", kind, upto);
  if (!threw && r != sum) fail("%s: %zu elements: returns %d, the operation returned a total of %d", kind, want.size(), r, sum);
  c.step(w.size() + 1);
}
template <class It> void all_ops(Ctx& c, const char* kind, It b, It e, Plan& p, const std::vector<int>& want) {
  one(c, kind, b, e, plain, p, want);
  one(c, kind, b, e, Stateful(&p), p, want);
  one(c, kind, b, e, Owning(&p), p, want);
  one(c, kind, b, e, [&p](int v, Log& o) { return step(p, v, o); }, p, want);
  std::function<int(int, Log&)> f = [&p](int v, Log& o) { return step(p, v, o); }; one(c, kind, b, e, f, p, want);
}
static Guard& G() { static Guard g; return g; }
// v: boom, element pattern, then one result index per element
static void ranges(Ctx& c, const int* v, int n) {
  int L = n - 2; std::vector<int> d, ret;
  for (int i = 0; i < L; i++) { ret.push_back(RV[v[2 + i]]); d.push_back(v[1] == 0 ? i + 1 : v[1] == 1 ? 7 : v[1] == 2 ? (i % 2 ? 0 : -1) : 0x10FFFF - i); }
  Plan p{ret.data(), L, v[0], nullptr};
  { Tape t; t.data = d; one(c, "single-pass range", SinglePass(&t), SinglePass(), plain, p, d); if (p.boom < 0 && t.pos != d.size()) fail("the range was not consumed"); }
  { Tape t; t.data = d; one(c, "single-pass range", SinglePass(&t), SinglePass(), Stateful(&p), p, d); t.pos = 0; one(c, "single-pass range", SinglePass(&t), SinglePass(), Owning(&p), p, d); }
  { std::vector<int> big{99}; big.insert(big.end(), d.begin(), d.end()); big.push_back(99); Checked b{&big, 1, 1, L + 1}, e{&big, L + 1, 1, L + 1}; all_ops(c, "checked range", b, e, p, d); }
  { int* q = (int*)G().right(d.data(), L * sizeof(int)); const int* cq = q; all_ops(c, "array before inaccessible memory", cq, cq + L, p, d); }
  { int* q = (int*)G().left(d.data(), L * sizeof(int)); all_ops(c, "array after inaccessible memory", q, q + L, p, d); }
  { std::list<int> l(d.begin(), d.end()); one(c, "list", l.begin(), l.end(), plain, p, d); std::forward_list<int> f(d.begin(), d.end()); one(c, "forward list", f.cbegin(), f.cend(), plain, p, d); }
  { std::vector<int> r(d.rbegin(), d.rend()); one(c, "reverse iterators", r.crbegin(), r.crend(), Stateful(&p), p, d); std::deque<int> q(d.begin(), d.end()); one(c, "deque", q.begin(), q.end(), plain, p, d); }
  c.state(); c.outcome(mc::hseq(std::vector<int>(v, v + n))); if (L > 1) c.nontrivial();
}
static std::string show_ranges(const int* v, int n) { std::string s = std::to_string(n - 2) + " elements, error at call " + std::to_string(v[0]) + ", results"; for (int i = 2; i < n; i++) s += " " + std::to_string(RV[v[i]]); return s; }

// ---- the library's own iterators: codepoints, graphemes, both directions; subranges
static const int TX[] = {'a', 0xE9, 0x301, 0x1F1E6, 0x10348, 0x0D, 0x0A};
static Text tx(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(TX[v[i]]); return t; }
template <class S> void texts(Ctx& c, const Text& t) {
  typedef typename S::Enc E; S s(t); std::vector<int> off = S::offsets(t); int n = t.size(); auto before = s.data;
  for (int a = 0; a <= n; a++) for (int b = a; b <= n; b++) for (int boom = -1; boom < b - a; boom++) {
    Text w(t.begin() + a, t.begin() + b); std::vector<int> ret; for (int i = a; i < b; i++) ret.push_back(1 + i * i);
    Plan p{ret.data(), b - a, boom, nullptr};
    one(c, S::name(), s.at(off[a]), s.at(off[b]), plain, p, w);
    std::reverse_iterator<typename E::const_iterator> rb(s.at(off[b])), re(s.at(off[a])); Text rw(w.rbegin(), w.rend());
    one(c, S::name(), rb, re, plain, p, rw);
  }
  std::vector<int> bo = ref::bounds(t); int g = (int)bo.size() - 1; if (g < 0) g = 0;
  for (int boom = -1; boom < g; boom++) {
    struct GOut { std::vector<Text> seen; GOut() {} GOut(const GOut&) = delete; } out; bool threw = false; int r = 0;
    auto op = [&](u5e::basic_grapheme<E> x, GOut& o) { if (&o != &out) fail("the operation was given another output object"); if ((int)o.seen.size() == boom) throw Boom{boom}; o.seen.push_back(walk(x.codepoint_begin(), x.codepoint_end(), t.size() + 1)); return (int)o.seen.size() * 10; };
    try { r = u5e::filter(s.enc.grapheme_begin(), s.enc.grapheme_end(), out, op); } catch (Boom&) { threw = true; }
    int upto = boom < 0 ? g : boom; std::vector<Text> w; for (int i = 0; i < upto; i++) w.push_back(Text(t.begin() + bo[i], t.begin() + bo[i + 1]));
    if (out.seen != w || threw != (boom >= 0) || (!threw && r != 5 * g * (g + 1))) fail("%s: filtering the graphemes of %s, error at %d: %zu graphemes seen, returned %d", S::name(), ref::show(t).c_str(), boom, out.seen.size(), r);
    c.step();
  }
  if (s.data != before) fail("filtering changed the text");
}
// filters inside filters, and operations that write to encoded strings
static void nested(Ctx& c, const int* v, int n) {
  std::vector<int> d(v, v + n); u5e::utf32ne_string out; int depth = 0; int want = 0; Text w;
  struct Op { std::vector<int>* d; int* depth;
    int operator()(int x, u5e::utf32ne_string& o) { o.native_string.push_back(x + 100 * *depth); int r = x; if (*depth < 2) { ++*depth; r += u5e::filter(d->begin(), d->end(), o, *this); --*depth; } return r; } } op{&d, &depth};
  int got = u5e::filter(d.begin(), d.end(), out, op);
  for (int a : d) { w.push_back(a); want += a; for (int b : d) { w.push_back(b + 100); want += b; for (int e : d) { w.push_back(e + 200); want += e; } } }
  if (got != want || from32(out.native_string) != w) fail("filters inside filters: %d instead of %d", got, want);
  c.step(w.size()); c.state(); c.outcome(mc::hseq(w)); c.nontrivial();
}

int main(int argc, char** argv) {
  mc::Harness h; int top = thorough() ? 8 : 6;
  for (int L = 0; L <= top; L++) {
    h.scopes.push_back(mc::list_scope("ranges-" + std::to_string(L), "every range of " + std::to_string(L) + " elements x 4 element patterns x every sequence of 5 results (3 from length 7 on) x no error or an error at any call x 9 kinds of iterator x up to 5 kinds of operation", 4 * (L + 1),
      [L](Ctx& c, uint64_t t) { std::vector<int> v(L + 2, 0); v[1] = t % 4; v[0] = (int)(t / 4) - 1; int k = L >= 7 ? 3 : 5; for (;;) { if (!c.go(v)) return; int i = L + 1; while (i >= 2 && ++v[i] == k) v[i--] = 0; if (i < 2) break; } }, ranges, show_ranges));
  }
  for (int L = 0; L <= (thorough() ? 6 : 5); L++) h.scopes.push_back(mc::seq_scope("texts-" + std::to_string(L), 7, L, [](Ctx& c, const int* v, int n) {
    Text t = tx(v, n); texts<U8S>(c, t); texts<U8V>(c, t); texts<U32S>(c, t); texts<U32V>(c, t); c.state(); c.outcome(mc::hseq(t)); if (n > 1) c.nontrivial(); },
    [](const int* v, int n) { return ref::show(tx(v, n)); }));
  for (int L = 0; L <= 4; L++) h.scopes.push_back(mc::seq_scope("nested-" + std::to_string(L), 5, L, nested, [](const int* v, int n) { return ref::show(Text(v, v + n)); }));
  h.scopes.push_back(mc::range_scope("lengths", 0, thorough() ? 5000 : 1500, [](Ctx& c, const int* v, int) {
    std::vector<int> d; long s = 0; for (int i = 0; i < v[0]; i++) { d.push_back(i * 7 % 1000); s += d.back() % 13; }
    std::vector<int> seen; int r = u5e::filter(d.begin(), d.end(), seen, [](int x, std::vector<int>& o) { o.push_back(x); return x % 13; });
    if (seen != d || r != s) fail("a range of %d elements: %zu calls, returned %d instead of %ld", v[0], seen.size(), r, s);
    c.step(v[0]); c.state(); c.outcome(v[0]); c.nontrivial(); }, [](const int* v, int) { return std::to_string(v[0]) + " elements"; }));
  return run_harness(h, argc, argv);
}
