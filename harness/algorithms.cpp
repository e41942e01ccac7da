// U08: standard library algorithms over codepoint iterators give what they give over the list of codepoints.
#include <deque>
#include <functional>
#include <memory>
#include <iterator>
#include <numeric>
#include <set>
#include "common.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;

static const int AL[] = {0x61, 0x10348, 0xE9, 0x20AC, 0x62, 0x7FF, 0x10000, 0x7F, 0x200000};
enum { NAL = sizeof AL / sizeof *AL };
typedef u5e::codepoint CP;
#define MINMAX { auto m = std::minmax_element(b, e, Less()); pos(m.first); pos(m.second); }

struct Less { bool operator()(int a, int b) const { return a < b; } };
// runs every algorithm over [b, e) and the second text [nb, ne); appends what they gave, as positions and values, to r
template <class It> static void battery(It b, It e, It nb, It ne, std::vector<int>& r) {
  auto pos = [&](It i) { int k = 0; for (It j = b; !(j == i); ++j) { if (j == e) { k = -1; break; } k++; } r.push_back(k); };
  auto val = [&](int x) { r.push_back(x); };
  auto list = [&](const std::vector<int>& v) { r.push_back((int)v.size()); r.insert(r.end(), v.begin(), v.end()); };
  bool some = !(b == e); int x = some ? (int)*b : 0x61; bool ns = !(nb == ne); int y = ns ? (int)*nb : 0x62;
  auto big = [](int c) { return c >= 0x80; };
  val((int)std::distance(b, e)); val((int)std::count(b, e, CP(y))); val((int)std::count_if(b, e, big)); pos(std::find(b, e, CP(y))); pos(std::find_if(b, e, big)); pos(std::find_if_not(b, e, big));
  pos(std::search(b, e, nb, ne)); pos(std::find_end(b, e, nb, ne)); pos(std::find_first_of(b, e, nb, ne)); pos(std::adjacent_find(b, e)); pos(std::search_n(b, e, 2, CP(y)));
  val(std::all_of(b, e, big)); val(std::any_of(b, e, big)); val(std::none_of(b, e, big)); val(std::equal(b, e, nb, ne)); val(std::equal(b, e, b)); val(std::lexicographical_compare(b, e, nb, ne)); val(std::lexicographical_compare(nb, ne, b, e));
  { auto m = std::mismatch(b, e, nb, ne); pos(m.first); int k = 0; for (It j = nb; !(j == m.second); ++j) k++; val(k); }
  val(std::is_sorted(b, e, Less())); pos(std::is_sorted_until(b, e, Less())); pos(std::max_element(b, e, Less())); pos(std::min_element(b, e, Less())); MINMAX
  val(std::is_permutation(b, e, nb, ne)); val(std::accumulate(b, e, 0, [](int a, int c) { return (int)((unsigned)a * 31 + (unsigned)c); })); val(std::is_partitioned(b, e, big));
  { std::vector<int> v(b, e); list(v); } { std::vector<CP> v(b, e); list(std::vector<int>(v.begin(), v.end())); } { std::u32string v(b, e); list(std::vector<int>(v.begin(), v.end())); } { std::multiset<int> v(b, e); list(std::vector<int>(v.begin(), v.end())); } { std::deque<int> v; v.assign(b, e); v.insert(v.begin(), b, e); list(std::vector<int>(v.begin(), v.end())); }
  { std::vector<int> v; std::copy(b, e, std::back_inserter(v)); list(v); } { std::vector<int> v; std::reverse_copy(b, e, std::back_inserter(v)); list(v); } { std::vector<int> v; std::unique_copy(b, e, std::back_inserter(v)); list(v); } { std::vector<int> v; std::remove_copy(b, e, std::back_inserter(v), CP(y)); list(v); }
  { std::vector<int> v; std::copy_if(b, e, std::back_inserter(v), big); list(v); } { std::vector<int> v; std::replace_copy(b, e, std::back_inserter(v), CP(y), CP(5)); list(v); } { std::vector<int> v; std::transform(b, e, std::back_inserter(v), [](int c) { return c + 1; }); list(v); }
  { std::vector<int> v, w; std::partition_copy(b, e, std::back_inserter(v), std::back_inserter(w), big); list(v); list(w); } { std::vector<int> v; std::for_each(b, e, [&](int c) { v.push_back(c); }); list(v); }
  { std::vector<int> v; std::merge(b, e, nb, ne, std::back_inserter(v), Less()); list(v); } { std::vector<int> v; if (std::is_sorted(b, e, Less()) && std::is_sorted(nb, ne, Less())) { std::set_union(b, e, nb, ne, std::back_inserter(v), Less()); std::set_intersection(b, e, nb, ne, std::back_inserter(v), Less()); std::set_difference(b, e, nb, ne, std::back_inserter(v), Less()); val(std::includes(b, e, nb, ne, Less())); } list(v); }
  if (std::is_sorted(b, e, Less())) { pos(std::lower_bound(b, e, CP(y), Less())); pos(std::upper_bound(b, e, CP(y), Less())); val(std::binary_search(b, e, CP(y), Less())); auto q = std::equal_range(b, e, CP(y), Less()); pos(q.first); pos(q.second); pos(std::partition_point(b, e, [&](int c) { return c < y; })); }
  { std::vector<int> v; std::partial_sum(b, e, std::back_inserter(v), [](int a, int c) { return (int)((unsigned)a + (unsigned)c); }); list(v); } { std::vector<int> v; std::adjacent_difference(b, e, std::back_inserter(v), [](int a, int c) { return a - c; }); list(v); }
  int n = (int)std::distance(b, e);
  for (int k = 0; k <= n; k++) {
    It i = std::next(b, k); pos(i); It j = std::prev(e, n - k); pos(j); val(i == j); It a = b; std::advance(a, k); pos(a); std::advance(a, -k); pos(a); val((int)std::distance(b, i)); val((int)std::distance(i, e));
    { std::vector<int> v; std::rotate_copy(b, i, e, std::back_inserter(v)); list(v); } { std::vector<int> v; std::copy_n(b, k, std::back_inserter(v)); list(v); }
    if (k < n) { val(*i); It s = i, t2 = b; std::swap(s, t2); pos(s); pos(t2); std::iter_swap(&s, &t2); pos(s); pos(t2); }
    std::reverse_iterator<It> ri(i), rb(e), re(b); std::vector<int> v(ri, re), w(rb, ri); list(v); list(w); pos(ri.base()); val((int)std::distance(ri, re));
    if (k > 0) { val(*ri); ++ri; pos(ri.base()); --ri; pos(ri.base()); }
    pos(std::find(rb, re, CP(y)).base());
  }
  (void)x;
}
static Text pick(const int* v, int n) { Text t; for (int i = 0; i < n; i++) t.push_back(AL[v[i]]); return t; }
static void differ(const char* kind, const Text& t, const Text& u, const std::vector<int>& want, const std::vector<int>& got) {
  size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
  if (i < want.size() || i < got.size()) fail("over %s with %s, %s: result %zu of the algorithms is %d instead of %d (%zu results instead of %zu)", ref::show(t).c_str(), ref::show(u).c_str(), kind, i, i < got.size() ? got[i] : -1, i < want.size() ? want[i] : -1, got.size(), want.size());
}
// algorithms that write through mutable iterators, codepoints of the length of those they replace
static const int MATE[][2] = {{0x61, 0x62}, {0x10348, 0x10000}, {0xE9, 0x7FF}, {0x20AC, 0xAC00}, {0x62, 0x7F}, {0x7FF, 0xE9}, {0x10000, 0x10348}, {0x7F, 0x61}, {0x200000, 0x3FFFFFF}};
static int mate(int c) { for (auto& m : MATE) if (m[0] == c) return m[1]; return c; }
template <class It> static void writes(Ctx& c, const Text& t, std::function<It()> b, std::function<It()> e, std::function<std::string()> content, const char* kind) {
  Text m = t; auto same = [&](const char* what) { if (content() != ref::encode(m)) fail("%s over %s, %s: the text becomes %s instead of %s", what, ref::show(t).c_str(), kind, ref::hex(content()).c_str(), ref::hex(ref::encode(m)).c_str()); c.step(); };
  if (t.empty()) return;
  std::transform(b(), e(), b(), [](int x) { return CP(mate(x)); }); std::transform(m.begin(), m.end(), m.begin(), mate); same("std::transform");
  int y = m.back(), z = mate(mate(y)) == y ? mate(y) : y; std::replace(b(), e(), CP(y), CP(z)); std::replace(m.begin(), m.end(), y, z); same("std::replace");
  std::replace_if(b(), e(), [](int x) { return x < 0x80; }, CP('q')); std::replace_if(m.begin(), m.end(), [](int x) { return x < 0x80; }, 'q'); same("std::replace_if");
  std::copy(t.begin(), t.end(), b()); m = t; same("std::copy");
  { It i = std::copy_n(t.begin(), t.size(), b()); if (!(i == e())) fail("std::copy_n returns another position than the end, %s", kind); same("std::copy_n"); }
  std::vector<int> up; for (int x : t) up.push_back(mate(x)); std::copy_backward(up.begin(), up.end(), e()); m = Text(up.begin(), up.end()); same("std::copy_backward");
  size_t k = 0; std::generate(b(), e(), [&] { return CP(t[k++]); }); m = t; same("std::generate");
  bool one = true; for (int x : t) if (ref::enc_len(x) != ref::enc_len(t[0])) one = false;
  if (one) { std::fill(b(), e(), CP(t.back())); std::fill(m.begin(), m.end(), t.back()); same("std::fill"); std::copy(t.begin(), t.end(), b()); m = t;
    for (size_t s = 1; s < t.size(); s++) { std::copy(std::next(b(), s), e(), b()); std::copy(m.begin() + s, m.end(), m.begin()); same("std::copy to the front"); std::copy(t.begin(), t.end(), b()); m = t; }
    It r = std::remove(b(), e(), CP(t[0])); auto mr = std::remove(m.begin(), m.end(), t[0]); if (std::distance(b(), r) != mr - m.begin()) fail("std::remove over %s returns position %d", ref::show(t).c_str(), (int)std::distance(b(), r)); if (!std::equal(m.begin(), mr, b())) fail("std::remove over %s leaves another text", ref::show(t).c_str()); std::copy(t.begin(), t.end(), b()); m = t;
    It u = std::unique(b(), e()); auto mu = std::unique(m.begin(), m.end()); if (std::distance(b(), u) != mu - m.begin()) fail("std::unique over %s returns position %d", ref::show(t).c_str(), (int)std::distance(b(), u)); if (!std::equal(m.begin(), mu, b())) fail("std::unique over %s leaves another text", ref::show(t).c_str()); std::copy(t.begin(), t.end(), b()); m = t; same("std::copy"); }
}
static void decide(Ctx& c, const Text& t, const Text& u) {
  std::vector<int> want, got; Text T(t), U(u); battery(T.begin(), T.end(), U.begin(), U.end(), want);
  std::string s = ref::encode(t), n = ref::encode(u);
  auto is = [&](const char* kind) { differ(kind, t, u, want, got); got.clear(); c.step(want.size()); };
  { u5e::utf8_string a(s), b(n); battery(a.codepoint_cbegin(), a.codepoint_cend(), b.codepoint_cbegin(), b.codepoint_cend(), got); is("UTF-8 string"); battery(a.codepoint_begin(), a.codepoint_end(), b.codepoint_begin(), b.codepoint_end(), got); is("UTF-8 string, mutable");
    if (a.native_string != s) fail("reading changed the text"); }
  { std::unique_ptr<char[]> p(new char[s.size()]), q(new char[n.size()]); memcpy(p.get(), s.data(), s.size()); memcpy(q.get(), n.data(), n.size()); u5e::utf8_string_view a{u8view(p.get(), s.size())}, b{u8view(q.get(), n.size())}; battery(a.codepoint_cbegin(), a.codepoint_cend(), b.codepoint_cbegin(), b.codepoint_cend(), got); is("UTF-8 view"); }
  if (t.size() < 4) { std::deque<char> p(s.begin(), s.end()), q(n.begin(), n.end()); typedef u5e::utf8_const_iterator<std::deque<char>::const_iterator> I; battery(I(p.cbegin()), I(p.cend()), I(q.cbegin()), I(q.cend()), got); is("deque"); }
  { u5e::utf32ne_string a(to32(t)), b(to32(u)); battery(a.codepoint_cbegin(), a.codepoint_cend(), b.codepoint_cbegin(), b.codepoint_cend(), got); is("UTF-32 string"); battery(a.codepoint_begin(), a.codepoint_end(), b.codepoint_begin(), b.codepoint_end(), got); is("UTF-32 string, mutable"); }
  if (u.empty()) {
    { u5e::utf8_string a(s); typedef u5e::utf8_string::iterator I; writes<I>(c, t, [&] { return a.codepoint_begin(); }, [&] { return a.codepoint_end(); }, [&] { return a.native_string; }, "UTF-8 string"); }
    { std::unique_ptr<char[]> p(new char[s.size() + 1]); memcpy(p.get(), s.data(), s.size()); typedef u5e::utf8_iterator<char*> I; writes<I>(c, t, [&] { return I(p.get()); }, [&] { return I(p.get() + s.size()); }, [&] { return std::string(p.get(), s.size()); }, "octets"); }
  }
  c.state(); c.outcome(mc::hmix(mc::hseq(t), mc::hseq(u))); if (t.size() > 1) c.nontrivial();
}
int main(int argc, char** argv) {
  mc::Harness h;
  struct L { int n, kn, m, km; };
  for (auto& l : thorough() ? std::vector<L>{{0, 9, 2, 9}, {1, 9, 2, 9}, {2, 9, 2, 9}, {3, 9, 2, 6}, {4, 6, 2, 6}, {5, 4, 1, 4}, {5, 3, 3, 3}, {6, 3, 2, 3}} : std::vector<L>{{0, 9, 2, 9}, {1, 9, 2, 9}, {2, 9, 2, 9}, {3, 9, 2, 5}, {4, 6, 2, 4}, {5, 4, 2, 3}, {6, 3, 1, 3}}) {
    uint64_t e = 1; for (int i = 0; i < l.n; i++) e *= l.kn;
    h.scopes.push_back(mc::list_scope("texts-" + std::to_string(l.n) + "-k" + std::to_string(l.kn), "all texts of " + std::to_string(l.n) + " from " + std::to_string(l.kn) + " codepoints with all second texts of up to " + std::to_string(l.m) + " from " + std::to_string(l.km) + " x 70 algorithms x 6 kinds of iterator", e,
      [l](Ctx& c, uint64_t t) {
        std::vector<int> v{l.n}; for (int i = 0; i < l.n; i++) { v.push_back(t % l.kn); t /= l.kn; }
        for (int m = 0; m <= l.m; m++) { uint64_t e = 1; for (int i = 0; i < m; i++) e *= l.km; for (uint64_t x = 0; x < e; x++) { std::vector<int> w(v); uint64_t y = x; for (int i = 0; i < m; i++) { w.push_back(y % l.km); y /= l.km; } if (!c.go(w)) return; } }
      },
      [](Ctx& c, const int* v, int n) { decide(c, pick(v + 1, v[0]), pick(v + 1 + v[0], n - 1 - v[0])); }, [](const int* v, int n) { return ref::show(pick(v + 1, v[0])) + " with " + ref::show(pick(v + 1 + v[0], n - 1 - v[0])); }));
  }
  return run_harness(h, argc, argv);
}
