// A01: every memory allocation of every operation is made to fail, alone, in pairs, and from some point on.
#include <new>
#include "storages.hpp"
using mc::Ctx; using mc::Scope; using mc::fail;

// ---------------------------------------------------------------- the allocator
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); }
static struct { bool on; int n, k1, k2, from; long live; int denied; } A;
static void* get(size_t n, bool may_throw) {
  if (A.on) {
    int i = A.n++;
    if (i == A.k1 || i == A.k2 || (A.from >= 0 && i >= A.from)) { A.denied++; if (may_throw) throw std::bad_alloc(); return nullptr; }
  }
  void* p = __real_malloc(n ? n : 1); if (!p) { if (may_throw) throw std::bad_alloc(); return nullptr; }
  A.live++; return p;
}
static void put(void* p) { if (p) { A.live--; __real_free(p); } }
// the same for the C library's allocation functions, as far as they are used during an operation
static void* held_[1024]; static int nheld_;
static bool denied() { if (!A.on) return false; int i = A.n++; if (i == A.k1 || i == A.k2 || (A.from >= 0 && i >= A.from)) { A.denied++; return true; } return false; }
static void* hold(void* p) { if (A.on && p && nheld_ < 1024) { held_[nheld_++] = p; A.live++; } return p; }
static void drop(void* p) { for (int i = nheld_ - 1; i >= 0; i--) if (held_[i] == p) { held_[i] = held_[--nheld_]; A.live--; return; } }
extern "C" void* __wrap_malloc(size_t n) { return denied() ? nullptr : hold(__real_malloc(n)); }
extern "C" void* __wrap_calloc(size_t n, size_t k) { return denied() ? nullptr : hold(__real_calloc(n, k)); }
extern "C" void* __wrap_realloc(void* p, size_t n) { if (denied()) return nullptr; drop(p); return hold(__real_realloc(p, n)); }
extern "C" void __wrap_free(void* p) { if (p) drop(p); __real_free(p); }
void* operator new(size_t n) { return get(n, true); }
void* operator new[](size_t n) { return get(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, false); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

// ---------------------------------------------------------------- the operations
enum { P_NFD, P_NFC, P_NFKD, P_NFKC, P_APPEND, P_GAPPEND, P_CONVERT, P_DECOMP, P_KDECOMP, P_COPY, P_ASSIGN, NP };
static const char* const pname[] = {"form D", "form C", "form KD", "form KC", "append codepoints", "append graphemes", "append converted from UTF-32", "canonical decomposition", "compatibility decomposition", "copy and append", "assign"};
template <bool> struct Same {};
template <class In, class Out> int same_ops(int op, In& in, Out& out, Same<true>) {
  if (op == P_APPEND) { out.enc.template append<typename In::Nat>(in.enc.codepoint_cbegin(), in.enc.codepoint_cend()); return 0; }
  typename In::GI b = in.enc.grapheme_begin(), e = in.enc.grapheme_end(); out.enc.template append<typename In::Nat>(b, e); return 0;
}
template <class In, class Out> int same_ops(int, In&, Out&, Same<false>) { return 0; }
template <class In, class Out> int conv(In& in, Out& out, Same<true>) { out.enc.template append_from_utf32ne<typename In::Nat>(in.enc.codepoint_cbegin(), in.enc.codepoint_cend()); return 0; }
template <class In, class Out> int conv(In&, Out&, Same<false>) { return 0; }
template <class In, class Out> int dec(int op, In& in, Out& out, Same<true>) {
  return op == P_DECOMP ? u5e::filter(in.enc.codepoint_cbegin(), in.enc.codepoint_cend(), out.enc, u5e::canonical_decomposition<typename Out::Enc>)
                        : u5e::filter(in.enc.codepoint_cbegin(), in.enc.codepoint_cend(), out.enc, u5e::compatibility_and_canonical_decomposition<typename Out::Enc>);
}
template <class In, class Out> int dec(int, In&, Out&, Same<false>) { return 0; }
template <class In, class Out> int perform(int op, In& in, Out& out) {
  if (op < 4) {
    int n = 0; typename In::GI i = in.enc.grapheme_begin(), e = in.enc.grapheme_end();
    for (; i != e; ++i) switch (op) {
      case P_NFD: n += u5e::normalization_form_d(*i, out.enc); break;
      case P_NFC: n += u5e::normalization_form_c(*i, out.enc); break;
      case P_NFKD: n += u5e::normalization_form_kd(*i, out.enc); break;
      default: n += u5e::normalization_form_kc(*i, out.enc);
    }
    return n;
  }
  switch (op) {
    case P_APPEND: case P_GAPPEND: return same_ops(op, in, out, Same<(int)In::wide == (int)Out::wide>());
    case P_CONVERT: return conv(in, out, Same<In::wide == 1>());
    case P_DECOMP: case P_KDECOMP: return dec(op, in, out, Same<Out::wide == 1>());
    case P_COPY: { typename Out::Enc k(out.enc); k.append(out.enc.codepoint_cbegin(), out.enc.codepoint_cend()); out.enc.append(k.codepoint_cbegin(), k.codepoint_cend()); return 0; }
    default: { typename Out::Enc k; k = out.enc; k.append(out.enc.codepoint_cbegin(), out.enc.codepoint_cend()); return (int)k.native_string.size(); }
  }
}
template <class In, class Out> bool applies(int op) {
  switch (op) { case P_APPEND: case P_GAPPEND: return (int)In::wide == (int)Out::wide; case P_CONVERT: return In::wide; case P_DECOMP: case P_KDECOMP: return Out::wide; default: return true; }
}
static Text tail_text(const std::string& s) { Text t; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : c < 0xFC ? 5 : 6; if ((c & 0xC0) == 0x80 || i + n > s.size()) { t.push_back(-1); return t; } int v = n == 1 ? c : c & (0x7F >> n); for (int k = 1; k < n; k++) { if ((s[i + k] & 0xC0) != 0x80) { t.push_back(-1); return t; } v = v << 6 | (s[i + k] & 0x3F); } t.push_back(v); i += n; } return t; }
static Text tail_text(const u32str& s) { return from32(s); }

struct Outcome { bool threw; int ret; };
template <class In, class Out> Outcome attempt(int op, In& in, Out& out, int k1, int k2, int from) {
  Outcome o{false, 0};
  A.n = 0; A.k1 = k1; A.k2 = k2; A.from = from; A.denied = 0; A.on = true;
  try { o.ret = perform(op, in, out); A.on = false; }
  catch (std::bad_alloc&) { A.on = false; o.threw = true; }
  catch (...) { A.on = false; fail("%s: another exception than std::bad_alloc reaches the caller", pname[op]); }
  return o;
}
template <class In, class Out> void explore(Ctx& c, int op, const Text& t, const Text& pre) {
  if (!applies<In, Out>(op)) return;
  In in(t); typename In::Nat before = in.enc.native_string; auto kept = in.data;
  typename Out::Nat want, start; int ret, allocs;
  { Out out(pre); start = out.enc.native_string; Outcome o = attempt(op, in, out, -1, -1, -1); if (o.threw) fail("%s: fails although memory is available", pname[op]); want = out.enc.native_string; ret = o.ret; allocs = A.n; }
  auto once = [&](int k1, int k2, int from) {
    long base = A.live;
    {
      Out out(pre); out.enc.native_string.shrink_to_fit();
      Outcome o = attempt(op, in, out, k1, k2, from); std::string when; 
      auto desc = [&] { char b[120]; snprintf(b, sizeof b, "%s of %s (%s into %s holding %zu units), allocation %d%s of %d denied", pname[op], ref::show(t).c_str(), In::name(), Out::name(), (size_t)start.size(), k1 >= 0 ? k1 : from, from >= 0 ? " and all later ones" : k2 >= 0 ? " and another" : "", allocs); return std::string(b); };
      const auto& got = out.enc.native_string;
      if (!o.threw) {
        if (got != want || o.ret != ret) fail("%s: the call succeeds with a wrong result", desc().c_str());
      } else {
        if (!A.denied) fail("%s: std::bad_alloc although nothing was denied", desc().c_str());
        if (got.compare(0, start.size(), start)) fail("%s: the previous content of the output is lost", desc().c_str());
        auto rest = got.substr(start.size()), full = want.substr(start.size());
        if (rest.size() > full.size() || full.compare(0, rest.size(), rest)) fail("%s: the output holds something else than a prefix of the result", desc().c_str());
        Text w = tail_text(full), r = tail_text(rest); if (r.size() > w.size() || !std::equal(r.begin(), r.end(), w.begin())) fail("%s: the output ends inside a codepoint", desc().c_str());
        c.nontrivial();
      }
      if (in.enc.native_string.size() != before.size() || !std::equal(before.begin(), before.end(), in.enc.native_string.begin()) || in.data != kept) fail("%s: the input was changed", desc().c_str());
      c.outcome(mc::hmix(op * 4 + o.threw, got.size() - start.size()));
      c.step();
    }
    if (A.live != base) fail("%s of %s: %ld allocations are leaked when allocation %d of %d is denied", pname[op], ref::show(t).c_str(), A.live - base, k1 >= 0 ? k1 : from, allocs);
    // afterwards the library works again
    { Out out(pre); Outcome o = attempt(op, in, out, -1, -1, -1); if (o.threw || out.enc.native_string != want || o.ret != ret) fail("%s of %s: after a failed call the same call on a fresh output gives another result", pname[op], ref::show(t).c_str()); }
    c.state();
  };
  once(-1, -1, -1);
  for (int k = 0; k < allocs; k++) { once(k, -1, -1); once(-1, -1, k); }
  int span = allocs <= 40 || thorough() ? allocs : 40;
  for (int k = 0; k < span; k++) for (int j = k + 1; j < allocs; j++) once(k, j, -1);
}
static void all(Ctx& c, int op, const Text& t, const Text& pre) {
  explore<U8S, U8S>(c, op, t, pre); explore<U8V, U8S>(c, op, t, pre); explore<U32S, U8S>(c, op, t, pre); explore<U32V, U8S>(c, op, t, pre);
  explore<U8S, U32S>(c, op, t, pre); explore<U8V, U32S>(c, op, t, pre); explore<U32S, U32S>(c, op, t, pre); explore<U32V, U32S>(c, op, t, pre);
}
static const int AL[] = {0x61, 0x301, 0x323, 0xAC01, 0xFDFA, 0x1E69, 0x10348, 0x1F82, 0x1100, 0x1161};
enum { NAL = sizeof AL / sizeof *AL };
static const Text PRE[] = {{}, {0x10FFFF}, Text(3, 'q'), Text(15, 'q'), Text(16, 0x10348)};
enum { NPRE = sizeof PRE / sizeof *PRE };

int main(int argc, char** argv) {
  mc::Harness h;
  for (int L = 0; L <= (thorough() ? 4 : 3); L++) {
    int k = L <= 3 ? NAL : 6;
    h.scopes.push_back(mc::list_scope("texts-" + std::to_string(L), "every operation x 8 pairs of storages x every text of " + std::to_string(L) + " from " + std::to_string(k) + " codepoints x " + std::to_string(NPRE) + " previous contents x (each allocation, each pair, each suffix of the allocations denied)", NP * NPRE,
      [L, k](Ctx& c, uint64_t t) { std::vector<int> v(L + 2, 0); v[0] = t % NP; v[1] = t / NP; for (;;) { if (!c.go(v)) return; int i = L + 1; while (i >= 2 && ++v[i] == k) v[i--] = 0; if (i < 2) break; } },
      [](Ctx& c, const int* v, int n) { Text t; for (int i = 2; i < n; i++) t.push_back(AL[v[i]]); all(c, v[0], t, PRE[v[1]]); },
      [](const int* v, int n) { Text t; for (int i = 2; i < n; i++) t.push_back(AL[v[i]]); return std::string(pname[v[0]]) + " of " + ref::show(t) + " after " + std::to_string(PRE[v[1]].size()) + " codepoints"; }));
  }
  // longer graphemes and texts: many allocations in one call
  h.scopes.push_back(mc::list_scope("long", "every operation x 8 pairs of storages x texts of 4 to 40 codepoints (thorough: 100) in 5 patterns x 2 previous contents x (each allocation, each pair, each suffix denied)", NP * 5 * 2,
    [](Ctx& c, uint64_t t) { for (int n = 4; n <= (thorough() ? 100 : 40); n += 3) { int v[4] = {(int)(t % NP), (int)(t / NP % 5), (int)(t / NP / 5), n}; if (!c.go(v, 4)) return; } },
    [](Ctx& c, const int* v, int) { static const int P[5][4] = {{0x61, 0x62, 0x20AC, 0x64}, {0x301, 0x323, 0x327, 0x315}, {0xFDFA, 0x301, 0xAC01, 0x344}, {0x1100, 0x1161, 0x11A8, 0x1D15F}, {0x61, 0x301, 0x10FFFF, 0x1E69}};
      Text t{0x65}; for (int i = 0; i < v[3]; i++) t.push_back(P[v[1]][(i * 3 + i / 4) % 4]); all(c, v[0], t, v[2] ? PRE[1] : PRE[0]); },
    [](const int* v, int) { return std::string(pname[v[0]]) + " of " + std::to_string(v[3]) + " codepoints, pattern " + std::to_string(v[1]); }));
  return run_harness(h, argc, argv);
}
