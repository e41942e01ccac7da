// Reference model: Unicode 9.0.0 as written in UAX #15 and UAX #29, over the whole text, from
// /verif/ref/unicode9.txt (never from /repo). Kept boring on purpose; shares no code with u5e.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

namespace ref {
typedef std::vector<int> Text;
enum { MAXCP = 0x110000 };
enum Gcb { OTHER, PREPEND, CR, LF, CONTROL, EXTEND, RI, SPACINGMARK, L, V, T, LV, LVT, E_BASE, E_MODIFIER, ZWJ, GAZ, EBG, NGCB };
static const char* const gcb_name[NGCB] = {"Other", "Prepend", "CR", "LF", "Control", "Extend", "Regional_Indicator", "SpacingMark", "L", "V", "T",
  "LV", "LVT", "E_Base", "E_Modifier", "ZWJ", "Glue_After_Zwj", "E_Base_GAZ"};

struct Dec { int cp; unsigned char compat; int n; int m[18]; };
struct CccRow { int cp, ccc; };
struct GcbRow { int lo, hi; int v; };
#include "ref_tables.inc"   // generated by check.py from ref/unicode9.txt: dec_rows, ccc_rows, gcb_rows, excl_rows

struct Db {
  std::vector<unsigned char> ccc, gcb;
  std::unordered_map<int, const Dec*> dec;
  std::unordered_map<uint64_t, int> comp;
  std::vector<unsigned char> first, second;   // takes part in a primary composite as first / second (Hangul excluded)
  Db() : ccc(MAXCP, 0), gcb(MAXCP, OTHER), first(MAXCP, 0), second(MAXCP, 0) {
    for (auto& r : ccc_rows) ccc[r.cp] = r.ccc;
    for (auto& r : gcb_rows) for (int c = r.lo; c <= r.hi; c++) gcb[c] = r.v;
    for (auto& r : dec_rows) dec[r.cp] = &r;
    for (auto& r : dec_rows) {
      if (r.compat || r.n != 2 || ccc[r.cp] || ccc[r.m[0]]) continue;   // singleton / non-starter decompositions are excluded
      bool x = false;
      for (int e : excl_rows) if (e == r.cp) x = true;
      if (x) continue;
      comp[(uint64_t)r.m[0] << 32 | (uint32_t)r.m[1]] = r.cp;
      first[r.m[0]] = 1; second[r.m[1]] = 1;
    }
  }
};
inline const Db& db() { static const Db& d = *new Db; return d; }   // never destroyed
inline bool in(int c) { return c >= 0 && c < MAXCP; }
inline int ccc(int c) { return in(c) ? db().ccc[c] : 0; }
inline int gcb(int c) { return in(c) ? db().gcb[c] : OTHER; }

enum { SB = 0xAC00, LB = 0x1100, VB = 0x1161, TB = 0x11A7, LC = 19, VC = 21, TC = 28, SC = LC * VC * TC };

inline void decompose(int c, bool compat, Text& out) {
  if (c >= SB && c < SB + SC) {
    int s = c - SB;
    out.push_back(LB + s / (VC * TC)); out.push_back(VB + s % (VC * TC) / TC);
    if (s % TC) out.push_back(TB + s % TC);
    return;
  }
  auto it = db().dec.find(c);
  if (it == db().dec.end() || (it->second->compat && !compat)) { out.push_back(c); return; }
  for (int i = 0; i < it->second->n; i++) decompose(it->second->m[i], compat, out);
}
inline bool compose(int a, int b, int& r) {
  if (a >= LB && a < LB + LC && b >= VB && b < VB + VC) { r = SB + ((a - LB) * VC + (b - VB)) * TC; return true; }
  if (a >= SB && a < SB + SC && (a - SB) % TC == 0 && b > TB && b < TB + TC) { r = a + (b - TB); return true; }
  if (!in(a) || !in(b) || !db().first[a] || !db().second[b]) return false;
  auto it = db().comp.find((uint64_t)a << 32 | (uint32_t)b);
  if (it == db().comp.end()) return false;
  r = it->second; return true;
}
inline void order(Text& t) {   // canonical ordering: exchange adjacent out-of-order pairs until none is left
  for (size_t i = 1; i < t.size(); i++) {
    int k = ccc(t[i]);
    if (!k) continue;
    size_t j = i; int x = t[i];
    while (j > 0 && ccc(t[j - 1]) > k) { t[j] = t[j - 1]; j--; }
    t[j] = x;
  }
}
inline Text compose_text(const Text& d) {   // D117: C composes with the last starter if not blocked (D115)
  Text o; int starter = -1;
  for (size_t i = 0; i < d.size(); i++) {
    int c = d[i], k = ccc(c), r;
    if (starter >= 0) {
      bool blocked = false;
      for (size_t j = o.size() - 1; j > (size_t)starter && !blocked; j--) if (ccc(o[j]) == 0 || ccc(o[j]) >= k) blocked = true;
      if (!blocked && compose(o[starter], c, r)) { o[starter] = r; continue; }
    }
    if (!k) starter = (int)o.size();
    o.push_back(c);
  }
  return o;
}
enum Form { NFD, NFC, NFKD, NFKC };
static const char* const form_name[4] = {"NFD", "NFC", "NFKD", "NFKC"};
inline Text nf(int form, const Text& in) {
  Text d;
  for (int c : in) decompose(c, form == NFKD || form == NFKC, d);
  order(d);
  return (form == NFC || form == NFKC) ? compose_text(d) : d;
}

// UAX #29 revision 29 (Unicode 9.0), extended grapheme clusters: is there a boundary before position i?
inline bool boundary(const Text& t, size_t i) {
  if (i == 0 || i == t.size()) return true;                                          // GB1 GB2
  int a = gcb(t[i - 1]), b = gcb(t[i]);
  if (a == CR && b == LF) return false;                                              // GB3
  if (a == CONTROL || a == CR || a == LF) return true;                               // GB4
  if (b == CONTROL || b == CR || b == LF) return true;                               // GB5
  if (a == L && (b == L || b == V || b == LV || b == LVT)) return false;             // GB6
  if ((a == LV || a == V) && (b == V || b == T)) return false;                       // GB7
  if ((a == LVT || a == T) && b == T) return false;                                  // GB8
  if (b == EXTEND || b == ZWJ) return false;                                         // GB9
  if (b == SPACINGMARK) return false;                                                // GB9a
  if (a == PREPEND) return false;                                                    // GB9b
  if (b == E_MODIFIER) {                                                             // GB10
    size_t j = i;
    while (j > 0 && gcb(t[j - 1]) == EXTEND) j--;
    if (j > 0 && (gcb(t[j - 1]) == E_BASE || gcb(t[j - 1]) == EBG)) return false;
  }
  if (a == ZWJ && (b == GAZ || b == EBG)) return false;                              // GB11
  if (a == RI && b == RI) {                                                          // GB12 GB13
    size_t j = i, n = 0;
    while (j > 0 && gcb(t[j - 1]) == RI) j--, n++;
    if (n % 2 == 1) return false;
  }
  return true;                                                                       // GB999
}
inline std::vector<int> bounds(const Text& t) {   // all boundary positions including 0 and size
  std::vector<int> r;
  for (size_t i = 0; i <= t.size(); i++) if (boundary(t, i) && (r.empty() || r.back() != (int)i)) r.push_back((int)i);
  return r;
}

// UTF-8: 1-4 octets to U+10FFFF, 4-6 octets (RFC 2279) above
inline int enc_len(uint32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6; }
inline void encode(uint32_t c, std::string& o) {
  int n = enc_len(c);
  if (n == 1) { o += (char)c; return; }
  static const unsigned char lead[7] = {0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC};
  o += (char)(lead[n] + (c >> (6 * (n - 1))));
  for (int i = n - 2; i >= 0; i--) o += (char)(0x80 + ((c >> (6 * i)) & 0x3F));
}
inline std::string encode(const Text& t) { std::string s; for (int c : t) encode(c, s); return s; }
inline std::vector<int> offsets(const Text& t) { std::vector<int> r{0}; for (int c : t) r.push_back(r.back() + enc_len(c)); return r; }

inline std::string show(const Text& t) {
  std::string s = "["; char b[16];
  for (size_t i = 0; i < t.size(); i++) { snprintf(b, sizeof b, "%s%04X", i ? " " : "", (unsigned)t[i]); s += b; }
  return s + "]";
}
inline std::string hex(const std::string& t) {
  std::string s; char b[8];
  for (unsigned char c : t) { snprintf(b, sizeof b, "%02X ", c); s += b; }
  return s;
}
}  // namespace ref
