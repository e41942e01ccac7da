// Shared by the harnesses: the library's public headers, the reference model, guarded memory.
#pragma once
#include <cstdlib>
#include <experimental/string_view>
#include <iterator>
#include <string>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/canonical_combining_order.hpp>
#include <u5e/canonical_composition.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include "mc.hpp"
#include "ref.hpp"

typedef std::experimental::string_view u8view;
typedef std::experimental::basic_string_view<int> u32view;
typedef std::basic_string<int> u32str;
using ref::Text;

inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }

inline u32str to32(const Text& t) { return u32str(t.begin(), t.end()); }
inline Text from32(const u32str& s) { return Text(s.begin(), s.end()); }

// reads back by walking forward at most n codepoints (so that a runaway loop is a finding, not a hang)
template <class It> Text walk(It b, It e, size_t limit) {
  Text t;
  while (b != e) {
    if (t.size() > limit) mc::fail("walking did not stop after %zu codepoints", limit);
    int v = *b; t.push_back(v); ++b;
  }
  return t;
}

// One run of `size` usable octets with an inaccessible page on either side.
struct Guard {
  enum { PAGE = 4096, PAGES = 4 };
  char* base;
  Guard() {
    base = (char*)mmap(nullptr, PAGE * (PAGES + 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); _exit(3); }
    mprotect(base, PAGE, PROT_NONE); mprotect(base + PAGE * (PAGES + 1), PAGE, PROT_NONE);
  }
  char* lo() { return base + PAGE; }
  char* hi() { return base + PAGE * (PAGES + 1); }
  // content flush against the page that follows / precedes
  char* right(const void* p, size_t n) { char* d = hi() - n; memcpy(d, p, n); return d; }
  char* left(const void* p, size_t n) { memcpy(lo(), p, n); return lo(); }
};

inline std::string show_text(const Text& t) { return ref::show(t); }
inline int run_harness(mc::Harness& h, int argc, char** argv) { ref::db(); return mc::run_main(h, argc, argv); }
