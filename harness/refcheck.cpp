// Reads one text per line (hex codepoints), prints its four forms and its grapheme boundaries by the reference model.
#include <cstdio>
#include <iostream>
#include <sstream>
#include "ref.hpp"
static void put(const ref::Text& t) { for (size_t i = 0; i < t.size(); i++) printf("%s%X", i ? " " : "", t[i]); }
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    std::istringstream s(l); ref::Text t; unsigned x; s >> std::hex; while (s >> x) t.push_back((int)x);
    for (int f = 0; f < 4; f++) { put(ref::nf(f, t)); printf(";"); }
    for (int b : ref::bounds(t)) printf("%d ", b);
    printf(";"); std::string e = ref::encode(t); for (unsigned char c : e) printf("%02X", c);
    printf("\n");
  }
}
