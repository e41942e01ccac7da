// The four ways to hold a text, with the same interface for the harnesses.
#pragma once
#include "common.hpp"
struct U8S {
  static const char* name() { return "UTF-8 string"; }
  enum { wide = 0 };
  typedef u5e::utf8_string Enc; typedef std::string Nat; typedef u5e::utf8_string_grapheme_iterator GI;
  Nat data; Enc enc;
  explicit U8S(const Text& t) : data(ref::encode(t)), enc(data) {}
  int size() const { return (int)data.size(); }
  Enc::const_iterator at(int o) { return Enc::const_iterator(enc.native_cbegin() + o); }
  static std::vector<int> offsets(const Text& t) { return ref::offsets(t); }
};
struct U8V {
  static const char* name() { return "UTF-8 view"; }
  enum { wide = 0 };
  typedef u5e::utf8_string_view Enc; typedef u8view Nat; typedef u5e::utf8_string_view_grapheme_iterator GI;
  std::string data; Enc enc;
  explicit U8V(const Text& t) : data(ref::encode(t)), enc(Nat(data.data(), data.size())) {}
  int size() const { return (int)data.size(); }
  Enc::const_iterator at(int o) { return Enc::const_iterator(enc.native_cbegin() + o); }
  static std::vector<int> offsets(const Text& t) { return ref::offsets(t); }
};
struct U32S {
  static const char* name() { return "UTF-32 string"; }
  enum { wide = 1 };
  typedef u5e::utf32ne_string Enc; typedef u32str Nat; typedef u5e::utf32ne_string_grapheme_iterator GI;
  Nat data; Enc enc;
  explicit U32S(const Text& t) : data(to32(t)), enc(data) {}
  int size() const { return (int)data.size(); }
  Enc::const_iterator at(int o) { return Enc::const_iterator(enc.native_cbegin() + o); }
  static std::vector<int> offsets(const Text& t) { std::vector<int> r; for (size_t i = 0; i <= t.size(); i++) r.push_back((int)i); return r; }
};
struct U32V {
  static const char* name() { return "UTF-32 view"; }
  enum { wide = 1 };
  typedef u5e::utf32ne_string_view Enc; typedef u32view Nat; typedef u5e::utf32ne_string_view_grapheme_iterator GI;
  u32str data; Enc enc;
  explicit U32V(const Text& t) : data(to32(t)), enc(Nat(data.data(), data.size())) {}
  int size() const { return (int)data.size(); }
  Enc::const_iterator at(int o) { return Enc::const_iterator(enc.native_cbegin() + o); }
  static std::vector<int> offsets(const Text& t) { return U32S::offsets(t); }
};
template <class It> Text between(It b, It e, size_t limit) { return walk(b, e, limit); }
template <class A, class B> bool same_units(const A& a, const B& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
