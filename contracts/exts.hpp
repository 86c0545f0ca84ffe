// User-extended types used by the contracts, with their independent wire specification.
#pragma once
#include "model.hpp"

namespace ext {
struct small { // padded in memory (8 bytes), 5 bytes on the wire
  char a;
  int b;
};
struct wide { // 2 bytes in memory, 9 on the wire
  short x;
};
struct nested { // field of extended type
  small s;
  unsigned char c;
};
struct vec { // field of array type
  std::array<short, 3> v;
};
struct one { // 1 byte on the wire, 8 in memory
  unsigned long long w;
};
inline bool operator==(const small &l, const small &r) { return l.a == r.a && l.b == r.b; }
inline bool operator==(const wide &l, const wide &r) { return l.x == r.x; }
inline bool operator==(const nested &l, const nested &r) { return l.s == r.s && l.c == r.c; }
inline bool operator==(const one &l, const one &r) { return l.w == r.w; }
} // namespace ext

template<typename> struct upd_extension;
template<> struct upd_extension<ext::small> {
  template<class View> static void serialize(const ext::small &x, View &v) {
    v.template set<0>(x.a);
    v.template set<1>(x.b);
  }
  static ext::small unserialize(char a, int b) { return {a, b}; }
};
template<> struct upd_extension<ext::wide> {
  template<class View> static void serialize(const ext::wide &x, View &v) {
    v.template set<0>(static_cast<long long>(x.x) ^ 0x0123456789abcdefll);
    v.template set<1>(x.x < 0);
  }
  static ext::wide unserialize(long long l, bool) { return {static_cast<short>(l ^ 0x0123456789abcdefll)}; }
};
template<> struct upd_extension<ext::nested> {
  template<class View> static void serialize(const ext::nested &x, View &v) {
    v.template set<0>(x.s);
    v.template set<1>(x.c);
  }
  static ext::nested unserialize(ext::small s, unsigned char c) { return {s, c}; }
};
template<> struct upd_extension<ext::vec> {
  template<class View> static void serialize(const ext::vec &x, View &v) { v.template set<0>(x.v); }
  static ext::vec unserialize(std::array<short, 3> v) { return {v}; }
};
template<> struct upd_extension<ext::one> {
  template<class View> static void serialize(const ext::one &x, View &v) {
    v.template set<0>(static_cast<unsigned char>(x.w ^ 0x5a));
  }
  static ext::one unserialize(unsigned char c) { return {static_cast<unsigned long long>(c ^ 0x5a)}; }
};

namespace spec {
template<> struct wire<ext::small> {
  static const std::size_t n = 1 + sizeof(int);
  using get_t = ext::small;
  static void any(ext::small &v, const char *m) { v.a = vp::any<char>(m); v.b = vp::any<int>(m); }
  static bool ok(const ext::small &v, sign s) { return representable(v.a, s) & representable(v.b, s); }
  static void enc(unsigned char *p, const ext::small &v, endian e, sign s) { encode(p, v.a, e, s); encode(p + 1, v.b, e, s); }
  static bool den(const ext::small &v, const unsigned char *p, endian e, sign s) { return denotes(v.a, p, e, s) & denotes(v.b, p + 1, e, s); }
  static bool eq(const ext::small &a, const ext::small &b) { return (a.a == b.a) & (a.b == b.b); }
};
template<> struct wire<ext::wide> {
  static const std::size_t n = 9;
  using get_t = ext::wide;
  static void any(ext::wide &v, const char *m) { v.x = vp::any<short>(m); }
  static bool ok(const ext::wide &, sign) { return true; }
  static void enc(unsigned char *p, const ext::wide &v, endian e, sign s) {
    encode(p, static_cast<long long>(v.x) ^ 0x0123456789abcdefll, e, s);
    encode(p + 8, v.x < 0, e, s);
  }
  static bool den(const ext::wide &v, const unsigned char *p, endian e, sign s) {
    // what unserialize yields from the number on the wire
    long long l = static_cast<long long>(decoded_pattern<long long>(p, e, s));
    return v.x == static_cast<short>(l ^ 0x0123456789abcdefll);
  }
  static bool eq(const ext::wide &a, const ext::wide &b) { return a.x == b.x; }
};
template<> struct wire<ext::nested> {
  static const std::size_t n = 2 + sizeof(int);
  using get_t = ext::nested;
  static void any(ext::nested &v, const char *m) { wire<ext::small>::any(v.s, m); v.c = vp::any<unsigned char>(m); }
  static bool ok(const ext::nested &v, sign s) { return wire<ext::small>::ok(v.s, s); }
  static void enc(unsigned char *p, const ext::nested &v, endian e, sign s) { wire<ext::small>::enc(p, v.s, e, s); encode(p + n - 1, v.c, e, s); }
  static bool den(const ext::nested &v, const unsigned char *p, endian e, sign s) { return wire<ext::small>::den(v.s, p, e, s) & denotes(v.c, p + n - 1, e, s); }
  static bool eq(const ext::nested &a, const ext::nested &b) { return wire<ext::small>::eq(a.s, b.s) & (a.c == b.c); }
};
template<> struct wire<ext::vec> {
  using seq_t = wire<std::array<short, 3>>;
  static const std::size_t n = seq_t::n;
  using get_t = ext::vec;
  static void any(ext::vec &v, const char *m) { seq_t::any(v.v, m); }
  static bool ok(const ext::vec &v, sign s) { return seq_t::ok(v.v, s); }
  static void enc(unsigned char *p, const ext::vec &v, endian e, sign s) { seq_t::enc(p, v.v, e, s); }
  static bool den(const ext::vec &v, const unsigned char *p, endian e, sign s) { return seq_t::den(v.v, p, e, s); }
  static bool eq(const ext::vec &a, const ext::vec &b) { return seq_t::eq(a.v, b.v); }
};
template<> struct wire<ext::one> {
  static const std::size_t n = 1;
  using get_t = ext::one;
  static void any(ext::one &v, const char *m) { v.w = vp::any<unsigned char>(m); }
  static bool ok(const ext::one &, sign) { return true; }
  static void enc(unsigned char *p, const ext::one &v, endian, sign) { *p = static_cast<unsigned char>(v.w ^ 0x5a); }
  static bool den(const ext::one &v, const unsigned char *p, endian, sign) { return v.w == static_cast<unsigned char>(*p ^ 0x5a); }
  static bool eq(const ext::one &a, const ext::one &b) { return a.w == b.w; }
};
} // namespace spec
