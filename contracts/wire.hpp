// Independent mathematical specification of the wire format of integers.
// Everything is plain unsigned 64-bit arithmetic; nothing of Unpadded is used here.
#pragma once
#include "vp.hpp"

namespace spec {

enum endian { LE, BE };
enum sign { SM, C1, C2, OB };
using u64 = unsigned long long;

template<class T>
struct bits {
  static const unsigned n = 8 * sizeof(T);
  static u64 mask() { return n == 64 ? ~0ull : (1ull << (n % 64)) - 1; }
  static u64 top() { return 1ull << (n - 1); }
};

//! Two's complement bit pattern of a value, as produced by the language's conversion to unsigned
template<class T>
u64 pattern(T v) {
  return static_cast<u64>(v) & bits<T>::mask();
}

//! Does the value have an encoding in this signed mode?
template<class T>
bool representable(T v, sign s) {
  if (!std::is_signed<T>::value) return true;
  if (s == SM || s == C1) return pattern(v) != bits<T>::top();
  return true;
}

//! The unsigned number whose base-256 digits are the wire bytes
template<class T>
u64 number(T v, sign s) {
  u64 p = pattern(v), m = bits<T>::mask(), t = bits<T>::top();
  if (!std::is_signed<T>::value) return p;
  bool neg = (p & t) != 0;
  u64 mag = neg ? (0 - p) & m : p; // |v|
  switch (s) {
  case SM: return neg ? (mag | t) : mag;
  case C1: return neg ? (m - mag) : mag;
  case C2: return p;
  default: return (p + t) & m;
  }
}

template<class T>
unsigned char byte_at(T v, endian e, sign s, std::size_t i) {
  std::size_t k = e == LE ? i : sizeof(T) - 1 - i;
  return static_cast<unsigned char>(number(v, s) >> (8 * k) & 0xff);
}

//! Write the encoding (used on the specification side)
template<class T>
void encode(unsigned char *p, T v, endian e, sign s) {
  for (std::size_t i = 0; i < sizeof(T); ++i) p[i] = byte_at(v, e, s, i);
}

//! Two's complement pattern of the value denoted by the wire bytes
template<class T>
u64 decoded_pattern(const unsigned char *p, endian e, sign s) {
  u64 x = 0, m = bits<T>::mask(), t = bits<T>::top();
  for (std::size_t i = 0; i < sizeof(T); ++i) {
    std::size_t k = e == LE ? i : sizeof(T) - 1 - i;
    x += static_cast<u64>(p[i]) << (8 * k);
  }
  if (std::is_same<T, bool>::value) return x != 0;
  if (!std::is_signed<T>::value) return x;
  bool neg = (x & t) != 0;
  switch (s) {
  case SM: return neg ? (0 - (x - t)) & m : x;
  case C1: return neg ? (0 - (m - x)) & m : x;
  case C2: return x;
  default: return (x - t) & m;
  }
}

//! value equality through the two's complement pattern
template<class T>
bool denotes(T v, const unsigned char *p, endian e, sign s) {
  return pattern(v) == decoded_pattern<T>(p, e, s);
}

} // namespace spec
