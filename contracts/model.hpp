// Independent specification of values wider than one integer: arrays, user-extended types, field lists.
// Nothing here uses Unpadded's serialization: only the integer wire specification of wire.hpp.
#pragma once
#include "wire.hpp"
#include <array>
#include <tuple>
#include <upd/format.hpp>

namespace spec {

template<upd::endianess E> struct en;
template<> struct en<upd::endianess::LITTLE> { static const endian v = LE; };
template<> struct en<upd::endianess::BIG> { static const endian v = BE; };
template<upd::signed_mode S> struct sm;
template<> struct sm<upd::signed_mode::SIGNED_MAGNITUDE> { static const sign v = SM; };
template<> struct sm<upd::signed_mode::ONES_COMPLEMENT> { static const sign v = C1; };
template<> struct sm<upd::signed_mode::TWOS_COMPLEMENT> { static const sign v = C2; };
template<> struct sm<upd::signed_mode::OFFSET_BINARY> { static const sign v = OB; };

//! What a type looks like on the wire. `n`: bytes; `any`: arbitrary value; `ok`: has an encoding; `enc`: write the
//! encoding; `den`: the value is the one denoted by the bytes; `eq`: equality; `get_t`: what reading yields
template<class T, class = void>
struct wire {
  static const std::size_t n = sizeof(T);
  using get_t = T;
  static void any(T &v, const char *name) { v = vp::any<T>(name); }
  static bool ok(const T &v, sign s) { return representable(v, s); }
  static void enc(unsigned char *p, const T &v, endian e, sign s) { encode(p, v, e, s); }
  static bool den(const T &v, const unsigned char *p, endian e, sign s) { return denotes(v, p, e, s); }
  static bool eq(const T &a, const T &b) { return pattern(a) == pattern(b); }
};

template<class T, std::size_t N>
struct wire_seq {
  static const std::size_t n = N * wire<T>::n;
  using get_t = std::array<T, N>;
  template<class A> static void any(A &v, const char *name) {
    for (std::size_t i = 0; i < N; ++i) wire<T>::any(v[i], name);
  }
  template<class A> static bool ok(const A &v, sign s) {
    bool r = true;
    for (std::size_t i = 0; i < N; ++i) r = r & wire<T>::ok(v[i], s);
    return r;
  }
  template<class A> static void enc(unsigned char *p, const A &v, endian e, sign s) {
    for (std::size_t i = 0; i < N; ++i) wire<T>::enc(p + i * wire<T>::n, v[i], e, s);
  }
  template<class A> static bool den(const A &v, const unsigned char *p, endian e, sign s) {
    bool r = true;
    for (std::size_t i = 0; i < N; ++i) r = r & wire<T>::den(v[i], p + i * wire<T>::n, e, s);
    return r;
  }
  template<class A, class B> static bool eq(const A &a, const B &b) {
    bool r = true;
    for (std::size_t i = 0; i < N; ++i) r = r & wire<T>::eq(a[i], b[i]);
    return r;
  }
};
template<class T, std::size_t N> struct wire<T[N]> : wire_seq<T, N> {};
template<class T, std::size_t N> struct wire<std::array<T, N>> : wire_seq<T, N> {};

//! A value of any field type (arrays included)
template<class T>
struct box {
  T v;
};

template<class T>
struct plain_impl {
  using type = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
};
template<class T> using plain = typename plain_impl<T>::type;

//! Sum of the sizes of the I first fields
template<std::size_t I, class... Ts> struct offset;
template<std::size_t I, class T, class... Ts> struct offset<I, T, Ts...> {
  static const std::size_t v = wire<T>::n + offset<I - 1, Ts...>::v;
};
template<class T, class... Ts> struct offset<0, T, Ts...> { static const std::size_t v = 0; };
template<> struct offset<0> { static const std::size_t v = 0; };

template<class... Ts> struct total { static const std::size_t v = offset<sizeof...(Ts), Ts...>::v; };

template<std::size_t I, class... Ts> struct nth;
template<std::size_t I, class T, class... Ts> struct nth<I, T, Ts...> : nth<I - 1, Ts...> {};
template<class T, class... Ts> struct nth<0, T, Ts...> { using type = T; };
template<std::size_t I, class... Ts> using nth_t = typename nth<I, Ts...>::type;

//! A record of field values and its packed encoding
template<class... Ts> struct rec;
template<> struct rec<> {
  void any(const char *) {}
  bool ok(sign) const { return true; }
  void enc(unsigned char *, endian, sign) const {}
  bool den(const unsigned char *, endian, sign) const { return true; }
  static const std::size_t n = 0;
};
template<class T, class... Ts> struct rec<T, Ts...> {
  T head;
  rec<Ts...> tail;
  static const std::size_t n = wire<T>::n + rec<Ts...>::n;
  void any(const char *name) { wire<T>::any(head, name); tail.any(name); }
  bool ok(sign s) const { return wire<T>::ok(head, s) & tail.ok(s); }
  void enc(unsigned char *p, endian e, sign s) const { wire<T>::enc(p, head, e, s); tail.enc(p + wire<T>::n, e, s); }
  bool den(const unsigned char *p, endian e, sign s) const {
    return wire<T>::den(head, p, e, s) & tail.den(p + wire<T>::n, e, s);
  }
};

//! rec_at<I>(r): field I of the record
template<std::size_t I> struct at_rec {
  template<class R> static auto get(R &r) -> decltype(at_rec<I - 1>::get(r.tail)) { return at_rec<I - 1>::get(r.tail); }
};
template<> struct at_rec<0> {
  template<class R> static auto get(R &r) -> decltype((r.head)) { return r.head; }
};

template<std::size_t... Is> struct seq {};
template<std::size_t N, std::size_t... Is> struct mkseq : mkseq<N - 1, N - 1, Is...> {};
template<std::size_t... Is> struct mkseq<0, Is...> { using type = seq<Is...>; };

} // namespace spec

//! Every (endianess, signed mode) pair: `M(E, S)`
#define VP_FORMATS(M)                                                                                                  \
  M(LITTLE, SIGNED_MAGNITUDE), M(LITTLE, ONES_COMPLEMENT), M(LITTLE, TWOS_COMPLEMENT), M(LITTLE, OFFSET_BINARY),       \
      M(BIG, SIGNED_MAGNITUDE), M(BIG, ONES_COMPLEMENT), M(BIG, TWOS_COMPLEMENT), M(BIG, OFFSET_BINARY)
