// Keyrings of callbacks under contract.
#pragma once
#include "c_tuple.hpp"
#include "callback.hpp"
#include <upd/keyring.hpp>

namespace ring {

using namespace upd;

template<endianess E, signed_mode S, class Seq, class... Fs> struct impl;
template<endianess E, signed_mode S, std::size_t... Ks, class... Fs>
struct impl<E, S, spec::seq<Ks...>, Fs...> {
  static const endianess en = E;
  static const signed_mode sm = S;
  static const spec::endian e = spec::en<E>::v;
  static const spec::sign s = spec::sm<S>::v;
  static const std::size_t size = sizeof...(Fs);
  using seq = spec::seq<Ks...>;
  template<std::size_t K> using sig = spec::nth_t<K, Fs...>;
  template<std::size_t K> using cb = vcb::fn<static_cast<int>(K), spec::nth_t<K, Fs...>>;
  template<std::size_t K> using h = unevaluated<typename cb<K>::ptr, &cb<K>::call>;
  using keyring_t = keyring<E, S, h<Ks>...>;
  // independent of the library: 1 byte up to 255 callbacks, 2 bytes from 256
  using index_t = typename std::conditional<(size < 256), std::uint8_t, std::uint16_t>::type;
  template<std::size_t K> using key_t = typename keyring_t::template key_t<h<K>>;

  static const std::size_t none = 0;
  //! Largest number of argument / result bytes of any callback
  static constexpr std::size_t mx(std::size_t a) { return a; }
  template<class... T> static constexpr std::size_t mx(std::size_t a, std::size_t b, T... t) { return mx(a > b ? a : b, t...); }
  static const std::size_t max_in = mx(cb<Ks>::in...), max_out = mx(cb<Ks>::out...);
};

template<endianess E, signed_mode S, class... Fs>
using of = impl<E, S, typename spec::mkseq<sizeof...(Fs)>::type, Fs...>;

//! N callbacks: the N - 3 first are `void()`-like, the last ones have arguments and results
template<std::size_t K> struct filler { using type = typename std::conditional<K % 3 == 0, void(), typename std::conditional<K % 3 == 1, char(short), void(unsigned char, int)>::type>::type; };
template<endianess E, signed_mode S, class Seq> struct big_impl;
template<endianess E, signed_mode S, std::size_t... Ks> struct big_impl<E, S, spec::seq<Ks...>> { using type = impl<E, S, spec::seq<Ks...>, typename filler<Ks>::type...>; };
template<endianess E, signed_mode S, std::size_t N> using big = typename big_impl<E, S, typename spec::mkseq<N>::type>::type;

//! Byte sources and sinks used as functors
struct src {
  const unsigned char *b;
  std::size_t *taken, size;
  unsigned char operator()() const {
    vp_assert(*taken < size, "no byte is read beyond the needed ones");
    return b[(*taken)++];
  }
};
struct dst {
  unsigned char *b;
  std::size_t *given, size;
  void operator()(unsigned char x) const {
    vp_assert(*given < size, "no byte is written beyond the needed ones");
    b[(*given)++] = x;
  }
};

// the same, passed as lvalues: the position is in the functor, so that a copy of it would go unnoticed by the caller
struct isrc {
  const unsigned char *b;
  std::size_t size, n;
  isrc(const unsigned char *b, std::size_t size) : b{b}, size{size}, n{0} {}
  unsigned char operator()() {
    vp_assert(n < size, "no byte is read beyond the needed ones");
    return b[n++];
  }
};
struct idst {
  unsigned char *b;
  std::size_t size, n;
  idst(unsigned char *b, std::size_t size) : b{b}, size{size}, n{0} {}
  void operator()(unsigned char x) {
    vp_assert(n < size, "no byte is written beyond the needed ones");
    b[n++] = x;
  }
};

// field lists and signatures used over and over
using SA = std::array<short, 2>;
using A3 = int[3];
using C4 = char[4];
using NA = std::array<ext::nested, 2>;
using WA = std::array<ext::wide, 2>;
using LA4 = std::array<long long, 4>;
using B40 = std::array<unsigned char, 40>;
using EC2 = ext::small[2];

template<endianess E, signed_mode S> using basic = of<E, S, int(int), void(unsigned char), short(short, unsigned char, long long), void(), bool()>;
template<endianess E, signed_mode S> using arrays = of<E, S, SA(const A3 &, short), void(const SA &, const C4 &), B40(unsigned short), unsigned long long(bool, signed char, const int &)>;
template<endianess E, signed_mode S> using exts = of<E, S, ext::wide(ext::small, const ext::nested &), void(const EC2 &, ext::one), NA(short), ext::one(WA, char), ext::vec()>;
template<endianess E, signed_mode S> using only = of<E, S, void()>;
template<endianess E, signed_mode S> using resp = of<E, S, LA4(), void(char), short()>;   // responses larger than requests
template<endianess E, signed_mode S> using reqs = of<E, S, void(LA4), char(long long)>;   // requests larger than responses
template<endianess E, signed_mode S> using mute = of<E, S, void(), void()>;               // nothing in, nothing out
using SSA = std::array<std::array<short, 2>, 3>;
// many arguments, every kind of integer
template<endianess E, signed_mode S> using many = of<E, S, long(signed char, unsigned short, int, long long, bool, char, unsigned, const SA &, short), SSA(const SSA &, bool), char16_t(char32_t, wchar_t, char16_t, unsigned long, long, unsigned long long)>;
template<endianess E, signed_mode S> using two56 = big<E, S, 256>;
template<endianess E, signed_mode S> using two57 = big<E, S, 257>;
template<endianess E, signed_mode S> using two55 = big<E, S, 255>;

} // namespace ring
