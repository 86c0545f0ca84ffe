// P08: request packets; reading back responses (contract templates)
#pragma once
#include "ring.hpp"

template<class Ring, std::size_t K, class F> struct key_impl;
template<class Ring, std::size_t K, class R, class... A>
struct key_impl<Ring, K, R(A...)> {
  using key_t = typename Ring::template key_t<K>;
  using cb = typename Ring::template cb<K>;
  using index_t = typename Ring::index_t;
  using args_t = spec::rec<spec::plain<A>...>;
  static const std::size_t len = sizeof(index_t) + args_t::n;

  template<class Key, std::size_t... Is>
  static auto send(const Key &k, args_t &r, spec::seq<Is...>) -> decltype(k(spec::at_rec<Is>::get(r)...)) { return k(spec::at_rec<Is>::get(r)...); }
  static void any(args_t &r) {
    r.any("arg");
    vp_assume(r.ok(Ring::s));
  }
  static void packet_of(const args_t &r, unsigned char *want) {
    spec::encode(want, static_cast<index_t>(K), Ring::e, Ring::s);
    r.enc(want + sizeof(index_t), Ring::e, Ring::s);
  }
  static const key_t &key() { static key_t k; return k; }

  // ensures: the packet is enc(index) ++ enc(args)...
  static void packet() {
    each<Ring::en, Ring::sm, index_t, spec::plain<A>...>::install();
    args_t r;
    any(r);
    unsigned char want[len], got[len];
    packet_of(r, want);
    const key_t k{};
    vp_assert(key_t::index == K, "the index of a key is the position of its callback");
    vp_assert((std::is_same<typename key_t::index_t, index_t>::value), "index type");
    vp_assert(key_t::payload_length == len, "the advertised payload length is the length of the packet");
    std::size_t n = 0;
    ring::idst to{got, len};
    send(k, r, typename spec::mkseq<sizeof...(A)>::type{}).write_to(to);
    n = to.n;
    vp_assert(n == len, "a packet is the index and the arguments, nothing more");
    for (std::size_t i = 0; i < len; ++i) vp_assert(got[i] == want[i], "a packet is the index followed by the encoded arguments");
    auto m = send(k, r, typename spec::mkseq<sizeof...(A)>::type{});
    n = 0;
    for (std::size_t i = 0; i < len; ++i) got[i] = static_cast<unsigned char>(~want[i]);
    const auto &cm = m;
    cm >> ring::dst{got, &n, len};
    vp_assert(n == len, "operator>> outputs the whole packet");
    for (std::size_t i = 0; i < len; ++i) vp_assert(got[i] == want[i], "operator>> outputs the packet");
    vp_cover("packet");
  }

  // ensures: exactly the response bytes are read and the result is the value they denote
  template<class Q> static void read(const key_t &k, vcb::result<Q> *) {
    static const std::size_t n = vcb::result<Q>::n;
    each<Ring::en, Ring::sm, spec::plain<Q>>::install_get();
    unsigned char in[n], old[n];
    vp::bytes(in, n, "response");
    for (std::size_t i = 0; i < n; ++i) old[i] = in[i];
    std::size_t taken = 0;
    ring::isrc from{in, n};
    auto v = k.read_from(from);
    taken = from.n;
    vp_assert((std::is_same<decltype(v), spec::plain<Q>>::value), "read_from yields the return type");
    vp_assert(taken == n, "reading a response takes exactly its bytes");
    vp_assert(spec::wire<spec::plain<Q>>::den(v, old, Ring::e, Ring::s), "reading a response yields the value it encodes");
    taken = 0;
    auto w = k << ring::src{in, &taken, n};
    vp_assert(taken == n && spec::wire<spec::plain<Q>>::den(w, old, Ring::e, Ring::s), "operator<< reads the response");
  }
  static void read(const key_t &k, vcb::result<void> *) {
    unsigned char in[1];
    std::size_t taken = 0;
    k.read_from(ring::src{in, &taken, 0});
    vp_assert(taken == 0, "a void response has no byte");
  }
  static void response() {
    const key_t k{};
    read(k, static_cast<vcb::result<R> *>(nullptr));
    vp_cover("response");
  }
};
template<class Ring, class Seq> struct keys_impl;
template<class Ring, std::size_t... Ks> struct keys_impl<Ring, spec::seq<Ks...>> {
  using d = int[];
  static void packets() { (void)d{0, (key_impl<Ring, Ks, typename Ring::template sig<Ks>>::packet(), 0)...}; }
  static void responses() { (void)d{0, (key_impl<Ring, Ks, typename Ring::template sig<Ks>>::response(), 0)...}; }
};
template<class Ring> using keys = keys_impl<Ring, typename Ring::seq>;

//! Keys of any index, made without a keyring
template<upd::endianess E, upd::signed_mode S, class I> struct far {
  static const upd::endianess en = E;
  static const upd::signed_mode sm = S;
  static const spec::endian e = spec::en<E>::v;
  static const spec::sign s = spec::sm<S>::v;
  using index_t = I;
  using sig = short(unsigned char, long long, std::array<short, 2>);
  template<std::size_t K> using cb = vcb::fn<static_cast<int>(K), sig>;
  template<std::size_t K> using key_t = upd::key<I, static_cast<I>(K), sig, E, S>;
  template<std::size_t... Ks> static void packets() { int d[] = {0, (key_impl<far, Ks, sig>::packet(), 0)...}; (void)d; }
  static void bytes() { packets<0, 1, 100, 127, 128, 200, 255>(); }
  static void words() { packets<0, 1, 127, 128, 255, 256, 300, 0x1234, 0x7fff, 0x8000, 0xabcd, 0xffff>(); }
};
