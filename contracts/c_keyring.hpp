// P17: numbering of keys, width of the index, routing (contract templates)
#pragma once
#include "c_dispatch.hpp"

template<class Ring, class Seq> struct kr_impl;
template<class Ring, std::size_t... Ks> struct kr_impl<Ring, spec::seq<Ks...>> {
  using keyring_t = typename Ring::keyring_t;
  using index_t = typename Ring::index_t;
  using d_ = int[];

  template<std::size_t K> static void key() {
    using key_t = typename Ring::template key_t<K>;
    vp_assert((std::is_same<typename key_t::index_t, index_t>::value), "the keys use the index type of the keyring");
    vp_assert((std::is_same<typename key_t::signature_t, typename Ring::template sig<K>>::value), "the k-th key has the signature of the k-th callback");
    vp_assert((std::is_same<decltype(keyring_t{}.get(typename Ring::template h<K>{})), key_t>::value), "get() yields the key");
    vp_assert(key_t::index == K, "the key of the k-th callback has index k");
    vp_assert(key_t::payload_length == sizeof(index_t) + Ring::template cb<K>::in, "the payload is the index and the arguments");
    vp_assert(key_t::endianess == Ring::en && key_t::signed_mode == Ring::sm, "the keys use the format of the keyring");
  }
  static void keys() {
    vp_assert((std::is_same<typename keyring_t::index_t, index_t>::value), "the index type is the smallest sufficient one");
    vp_assert((std::is_same<typename upd::dispatcher<keyring_t, upd::action_features::WEAK_REFERENCE>::index_t, index_t>::value), "the dispatchers use the index type of the keyring");
    vp_assert(keyring_t::size == Ring::size, "size is the number of callbacks");
    (void)d_{0, (key<Ks>(), 0)...};
    vp_cover("keys");
  }
  // keyrings made by the factory functions
  static void made() {
    auto k = upd::make_keyring(upd::flist_t<typename Ring::template h<Ks>...>{}, upd::endianess_h<Ring::en>{}, upd::signed_mode_h<Ring::sm>{});
    vp_assert((std::is_same<decltype(k), keyring_t>::value), "make_keyring");
#if __cplusplus >= 201703L
    upd::keyring c{upd::flist_t<typename Ring::template h<Ks>...>{}, upd::endianess_h<Ring::en>{}, upd::signed_mode_h<Ring::sm>{}};
    vp_assert((std::is_same<decltype(c), keyring_t>::value), "class template argument deduction");
    vp_assert((std::is_same<decltype(c.template get<Ring::template cb<0>::call>()), typename Ring::template key_t<0>>::value), "get<f>()");
    vp_assert((std::is_same<decltype(c.template get<Ring::template cb<Ring::size - 1>::call>()), typename Ring::template key_t<Ring::size - 1>>::value), "get<f>()");
#endif
    vp_assert(decltype(k)::size == Ring::size, "size of a made keyring");
    vp_cover("made");
  }
};
template<class Ring> using kr = kr_impl<Ring, typename Ring::seq>;

//! packets and routing for chosen indices of a large keyring
template<class Ring, std::size_t... Ks> struct sample {
  using d_ = int[];
  static void packets() {
    (void)d_{0, (key_impl<Ring, Ks, typename Ring::template sig<Ks>>::packet(), 0)...};
    vp_cover("packets");
  }
  template<upd::action_features P> static void routes() {
    using base = disp_base<Ring, P>;
    using disp_t = typename base::disp_t;
    disp_t d;
    (void)d_{0, (base::template request<Ks, typename Ring::template cb<Ks>>(d, static_cast<int>(Ks)), 0)...};
    vp_cover("routes");
  }
  template<upd::action_features P> static void unknown() {
    using base = disp_base<Ring, P>;
    using index_t = typename Ring::index_t;
    typename base::disp_t d{};
    unsigned char req[base::isz], b[1];
    vp::bytes(req, base::isz, "index");
    auto idx = static_cast<index_t>(spec::decoded_pattern<index_t>(req, Ring::e, Ring::s));
    vp_assume(idx >= Ring::size);
    vcb::expect(nullptr, Ring::e, Ring::s);
    std::size_t taken = 0, given = 0;
    auto r = d(ring::src{req, &taken, base::isz}, ring::dst{b, &given, 0});
    vp_assert(r == idx && taken == base::isz && given == 0 && vcb::ghost::total == 0, "P10 an unknown index is returned; nothing is called or output");
    taken = 0;
    vp_assert(d.get_action(ring::src{req, &taken, base::isz}) == nullptr && taken == base::isz, "P10 the action lookup of an unknown index is null");
    (void)d_{0, (base::template request<Ks, typename Ring::template cb<Ks>>(d, static_cast<int>(Ks)), 0)...};
    vp_cover("unknown");
  }
  //! get_action of any valid index is the action of that index, for every index at once
  template<upd::action_features P> static void lookup() {
    using base = disp_base<Ring, P>;
    using index_t = typename Ring::index_t;
    typename base::disp_t d{};
    unsigned char req[base::isz];
    vp::bytes(req, base::isz, "index");
    auto idx = static_cast<index_t>(spec::decoded_pattern<index_t>(req, Ring::e, Ring::s));
    std::size_t taken = 0;
    auto *a = d.get_action(ring::src{req, &taken, base::isz});
    vp_assert(taken == base::isz, "the lookup reads exactly the index");
    vp_assert((a != nullptr) == (idx < Ring::size), "every valid index has an action and only them");
    vp_assert(idx >= Ring::size || a == &d[0] + idx, "the action of index k is the k-th");
    vp_cover("lookup");
  }
};
