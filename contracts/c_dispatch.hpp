// P09, P10, P15, P18: actions and plain dispatchers (contract templates)
#pragma once
#include "c_key.hpp"
#include <upd/dispatcher.hpp>
#include <upd/policy.hpp>

using namespace upd;

// ------------------------------------------------------------------ one action
// Obligations on any action wrapping a callback R(A...), whatever its kind
template<endianess E, signed_mode S, class F> struct act;
template<endianess E, signed_mode S, class R, class... A> struct act<E, S, R(A...)> {
  using cb = vcb::fn<0, R(A...)>;
  static const std::size_t in = cb::in, out = cb::out;
  static const spec::endian e = spec::en<E>::v;
  static const spec::sign s = spec::sm<S>::v;
  using eh = endianess_h<E>;
  using sh = signed_mode_h<S>;

  template<class Act> static void once(Act &a) {
    unsigned char req[in + 1], got[out + 1], want[out + 1];
    vp::bytes(req, in, "request");
    cb::res.any("result");
    vp_assume(cb::res.ok(s));
    cb::res.enc(want, e, s);
    vcb::expect(req, e, s);
    std::size_t taken = 0, given = 0;
    ring::isrc from{req, in}; ring::idst to{got, out};
    a(from, to);
    taken = from.n; given = to.n;
    vp_assert(vcb::ghost::total == 1, "P09 an action calls its callback exactly once");
    vp_assert(vcb::ghost::ok, "P09 the callback gets the decoded arguments in order");
    vp_assert(taken == in, "an action reads exactly the bytes of its arguments");
    vp_assert(given == out, "an action writes exactly the bytes of the result");
    for (std::size_t i = 0; i < out; ++i) vp_assert(got[i] == want[i], "P09 an action outputs the encoded result of the callback");
    vp_assert(a.input_size() == in, "P18 input_size is the number of bytes read");
    vp_assert(a.output_size() == out, "P18 output_size is the number of bytes written");
    vp_assert(a.input_size() == taken && a.output_size() == given, "P18 the advertised sizes are the transferred ones");
  }
  template<class Act> static void twice(Act &&a) {
    once(a);
    const Act &c = a;
    once(c);
  }
  // action kinds
  static void from_function() {
    twice(action{cb::call, eh{}, sh{}});
    twice(action{&cb::call, eh{}, sh{}});
    vp_cover("function");
  }
  static void from_functor() {
    twice(action{typename cb::ftor{1000}, eh{}, sh{}});
    typename cb::mftor m{1000};
    twice(action{m, eh{}, sh{}});
    const typename cb::ftor c{1000};
    twice(action{c, eh{}, sh{}});
    vp_cover("functor");
  }
  static void from_lambda() {
    int captured = 7;
    twice(action{[&captured](A... a) -> R { ++captured; return cb::call(static_cast<A &&>(a)...); }, eh{}, sh{}});
    vp_assert(captured == 9, "a lambda is called once per request");
    action a{typename cb::ftor{1000}, eh{}, sh{}};
    action b{static_cast<action &&>(a)}; // moved
    twice(static_cast<action &&>(b));
    action d;
    d = action{cb::call, eh{}, sh{}};
    twice(static_cast<action &&>(d));
    vp_cover("lambda");
  }
  static void no_storage() {
    twice(no_storage_action{unevaluated<typename cb::ptr, &cb::call>{}, eh{}, sh{}});
    no_storage_action a{unevaluated<typename cb::ptr, &cb::call>{}, eh{}, sh{}};
    no_storage_action b = a;
    twice(static_cast<no_storage_action &&>(b));
#if defined(VP_GCC) || __cplusplus < 201703L // clang 18 does not deduce template arguments of reference type from C++17 on
    twice(no_storage_action{unevaluated<typename cb::ref, cb::call>{}, eh{}, sh{}});
    twice(no_storage_action{unevaluated<typename cb::ftor &, cb::object>{}, eh{}, sh{}});
#endif
    vp_cover("no storage");
  }
  // P15: an action keeps its own copy of the functor it was made from
  static void own_copy() {
    action a, b;
    {
      typename cb::ftor f{1000};
      a = action{f, eh{}, sh{}};
      f.state = -1;
      once(a);
      typename cb::mftor g{1000};
      b = action{g, eh{}, sh{}};
      g.state = -2;
    }
    once(a);
    once(b);
    action c, d;
    int last = 0;
    {
      typename cb::ptr p = &cb::call; // a pointer is a callback as well
      c = action{p, eh{}, sh{}};
      p = nullptr;
      once(c);
      typename cb::counting n{0, &last};
      d = action{n, eh{}, sh{}};
      n.n = 50;
    }
    once(c);
    once(d);
    vp_assert(last == 1, "P15 an action calls its own copy of the functor");
    once(d);
    vp_assert(last == 2, "P15 an action keeps the state of its functor");
    vp_cover("own copy");
  }
  // hooks planned with a key are actions in the format of the key
  static void hook() {
    const key<unsigned char, 5, int(short, bool), E, S> k{};
    twice(k.with_hook(cb::call));
    twice(k.with_hook(&cb::call));
    twice(k.with_hook(typename cb::ftor{1000}));
    action a;
    {
      typename cb::mftor m{1000};
      a = k.with_hook(m);
      m.state = -1;
    }
    twice(static_cast<action &&>(a));
    vp_cover("hook");
  }
  static void static_hook() {
    const key<unsigned short, 300, void(), E, S> k{};
    auto h = k.with_hook(unevaluated<typename cb::ptr, &cb::call>{});
    vp_assert((std::is_same<decltype(h), no_storage_action>::value), "a hook with static storage duration needs no storage");
    twice(h);
#if defined(VP_GCC) || __cplusplus < 201703L
    twice(k.with_hook(unevaluated<typename cb::ref, cb::call>{}));
    twice(k.with_hook(unevaluated<typename cb::ftor &, cb::object>{}));
#endif
#if defined(VP_GCC) && __cplusplus >= 201703L
    twice(k.template with_hook<cb::call>());
    twice(k.template with_hook<cb::object>());
#endif
    vp_cover("static hook");
  }
  // only an input: the result is discarded
  static void input_only() {
    unsigned char req[in + 1];
    vp::bytes(req, in, "request");
    cb::res.any("result");
    vp_assume(cb::res.ok(s));
    vcb::expect(req, e, s);
    std::size_t taken = 0;
    action a{cb::call, eh{}, sh{}};
    a(ring::src{req, &taken, in});
    vp_assert(vcb::ghost::total == 1 && vcb::ghost::ok && taken == in, "an action called without output runs its callback once on the decoded arguments");
    vp_cover("input only");
  }
};

// an empty action does nothing
inline void empty_action() {
  vcb::expect(nullptr, spec::LE, spec::C2);
  unsigned char b[1];
  std::size_t taken = 0, given = 0;
  const action a;
  a(ring::src{b, &taken, 0}, ring::dst{b, &given, 0});
  a(ring::src{b, &taken, 0});
  action c{vcb::fn<0, int(char)>::call, endianess_h<endianess::LITTLE>{}, signed_mode_h<signed_mode::TWOS_COMPLEMENT>{}};
  action m{static_cast<action &&>(c)};
  c(ring::src{b, &taken, 0}, ring::dst{b, &given, 0});
  vp_assert(taken == 0 && given == 0 && vcb::ghost::total == 0, "an empty action reads, writes and calls nothing");
  vp_cover("empty");
}

// ------------------------------------------------------------------ dispatcher
template<class T> struct spec_arity;
template<class... T> struct spec_arity<spec::rec<T...>> { static const std::size_t v = sizeof...(T); };

template<class Ring, action_features P> struct disp_base {
  using keyring_t = typename Ring::keyring_t;
  using disp_t = dispatcher<keyring_t, P>;
  using index_t = typename Ring::index_t;
  static const std::size_t isz = sizeof(index_t);

  //! Dispatch a request for index K on arbitrary argument bytes; callback `Cb` (identity `who`) must be run
  template<std::size_t K, class Cb, class D> static void request(D &d, int who) {
    const std::size_t in = Cb::in, out = Cb::out;
    unsigned char req[isz + in], got[out + 1], want[out + 1];
    spec::encode(req, static_cast<index_t>(K), Ring::e, Ring::s);
    vp::bytes(req + isz, in, "args");
    Cb::res.any("result");
    vp_assume(Cb::res.ok(Ring::s));
    Cb::res.enc(want, Ring::e, Ring::s);
    vcb::expect(req + isz, Ring::e, Ring::s);
    std::size_t taken = 0, given = 0;
    ring::isrc from{req, isz + in}; ring::idst to{got, out};
    auto idx = d(from, to);
    taken = from.n; given = to.n;
    vp_assert((std::is_same<decltype(idx), index_t>::value), "a dispatcher returns an index");
    vp_assert(idx == K, "the dispatcher returns the index of the request");
    vp_assert(vcb::ghost::total == 1, "a request calls exactly one callback, once");
    vp_assert(vcb::ghost::last == who, "a request calls the callback of its index");
    vp_assert(vcb::ghost::ok, "the callback gets the arguments of the request");
    vp_assert(taken == isz + in, "exactly the bytes of the request are consumed");
    vp_assert(given == out, "exactly the bytes of the result are output");
    for (std::size_t i = 0; i < out; ++i) vp_assert(got[i] == want[i], "the encoded result of the callback is output");
  }
};

template<class Ring, action_features P, class Seq> struct disp_impl;
template<class Ring, action_features P, std::size_t... Ks> struct disp_impl<Ring, P, spec::seq<Ks...>> : disp_base<Ring, P> {
  using base = disp_base<Ring, P>;
  using typename base::disp_t;
  using typename base::index_t;
  using typename base::keyring_t;
  using base::isz;
  using d_ = int[];
  template<std::size_t K> using cb = typename Ring::template cb<K>;

  template<std::size_t K> static void one(disp_t &d) { base::template request<K, cb<K>>(d, K); }
  static void dispatch() {
    disp_t d{keyring_t{}, action_features_h<P>{}};
    vp_assert(disp_t::size == Ring::size, "a dispatcher has one action per callback");
    (void)d_{0, (one<Ks>(d), 0)...};
    vp_cover("dispatch");
  }
  // two requests in a row, of any two callbacks
  template<std::size_t K> static void pair(disp_t &d) { (void)d_{0, (one<K>(d), one<Ks>(d), 0)...}; }
  static void pairs() {
    auto d = make_dispatcher(keyring_t{}, action_features_h<P>{});
    vp_assert((std::is_same<decltype(d), disp_t>::value), "make_dispatcher");
    (void)d_{0, (pair<Ks>(d), 0)...};
    vp_cover("pairs");
  }
  // action lookup
  template<std::size_t K> static void look(disp_t &d) {
    unsigned char req[isz];
    spec::encode(req, static_cast<index_t>(K), Ring::e, Ring::s);
    std::size_t taken = 0;
    auto *a = d.get_action(ring::src{req, &taken, isz});
    vp_assert(a == &d[K] && taken == isz, "get_action yields the action of the received index");
    const disp_t &c = d;
    vp_assert(&c[K] == &d[K], "operator[] yields the same action on const dispatchers");
    vp_assert(d[K].input_size() == cb<K>::in && d[K].output_size() == cb<K>::out, "the stored action advertises the sizes of its callback");
    // the stored action runs that callback
    unsigned char args[cb<K>::in + 1], got[cb<K>::out + 1], want[cb<K>::out + 1];
    vp::bytes(args, cb<K>::in, "args");
    cb<K>::res.any("result");
    vp_assume(cb<K>::res.ok(Ring::s));
    cb<K>::res.enc(want, Ring::e, Ring::s);
    vcb::expect(args, Ring::e, Ring::s);
    std::size_t t = 0, g = 0;
    (*a)(ring::src{args, &t, cb<K>::in}, ring::dst{got, &g, cb<K>::out});
    vp_assert(vcb::ghost::total == 1 && vcb::ghost::last == static_cast<int>(K) && vcb::ghost::ok && t == cb<K>::in && g == cb<K>::out, "the action of an index runs its callback");
    for (std::size_t i = 0; i < g; ++i) vp_assert(got[i] == want[i], "the action of an index outputs the result");
  }
  static void lookup() {
    disp_t d;
    (void)d_{0, (look<Ks>(d), 0)...};
    vp_cover("lookup");
  }
  // get_index decodes any index, valid or not
  static void index() {
    const disp_t d{};
    unsigned char req[isz];
    vp::bytes(req, isz, "index");
    std::size_t taken = 0;
    auto i = d.get_index(ring::src{req, &taken, isz});
    vp_assert(taken == isz && spec::denotes(i, req, Ring::e, Ring::s), "get_index reads exactly the index");
    vp_cover("index");
  }
  // P10: an index not smaller than the keyring size
  static void unknown() {
    disp_t d{};
    unsigned char req[isz], b[1];
    vp::bytes(req, isz, "index");
    auto idx = static_cast<index_t>(spec::decoded_pattern<index_t>(req, Ring::e, Ring::s));
    vp_assume(idx >= Ring::size);
    vcb::expect(nullptr, Ring::e, Ring::s);
    std::size_t taken = 0, given = 0;
    auto r = d(ring::src{req, &taken, isz}, ring::dst{b, &given, 0});
    vp_assert(r == idx, "P10 the dispatcher returns the unknown index");
    vp_assert(taken == isz, "P10 only the index is read");
    vp_assert(given == 0 && vcb::ghost::total == 0, "P10 an unknown index outputs and calls nothing");
    taken = 0;
    vp_assert(d.get_action(ring::src{req, &taken, isz}) == nullptr && taken == isz, "P10 the action lookup of an unknown index is null");
    vp_assert(vcb::ghost::total == 0, "P10 the action lookup calls nothing");
    (void)d_{0, (one<Ks>(d), 0)...}; // still ready
    vp_cover("unknown");
  }
  // key -> dispatcher -> key
  template<std::size_t K, class Q> static void back(vcb::result<Q> &res, const unsigned char *b) {
    typename Ring::template key_t<K> k;
    std::size_t taken = 0;
    vp_assert(spec::wire<spec::plain<Q>>::eq(k.read_from(ring::src{b, &taken, vcb::result<Q>::n}), res.v), "the key reads back the result of the callback");
    vp_assert(taken == vcb::result<Q>::n, "the key reads back exactly the response");
  }
  template<std::size_t K> static void back(vcb::result<void> &, const unsigned char *) {}
  template<std::size_t K> static void trip(disp_t &d) {
    using ki = key_impl<Ring, K, typename Ring::template sig<K>>;
    typename ki::args_t r;
    ki::any(r);
    unsigned char pkt[ki::len], args[cb<K>::in + 1], got[cb<K>::out + 1];
    r.enc(args, Ring::e, Ring::s);
    std::size_t n = 0;
    send<ki>(r).write_to(ring::dst{pkt, &n, ki::len});
    cb<K>::res.any("result");
    vp_assume(cb<K>::res.ok(Ring::s));
    vcb::expect(args, Ring::e, Ring::s);
    std::size_t taken = 0, given = 0;
    auto idx = d(ring::src{pkt, &taken, ki::len}, ring::dst{got, &given, cb<K>::out});
    vp_assert(idx == K && vcb::ghost::total == 1 && vcb::ghost::last == static_cast<int>(K) && vcb::ghost::ok, "the callback of the key is called with the arguments given to the key");
    vp_assert(taken == n && given == cb<K>::out, "exactly the packet is consumed and the response output");
    back<K>(cb<K>::res, got);
  }
  template<class ki> static auto send(typename ki::args_t &r) -> decltype(ki::send(typename ki::key_t{}, r, typename spec::mkseq<spec_arity<typename ki::args_t>::v>::type{})) {
    return ki::send(typename ki::key_t{}, r, typename spec::mkseq<spec_arity<typename ki::args_t>::v>::type{});
  }
  static void trips() {
    disp_t d{};
    (void)d_{0, (trip<Ks>(d), 0)...};
    vp_cover("trip");
  }

  // ---------------------------------------------------------------- P15: replacement
  template<std::size_t K> using alt = vcb::fn<static_cast<int>(K) + 100, typename Ring::template sig<K>>;
  template<std::size_t I, std::size_t K> static void after(disp_t &d) {
    if (I == K) base::template request<K, alt<K>>(d, static_cast<int>(K) + 100);
    else base::template request<K, cb<K>>(d, static_cast<int>(K));
    vp_assert(d[K].input_size() == cb<K>::in && d[K].output_size() == cb<K>::out, "replacing leaves the sizes unaffected");
  }
  template<std::size_t I> static void all_after(disp_t &d) { (void)d_{0, (after<I, Ks>(d), 0)...}; }
  template<std::size_t I> static void repl_static() {
    disp_t d{};
    d.template replace<I>(unevaluated<typename alt<I>::ptr, &alt<I>::call>{});
    all_after<I>(d);
    d.template replace<I>(unevaluated<typename cb<I>::ptr, &cb<I>::call>{}); // back to the original
    (void)d_{0, (one<Ks>(d), 0)...};
#if defined(VP_GCC) || __cplusplus < 201703L
    d.template replace<I>(unevaluated<typename alt<I>::ftor &, alt<I>::object>{});
    all_after<I>(d);
    d.template replace<I>(unevaluated<typename cb<I>::ref, cb<I>::call>{});
    (void)d_{0, (one<Ks>(d), 0)...};
#endif
#if defined(VP_GCC) && __cplusplus >= 201703L
    d.template replace<I, alt<I>::call>();
    all_after<I>(d);
    d.template replace<I, cb<I>::call>();
    d.template replace<I, alt<I>::object>();
    all_after<I>(d);
#endif
  }
  static void replace_static() {
    (void)d_{0, (repl_static<Ks>(), 0)...};
    vp_cover("replace static");
  }
  template<std::size_t I> static void repl_any() {
    disp_t d{};
    d.template replace<I>(alt<I>::call);
    all_after<I>(d);
    d.template replace<I>(typename cb<I>::ftor{static_cast<int>(I) + 1000});
    (void)d_{0, (one<Ks>(d), 0)...};
    {
      typename alt<I>::ftor f{static_cast<int>(I) + 1100};
      d.template replace<I>(f);
      f.state = -1;
    }
    all_after<I>(d);
    {
      typename cb<I>::mftor f{static_cast<int>(I) + 1000};
      d.template replace<I>(f);
      f.state = -1;
    }
    (void)d_{0, (one<Ks>(d), 0)...};
    {
      const typename alt<I>::ftor f{static_cast<int>(I) + 1100};
      d.template replace<I>(f);
    }
    all_after<I>(d);
  }
  static void replace_any() {
    (void)d_{0, (repl_any<Ks>(), 0)...};
    vp_cover("replace any");
  }
  // two indices replaced
  template<std::size_t K, std::size_t N> static void both(disp_t &d) {
    if (K == 0 || K + 1 == N) base::template request<K, alt<K>>(d, static_cast<int>(K) + 100);
    else base::template request<K, cb<K>>(d, static_cast<int>(K));
  }
  static void replace_two() {
    disp_t d{};
    const std::size_t N = Ring::size;
    d.template replace<N - 1>(unevaluated<typename alt<N - 1>::ptr, &alt<N - 1>::call>{});
    d.template replace<0>(unevaluated<typename alt<0>::ptr, &alt<0>::call>{});
    (void)d_{0, (both<Ks, N>(d), 0)...};
    vp_cover("replace two");
  }
};
template<class Ring, action_features P> using disp = disp_impl<Ring, P, typename Ring::seq>;
