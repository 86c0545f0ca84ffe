// P06: invoke() passes every decoded field in order, once, and returns the functor's result. (contract templates; instantiated by invoke.cpp and others)
#pragma once
#include "c_tuple.hpp"
#include "callback.hpp"
#include "iters.hpp"
#include <upd/tuple.hpp>

using namespace upd;

template<endianess E, signed_mode S, class F> struct inv;
template<endianess E, signed_mode S, class R, class... A> struct inv<E, S, R(A...)> {
  using tuple_t = tuple<E, S, spec::plain<A>...>;
  using cb = vcb::fn<0, R(A...)>;
  static const std::size_t n = cb::in;
  static const spec::endian e = spec::en<E>::v;
  static const spec::sign s = spec::sm<S>::v;
  static void done(unsigned calls, const unsigned char *now, const unsigned char *old) {
    vp_assert(vcb::ghost::total == calls, "the functor is called exactly once");
    vp_assert(vcb::ghost::ok, "argument k is the decoded value of field k");
    for (std::size_t i = 0; i < n; ++i) vp_assert(now[i] == old[i], "invoking does not modify the stored bytes");
  }
  template<class T, class F> static void once(T &t, F &&f, const unsigned char *old) {
    vcb::expect(old, e, s);
    cb::res.any("result");
    check(static_cast<vcb::result<R> *>(nullptr), t, static_cast<F &&>(f));
    done(1, t.begin(), old);
  }
  template<class Q, class T, class F> static void check(vcb::result<Q> *, T &t, F &&f) {
    Q r = t.invoke(static_cast<F &&>(f));
    vp_assert((std::is_same<decltype(t.invoke(static_cast<F &&>(f))), R>::value), "invoke has the return type of the functor");
    vp_assert(spec::wire<Q>::eq(r, cb::res.v), "invoke returns exactly the result of the functor");
  }
  template<class T, class F> static void check(vcb::result<void> *, T &t, F &&f) {
    static_assert(std::is_void<decltype(t.invoke(static_cast<F &&>(f)))>::value, "invoke has the return type of the functor");
    t.invoke(static_cast<F &&>(f));
  }
  static void run() {
    each<E, S, spec::plain<A>...>::install_get();
    unsigned char old[n + 1];
    tuple_t t;
    vp::bytes(t.begin(), n, "storage");
    for (std::size_t i = 0; i < n; ++i) old[i] = t.begin()[i];
    const tuple_t &c = t;
    once(t, cb::call, old);
    once(c, &cb::call, old);
    typename cb::ftor f{1000};
    const typename cb::ftor cf{1000};
    typename cb::mftor m{1000};
    once(c, f, old);
    once(t, cf, old);
    once(c, typename cb::ftor{1000}, old);
    once(c, m, old);
    int captured = 7;
    once(t, [&captured](A... a) -> R { ++captured; return cb::call(static_cast<A &&>(a)...); }, old);
    vp_assert(captured == 8, "a lambda is called once");
    vp_cover("invoke");
  }
  // views: raw bytes and linked list
  static void views() {
    unsigned char raw[n + 1], old[n + 1];
    vp::bytes(raw, n, "storage");
    it::list<n + 1> l;
    for (std::size_t i = 0; i < n; ++i) l.at(i) = old[i] = raw[i];
    tuple_view<byte_t *, E, S, spec::plain<A>...> v{raw};
    tuple_view<const byte_t *, E, S, spec::plain<A>...> cv{raw};
    tuple_view<it::fwd<unsigned char>, E, S, spec::plain<A>...> lv{it::fwd<unsigned char>{l.head()}};
    once(v, cb::call, old);
    once(cv, typename cb::ftor{1000}, old);
    vcb::expect(old, e, s);
    cb::res.any("result");
    check(static_cast<vcb::result<R> *>(nullptr), lv, cb::call);
    unsigned char now[n + 1];
    for (std::size_t i = 0; i < n; ++i) now[i] = l.at(i);
    done(1, now, old);
    vp_cover("invoke view");
  }
};

// reference results are passed through
template<endianess E, signed_mode S> struct refs {
  static int where[2];
  static int &pick(bool b, short) { return where[b]; }
  static const int &cpick(unsigned char b) { return where[b & 1]; }
  static void run() {
    tuple<E, S, bool, short> t;
    vp::bytes(t.begin(), t.size, "storage");
    bool b = t.template get<0>();
    int &r = t.invoke(pick);
    vp_assert(&r == &where[b], "invoke returns the very reference the functor returns");
    tuple<E, S, unsigned char> u;
    vp::bytes(u.begin(), 1, "storage");
    const int &c = u.invoke(cpick);
    vp_assert(&c == &where[u.begin()[0] & 1], "invoke returns the very reference the functor returns (const)");
    vp_cover("refs");
  }
};
template<endianess E, signed_mode S> int refs<E, S>::where[2];
