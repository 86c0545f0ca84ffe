// Contracts of user callbacks: any result, arguments checked against the bytes the caller says they come from, calls counted.
#pragma once
#include "exts.hpp"

namespace vcb {

//! Where the arguments of the next call come from
template<class Tag>
struct ghost_ {
  static const unsigned char *args;
  static spec::endian e;
  static spec::sign s;
  static unsigned total;  // calls of any callback
  static int last;        // identity of the last callback called
  static bool ok;         // every call so far got the arguments denoted by the bytes
};
template<class Tag> const unsigned char *ghost_<Tag>::args = nullptr;
template<class Tag> spec::endian ghost_<Tag>::e = spec::LE;
template<class Tag> spec::sign ghost_<Tag>::s = spec::C2;
template<class Tag> unsigned ghost_<Tag>::total = 0;
template<class Tag> int ghost_<Tag>::last = -1;
template<class Tag> bool ghost_<Tag>::ok = true;
using ghost = ghost_<void>;

inline void expect(const unsigned char *args, spec::endian e, spec::sign s) {
  ghost::args = args;
  ghost::e = e;
  ghost::s = s;
  ghost::total = 0;
  ghost::last = -1;
  ghost::ok = true;
}

template<class... A> struct match;
template<> struct match<> {
  static bool at(const unsigned char *) { return true; }
};
template<class A, class... As> struct match<A, As...> {
  template<class B, class... Bs> static bool at(const unsigned char *p, const B &a, const Bs &...as) {
    return spec::wire<spec::plain<A>>::den(a, p, ghost::e, ghost::s) & match<As...>::at(p + spec::wire<spec::plain<A>>::n, as...);
  }
};

template<class R> struct sizes { static const std::size_t out = spec::wire<spec::plain<R>>::n; };
template<> struct sizes<void> { static const std::size_t out = 0; };

//! The result the callback is going to return: any value of its return type
template<class R> struct result {
  spec::plain<R> v;
  static const std::size_t n = spec::wire<spec::plain<R>>::n;
  void any(const char *name) { spec::wire<spec::plain<R>>::any(v, name); }
  bool ok(spec::sign s) const { return spec::wire<spec::plain<R>>::ok(v, s); }
  void enc(unsigned char *p, spec::endian e, spec::sign s) const { spec::wire<spec::plain<R>>::enc(p, v, e, s); }
};
template<> struct result<void> {
  static const std::size_t n = 0;
  void any(const char *) {}
  bool ok(spec::sign) const { return true; }
  void enc(unsigned char *, spec::endian, spec::sign) const {}
};

template<int K, class F> struct fn;
template<int K, class R, class... A> struct fn<K, R(A...)> {
  using args_t = spec::rec<spec::plain<A>...>;
  static const std::size_t in = args_t::n, out = sizes<R>::out;
  static result<R> res;
  static unsigned calls;
  static void enter(const A &...a) {
    ++calls;
    ++ghost::total;
    ghost::last = K;
    ghost::ok = ghost::ok & match<A...>::at(ghost::args, a...);
  }
  static R call(A... a) {
    enter(a...);
    return ret(res);
  }
  template<class Q> static R ret(result<Q> &r) { return static_cast<R>(r.v); }
  static void ret(result<void> &) {}
  using ptr = R (*)(A...);
  using ref = R (&)(A...);
  using sig = R(A...);
  //! stateful functor forwarding to the same contract
  struct ftor {
    int state;
    R operator()(A... a) const {
      enter(a...);
      vp_assert(state == K + 1000, "a functor keeps its own state");
      return ret(res);
    }
  };
  struct mftor { // mutable state
    int state;
    R operator()(A... a) {
      enter(a...);
      vp_assert(state == K + 1000, "a functor keeps its own state");
      return ret(res);
    }
  };
  struct counting { // counts its own calls
    int n, *last;
    R operator()(A... a) {
      enter(a...);
      *last = ++n;
      return ret(res);
    }
  };
  static ftor object;
};
template<int K, class R, class... A> result<R> fn<K, R(A...)>::res;
template<int K, class R, class... A> unsigned fn<K, R(A...)>::calls = 0;
template<int K, class R, class... A> typename fn<K, R(A...)>::ftor fn<K, R(A...)>::object = {K + 1000};

} // namespace vcb
