// P05: views alias exactly the bytes they are bound to. (contract templates; instantiated by view.cpp and others)
#pragma once
#include "exts.hpp"
#include "iters.hpp"
#include <upd/tuple.hpp>

using namespace upd;

// ---- one field of a view over [base, base + total): Mem gives the container, the iterator and byte access
template<std::size_t N> struct raw_mem { // a slice of a larger raw buffer
  unsigned char b[N + 4];
  using iter = byte_t *;
  using citer = const byte_t *;
  iter first() { return b + 2; }
  citer cfirst() const { return b + 2; }
  unsigned char &at(std::size_t i) { return b[2 + i]; }
  unsigned char &guard(std::size_t i) { return i < 2 ? b[i] : b[N + i]; }
  bool is(const byte_t *p, std::size_t i) { return p == b + 2 + i; }
};
template<std::size_t N> struct list_mem { // a part of a longer linked list
  it::list<N + 4> l;
  using iter = it::fwd<unsigned char>;
  using citer = it::fwd<const unsigned char>;
  it::node *nth(std::size_t i) { it::node *p = l.head(); for (; i > 0; --i) p = p->next; return p; }
  iter first() { return iter{nth(2)}; }
  citer cfirst() { return citer{nth(2)}; }
  unsigned char &at(std::size_t i) { return l.at(2 + i); }
  unsigned char &guard(std::size_t i) { return i < 2 ? l.at(i) : l.at(N + i); }
  template<class It> bool is(const It &x, std::size_t i) { return x.p == nth(2 + i); }
};
template<std::size_t N> struct rev_mem { // a buffer gone through backwards
  unsigned char b[N + 4];
  using iter = std::reverse_iterator<unsigned char *>;
  using citer = std::reverse_iterator<const unsigned char *>;
  iter first() { return iter(b + N + 2); }
  citer cfirst() { return citer(b + N + 2); }
  unsigned char &at(std::size_t i) { return b[N + 1 - i]; }
  unsigned char &guard(std::size_t i) { return i < 2 ? b[N + 3 - i] : b[3 - i]; }
  template<class It> bool is(const It &x, std::size_t i) { return x.base() == b + N + 2 - i; }
};

template<template<std::size_t> class Mem, endianess E, signed_mode S, class Seq, class... Ts> struct views;
template<template<std::size_t> class Mem, endianess E, signed_mode S, std::size_t... Is, class... Ts>
struct views<Mem, E, S, spec::seq<Is...>, Ts...> {
  static const std::size_t total = spec::total<Ts...>::v;
  using mem_t = Mem<total>;
  using view_t = tuple_view<typename mem_t::iter, E, S, Ts...>;
  using cview_t = tuple_view<typename mem_t::citer, E, S, Ts...>;
  using d = int[];
  static const spec::endian e = spec::en<E>::v;
  static const spec::sign s = spec::sm<S>::v;

  static void havoc(mem_t &m) {
    for (std::size_t i = 0; i < 4; ++i) vp::bytes(&m.guard(i), 1, "guard");
    for (std::size_t i = 0; i < total; ++i) vp::bytes(&m.at(i), 1, "mem");
  }
  static void bound() {
    mem_t m;
    havoc(m);
    view_t v{m.first()};
    vp_assert(view_t::size == total && cview_t::size == total, "a view spans the sum of the sizes of its fields");
    vp_assert(m.is(v.begin(), 0) && m.is(v.end(), total) && m.is(v.src(), 0), "a view is bound to the range it was given");
    auto w = make_view<Ts...>(endianess_h<E>{}, signed_mode_h<S>{}, m.first());
    vp_assert((std::is_same<decltype(w), view_t>::value), "make_view makes a view of the given fields");
    vp_assert(m.is(w.begin(), 0) && m.is(w.end(), total), "make_view is bound to the range it was given");
    vp_assert(std::tuple_size<view_t>::value == sizeof...(Ts), "tuple_size of a view");
    vp_cover("bound");
  }
  // set<I>: assigns exactly the bytes of field I of the underlying range
  template<std::size_t I, bool Free> static void set_one() {
    using T = spec::nth_t<I, Ts...>;
    using W = spec::wire<T>;
    const std::size_t off = spec::offset<I, Ts...>::v;
    mem_t m;
    havoc(m);
    unsigned char want[total], g[4];
    for (std::size_t i = 0; i < total; ++i) want[i] = m.at(i);
    for (std::size_t i = 0; i < 4; ++i) g[i] = m.guard(i);
    spec::box<T> b;
    W::any(b.v, "v");
    vp_assume(W::ok(b.v, s));
    W::enc(want + off, b.v, e, s);
    view_t v{m.first()};
    if (Free) upd::set<I>(v, b.v);
    else v.template set<I>(b.v);
    for (std::size_t i = 0; i < total; ++i) {
      if (i >= off && i < off + W::n) vp_assert(m.at(i) == want[i], "set through a view is visible in the underlying bytes");
      else vp_assert(m.at(i) == want[i], "set through a view leaves the other fields unchanged");
    }
    for (std::size_t i = 0; i < 4; ++i) vp_assert(m.guard(i) == g[i], "nothing outside the range of the view changes");
    vp_assert(W::eq(v.template get<I>(), b.v), "get through the view returns what was set");
    vp_cover("set");
  }
  static void sets() { (void)d{0, (set_one<Is, false>(), 0)...}; }
  static void free_sets() { (void)d{0, (set_one<Is, true>(), 0)...}; }
  // get<I>: decodes the current bytes of the range, now and after any later change; assigns nothing
  template<std::size_t I> static void get_one() {
    using T = spec::nth_t<I, Ts...>;
    using W = spec::wire<T>;
    const std::size_t off = spec::offset<I, Ts...>::v;
    mem_t m;
    havoc(m);
    const view_t v{m.first()};
    const cview_t c{m.cfirst()};
    for (int round = 0; round < 2; ++round) {
      unsigned char old[total], g[4];
      for (std::size_t i = 0; i < total; ++i) old[i] = m.at(i);
      for (std::size_t i = 0; i < 4; ++i) g[i] = m.guard(i);
      vp_assert(W::den(v.template get<I>(), old + off, e, s), "get through a view decodes the underlying bytes");
      vp_assert(W::den(c.template get<I>(), old + off, e, s), "get through a view of const bytes decodes the underlying bytes");
      vp_assert(W::den(upd::get<I>(v), old + off, e, s), "free get through a view decodes the underlying bytes");
      for (std::size_t i = 0; i < total; ++i) vp_assert(m.at(i) == old[i], "get through a view modifies nothing");
      for (std::size_t i = 0; i < 4; ++i) vp_assert(m.guard(i) == g[i], "get through a view modifies nothing outside");
      havoc(m); // the underlying bytes change behind the view
    }
    vp_cover("get");
  }
  static void gets() { (void)d{0, (get_one<Is>(), 0)...}; }
  // assignment of a tuple to the view
  static void assign() {
    mem_t m;
    havoc(m);
    unsigned char g[4], want[total];
    for (std::size_t i = 0; i < 4; ++i) g[i] = m.guard(i);
    spec::rec<Ts...> r;
    r.any("v");
    vp_assume(r.ok(s));
    r.enc(want, e, s);
    view_t v{m.first()};
    v = tuple<E, S, Ts...>{spec::at_rec<Is>::get(r)...};
    for (std::size_t i = 0; i < total; ++i) vp_assert(m.at(i) == want[i], "assigning to a view sets every field of the underlying bytes");
    for (std::size_t i = 0; i < 4; ++i) vp_assert(m.guard(i) == g[i], "assigning to a view changes nothing outside");
    vp_cover("assign");
  }
#if __cplusplus >= 201703L
  static void bindings() {
    mem_t m;
    havoc(m);
    const view_t v{m.first()};
    static_assert(sizeof...(Ts) == 5, "");
    auto [a0, a1, a2, a3, a4] = v;
    unsigned char old[total];
    for (std::size_t i = 0; i < total; ++i) old[i] = m.at(i);
    vp_assert(chk<0>(a0, old) & chk<1>(a1, old) & chk<2>(a2, old) & chk<3>(a3, old) & chk<4>(a4, old), "structured bindings of a view expose its fields");
    vp_cover("bindings");
  }
  template<std::size_t I, class T> static bool chk(const T &x, const unsigned char *p) {
    return spec::wire<spec::nth_t<I, Ts...>>::den(x, p + spec::offset<I, Ts...>::v, e, s);
  }
#endif
};

// ---- slices of a tuple: view<F, N>() exposes fields F .. F + N - 1
template<endianess E, signed_mode S, std::size_t F, class Seq, class... Ts> struct slice_impl;
template<endianess E, signed_mode S, std::size_t F, std::size_t... Ks, class... Ts>
struct slice_impl<E, S, F, spec::seq<Ks...>, Ts...> {
  using tuple_t = tuple<E, S, Ts...>;
  static const std::size_t total = spec::total<Ts...>::v, N = sizeof...(Ks);
  using d = int[];
  static const spec::endian e = spec::en<E>::v;
  static const spec::sign s = spec::sm<S>::v;
  template<std::size_t K> static void one() {
    const std::size_t I = F + K;
    using T = spec::nth_t<I, Ts...>;
    using W = spec::wire<T>;
    const std::size_t off = spec::offset<I, Ts...>::v;
    tuple_t t;
    vp::bytes(t.begin(), total, "storage");
    unsigned char want[total];
    auto v = t.template view<F, N>();
    auto m = make_view<F, N>(t);
    vp_assert((std::is_same<decltype(v), decltype(m)>::value), "make_view<I, L>(tuple)");
    const tuple_t &ct = t;
    auto c = ct.template view<F, N>();
    auto cm = make_view<F, N>(ct);
    vp_assert(v.begin() == t.begin() + spec::offset<F, Ts...>::v && v.end() == t.begin() + spec::offset<F + N, Ts...>::v, "a slice is bound to the bytes of its fields");
    vp_assert(c.begin() == v.begin() && c.end() == v.end() && m.begin() == v.begin() && m.end() == v.end() && cm.begin() == v.begin() && cm.end() == v.end(), "every way to slice is bound to the same bytes");
    for (std::size_t i = 0; i < total; ++i) want[i] = t[i];
    vp_assert(W::den(v.template get<K>(), want + off, e, s), "field K of a slice from F is field F + K of the tuple");
    vp_assert(W::den(c.template get<K>(), want + off, e, s), "field K of a const slice from F is field F + K of the tuple");
    vp_assert(W::den(cm.template get<K>(), want + off, e, s), "field K of make_view from F is field F + K of the tuple");
    spec::box<T> b;
    W::any(b.v, "v");
    vp_assume(W::ok(b.v, s));
    W::enc(want + off, b.v, e, s);
    v.template set<K>(b.v);
    for (std::size_t i = 0; i < total; ++i) vp_assert(t[i] == want[i], "set through a slice writes that field of the tuple and nothing else");
    vp_assert(W::eq(t.template get<I>(), b.v), "the tuple sees what is set through its slice");
    vp_assert(W::eq(c.template get<K>(), b.v), "a const slice sees later changes");
    W::any(b.v, "v2");
    vp_assume(W::ok(b.v, s));
    t.template set<I>(b.v);
    vp_assert(W::eq(v.template get<K>(), b.v) && W::eq(m.template get<K>(), b.v), "a slice sees what is set in the tuple");
    vp_cover("slice");
  }
  static void all() { (void)d{0, (one<Ks>(), 0)...}; }
};
template<endianess E, signed_mode S, std::size_t F, std::size_t N, class... Ts>
void slice() { slice_impl<E, S, F, typename spec::mkseq<N>::type, Ts...>::all(); }
