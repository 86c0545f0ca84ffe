// P04: packed, isolated, recoverable tuple fields. (contract templates; instantiated by tuple.cpp and others)
#pragma once
#include "exts.hpp"
#include <upd/tuple.hpp>

using namespace upd;

template<class... Ts> struct L {};

template<endianess E, signed_mode S> struct F {
  static const endianess e = E;
  static const signed_mode s = S;
};

// ---- set<I> / get<I>: contracts of the two accessors, for one field
template<std::size_t I, endianess E, signed_mode S, class... Ts>
struct field {
  using tuple_t = tuple<E, S, Ts...>;
  using T = spec::nth_t<I, Ts...>;
  using W = spec::wire<T>;
  static const std::size_t off = spec::offset<I, Ts...>::v, n = W::n, total = spec::total<Ts...>::v;

  // requires: v has an encoding; ensures: bytes [off, off+n) are enc(v); assigns: these bytes only
  static void set_contract() {
    tuple_t t;
    vp::bytes(t.begin(), total, "storage");
    unsigned char old[total], want[total];
    for (std::size_t i = 0; i < total; ++i) want[i] = old[i] = t[i];
    spec::box<T> b;
    W::any(b.v, "v");
    vp_assume(W::ok(b.v, spec::sm<S>::v));
    W::enc(want + off, b.v, spec::en<E>::v, spec::sm<S>::v);
    t.template set<I>(b.v);
    for (std::size_t i = 0; i < total; ++i) {
      if (i >= off && i < off + n) vp_assert(t[i] == want[i], "set stores the encoding of the value in the field");
      else vp_assert(t[i] == old[i], "set leaves the other fields unchanged");
    }
    vp_assert(W::den(t.template get<I>(), t.begin() + off, spec::en<E>::v, spec::sm<S>::v), "get returns what was stored");
    auto r = t.template get<I>();
    vp_assert(W::eq(r, b.v), "get returns the value last set");
    vp_cover("set");
  }
  // ensures: result is the value denoted by bytes [off, off+n); assigns nothing
  static void get_contract() {
    tuple_t t;
    vp::bytes(t.begin(), total, "storage");
    unsigned char old[total];
    for (std::size_t i = 0; i < total; ++i) old[i] = t[i];
    const tuple_t &ct = t;
    auto r = ct.template get<I>();
    vp_assert(W::den(r, old + off, spec::en<E>::v, spec::sm<S>::v), "get decodes the bytes of the field");
    auto r2 = upd::get<I>(ct);
    vp_assert(W::den(r2, old + off, spec::en<E>::v, spec::sm<S>::v), "free get decodes the bytes of the field");
    for (std::size_t i = 0; i < total; ++i) vp_assert(t[i] == old[i], "get does not modify the tuple");
    vp_cover("get");
  }
  static void free_set() {
    tuple_t t;
    vp::bytes(t.begin(), total, "storage");
    unsigned char want[total];
    for (std::size_t i = 0; i < total; ++i) want[i] = t[i];
    spec::box<T> b;
    W::any(b.v, "v");
    vp_assume(W::ok(b.v, spec::sm<S>::v));
    W::enc(want + off, b.v, spec::en<E>::v, spec::sm<S>::v);
    upd::set<I>(t, b.v);
    for (std::size_t i = 0; i < total; ++i) vp_assert(t[i] == want[i], "free set stores the field and nothing else");
    vp_cover("free set");
  }
  // contract stub of set<I>, used when verifying its callers
  static void set_stub(detail::tuple_base<tuple_t, E, S, Ts...> *self, const T &v) {
    vp_assert(W::ok(v, spec::sm<S>::v), "precondition of set: the value has an encoding");
    W::enc(static_cast<tuple_t *>(self)->begin() + off, v, spec::en<E>::v, spec::sm<S>::v);
  }
  // contract stub of get<I>: some value denoted by the bytes of the field
  static typename W::get_t get_stub(const detail::tuple_base<tuple_t, E, S, Ts...> *self) {
    typename W::get_t v;
    W::any(v, "got");
    vp_assume(W::den(v, static_cast<const tuple_t *>(self)->begin() + off, spec::en<E>::v, spec::sm<S>::v));
    return v;
  }
  static void install() {
#ifndef VP_NO_INTERNAL
    void (detail::tuple_base<tuple_t, E, S, Ts...>::*p)(const T &) = &detail::tuple_base<tuple_t, E, S, Ts...>::template set<I>;
    vp::replace(p, &field::set_stub);
#endif
  }
  static void install_get() {
#ifndef VP_NO_INTERNAL
    typename W::get_t (detail::tuple_base<tuple_t, E, S, Ts...>::*p)() const = &detail::tuple_base<tuple_t, E, S, Ts...>::template get<I>;
    vp::replace(p, &field::get_stub);
#endif
  }
};

template<endianess E, signed_mode S, class Seq, class... Ts> struct each_impl;
template<endianess E, signed_mode S, std::size_t... Is, class... Ts>
struct each_impl<E, S, spec::seq<Is...>, Ts...> {
  using tuple_t = tuple<E, S, Ts...>;
  using rec_t = spec::rec<Ts...>;
  static const std::size_t total = spec::total<Ts...>::v;
  using d = int[];
  static void sets() { (void)d{0, (field<Is, E, S, Ts...>::set_contract(), 0)...}; }
  static void gets() { (void)d{0, (field<Is, E, S, Ts...>::get_contract(), 0)...}; }
  static void free_sets() { (void)d{0, (field<Is, E, S, Ts...>::free_set(), 0)...}; }
  static void install() { (void)d{0, (field<Is, E, S, Ts...>::install(), 0)...}; }
  static void install_get() { (void)d{0, (field<Is, E, S, Ts...>::install_get(), 0)...}; }

  static void check(const tuple_t &t, rec_t &r) {
    unsigned char want[total];
    r.enc(want, spec::en<E>::v, spec::sm<S>::v);
    for (std::size_t i = 0; i < total; ++i) vp_assert(t[i] == want[i], "the tuple is the packed encoding of its fields in order");
    (void)d{0, (vp_assert(spec::wire<Ts>::eq(t.template get<Is>(), spec::at_rec<Is>::get(r)), "every field is recoverable"), 0)...};
  }
  static void any(rec_t &r) {
    r.any("v");
    vp_assume(r.ok(spec::sm<S>::v));
  }
  static void sizes() {
    tuple_t t;
    vp_assert(tuple_t::size == total, "a tuple occupies the sum of the sizes of its fields");
    vp_assert(static_cast<std::size_t>(t.end() - t.begin()) == total, "begin and end delimit the fields");
    const tuple_t &c = t;
    vp_assert(c.begin() == t.begin() && c.end() == t.end() && t.src() == t.begin(), "const and non-const ranges coincide");
    vp_assert(&t[0] == t.begin(), "operator[] addresses the bytes");
    vp_assert(std::tuple_size<tuple_t>::value == sizeof...(Ts), "tuple_size");
    unsigned char zero[total];
    // default construction: every field holds its default value
    spec::rec<Ts...> r{};
    r.enc(zero, spec::en<E>::v, spec::sm<S>::v);
    for (std::size_t i = 0; i < total; ++i) vp_assert(t[i] == zero[i], "default construction stores default values");
    auto m = upd::make_tuple<Ts...>(endianess_h<E>{}, signed_mode_h<S>{});
    for (std::size_t i = 0; i < total; ++i) vp_assert(m[i] == zero[i], "make_tuple without values stores default values");
    vp_cover("sizes");
  }
  // construction and assignment, with set<I> replaced by its contract
  static void construct() {
    install();
    rec_t r;
    any(r);
    tuple_t t{spec::at_rec<Is>::get(r)...};
    check(t, r);
    tuple_t c = t; // copy
    check(c, r);
    tuple_t a;
    a = c;
    check(a, r);
    vp_cover("construct");
  }
  static void make() {
    install();
    rec_t r;
    any(r);
    auto t = upd::make_tuple(endianess_h<E>{}, signed_mode_h<S>{}, spec::at_rec<Is>::get(r)...);
    static_assert(sizeof(t) == sizeof(tuple_t), "");
    for (std::size_t i = 0; i < total; ++i) (void)i;
    unsigned char want[total];
    r.enc(want, spec::en<E>::v, spec::sm<S>::v);
    for (std::size_t i = 0; i < total; ++i) vp_assert(t[i] == want[i], "make_tuple stores the packed encoding of its arguments");
#if __cplusplus >= 201703L
    upd::tuple<E, S, Ts...> u{endianess_h<E>{}, signed_mode_h<S>{}, spec::at_rec<Is>::get(r)...};
    check(u, r);
#endif
    vp_cover("make");
  }
  // assignment from a tuple of any other wire format
  template<endianess E2, signed_mode S2>
  static void assign_from() {
    rec_t r;
    any(r);
    vp_assume(r.ok(spec::sm<S2>::v));
    tuple<E2, S2, Ts...> src{spec::at_rec<Is>::get(r)...};
    unsigned char old[total];
    for (std::size_t i = 0; i < total; ++i) old[i] = src[i];
    tuple_t t;
    vp::bytes(t.begin(), total, "storage");
    t = static_cast<tuple<E2, S2, Ts...> &&>(src);
    check(t, r);
    for (std::size_t i = 0; i < total; ++i) vp_assert(src[i] == old[i], "assignment does not modify its source");
    vp_cover("assign");
  }
  // assignment from / to views
  template<endianess E2, signed_mode S2>
  static void assign_view() {
    rec_t r;
    any(r);
    vp_assume(r.ok(spec::sm<S2>::v));
    unsigned char raw[total + 2];
    vp::bytes(raw, total + 2, "raw");
    unsigned char g0 = raw[0], g1 = raw[total + 1];
    tuple_view<byte_t *, E2, S2, Ts...> v{raw + 1};
    v = tuple_t{spec::at_rec<Is>::get(r)...};
    unsigned char want[total];
    r.enc(want, spec::en<E2>::v, spec::sm<S2>::v);
    for (std::size_t i = 0; i < total; ++i) vp_assert(raw[1 + i] == want[i], "assigning a tuple to a view sets every field in order");
    vp_assert(raw[0] == g0 && raw[total + 1] == g1, "assigning to a view writes only the fields");
    tuple_t t;
    vp::bytes(t.begin(), total, "storage");
    t = tuple_view<byte_t *, E2, S2, Ts...>{raw + 1};
    check(t, r);
    vp_cover("assign view");
  }
};
template<endianess E, signed_mode S, class... Ts>
using each = each_impl<E, S, typename spec::mkseq<sizeof...(Ts)>::type, Ts...>;

// assignment across convertible field types
template<endianess E, signed_mode S, endianess E2, signed_mode S2>
void convert() {
  short a = vp::any<short>("a");
  unsigned char b = vp::any<unsigned char>("b");
  int c = vp::any<int>("c");
  bool d = vp::any<bool>("d");
  vp_assume(spec::representable(a, spec::sm<S2>::v) && spec::representable(c, spec::sm<S2>::v));
  vp_assume(spec::representable(static_cast<signed char>(c), spec::sm<S>::v));
  tuple<E, S, long long, unsigned, signed char, unsigned short> t;
  vp::bytes(t.begin(), t.size, "storage");
  t = make_tuple(endianess_h<E2>{}, signed_mode_h<S2>{}, a, b, c, d);
  vp_assert(t.template get<0>() == a && t.template get<1>() == b && t.template get<2>() == static_cast<signed char>(c) && t.template get<3>() == (d ? 1 : 0),
            "assignment converts every field as setting it would");
  unsigned char want[15];
  spec::encode(want, static_cast<long long>(a), spec::en<E>::v, spec::sm<S>::v);
  spec::encode(want + 8, static_cast<unsigned>(b), spec::en<E>::v, spec::sm<S>::v);
  spec::encode(want + 12, static_cast<signed char>(c), spec::en<E>::v, spec::sm<S>::v);
  spec::encode(want + 13, static_cast<unsigned short>(d), spec::en<E>::v, spec::sm<S>::v);
  for (int i = 0; i < 15; ++i) vp_assert(t[i] == want[i], "converted fields are encoded in order");
  vp_cover("convert");
}


#if __cplusplus >= 201703L
template<endianess E, signed_mode S>
void bindings() {
  short a = vp::any<short>("a");
  unsigned long long b = vp::any<unsigned long long>("b");
  signed char c = vp::any<signed char>("c");
  vp_assume(spec::representable(a, spec::sm<S>::v) && spec::representable(c, spec::sm<S>::v));
  auto t = make_tuple(endianess_h<E>{}, signed_mode_h<S>{}, a, b, c);
  auto [x, y, z] = t;
  vp_assert(x == a && y == b && z == c, "structured bindings expose the fields in order");
  const auto &[x2, y2, z2] = t;
  vp_assert(x2 == a && y2 == b && z2 == c, "structured bindings expose the fields in order (const)");
  vp_cover("bindings");
}
#define BIND(E, S)                                                                                                     \
  , { "P04,P03", "bindings<" #E "," #S ">", 0, &bindings<endianess::E, signed_mode::S> }
#define BINDINGS                                                                                                       \
  BIND(LITTLE, SIGNED_MAGNITUDE) BIND(LITTLE, ONES_COMPLEMENT) BIND(LITTLE, TWOS_COMPLEMENT) BIND(LITTLE, OFFSET_BINARY)\
  BIND(BIG, SIGNED_MAGNITUDE) BIND(BIG, ONES_COMPLEMENT) BIND(BIG, TWOS_COMPLEMENT) BIND(BIG, OFFSET_BINARY)
#else
#define BINDINGS
#endif
