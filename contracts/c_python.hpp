// P19: Python bindings, over the contracts of pybind11 in pystub/ (contract templates)
#pragma once
#include "c_dispatch.hpp"
#include "pystub/pybind11/pybind11.h"
#include <upd/keyring.hpp>
#include <upd/python.hpp>

namespace vp_py {

//! A copy of a method given to pybind11
template<class T, class F> struct slot { static F *f; };
template<class T, class F> F *slot<T, F>::f = nullptr;

inline bool same_name(const char *a, const char *b) { return eq(a, b); }

constexpr std::size_t slot_of(unsigned long long n) { return n < 16 ? n : 16 + n % 200; }

//! The names by which the classes of the keys and the keys are known, in order of declaration
template<class Tag> struct names_ {
  static const char *cls[300], *key[300];
  static std::size_t ncls, nkey;
  static int key_id[300];
};
template<class Tag> const char *names_<Tag>::cls[300] = {};
template<class Tag> const char *names_<Tag>::key[300] = {};
template<class Tag> int names_<Tag>::key_id[300] = {};
template<class Tag> std::size_t names_<Tag>::ncls = 0;
template<class Tag> std::size_t names_<Tag>::nkey = 0;
using names = names_<void>;

// ---- keys
template<class I, I N, class R, class... A, upd::endianess E, upd::signed_mode S> struct cls<upd::key<I, N, R(A...), E, S>> {
  using T = upd::key<I, N, R(A...), E, S>;
  using args_t = spec::rec<spec::plain<A>...>;
  static pybind11::bytes (*encode)(args_t &);
  static void (*decode)(pybind11::object &);
  static bool made, indexed;
  static vcb::result<R> decoded;

  static void declared(const char *name) { names::cls[names::ncls++] = name; }
  template<class F, std::size_t... Is> static pybind11::bytes do_encode(args_t &r, spec::seq<Is...>) { return (*slot<T, F>::f)(T{}, spec::at_rec<Is>::get(r)...); }
  template<class F> static pybind11::bytes encode_with(args_t &r) { return do_encode<F>(r, typename spec::mkseq<sizeof...(A)>::type{}); }
  template<class F> static void decode_with(pybind11::object &o) {
    if constexpr (std::is_void<R>::value) (*slot<T, F>::f)(T{}, o);
    else decoded.v = (*slot<T, F>::f)(T{}, o);
  }
  template<class F> static std::size_t index_with() { return static_cast<std::size_t>((*slot<T, F>::f)(T{})); }
  template<class F> static void *make_with(pybind11::function f) { return new upd::action{(*slot<T, F>::f)(T{}, f)}; }
  template<class F> static void def(const char *name, F f) {
    slot<T, F>::f = new F(static_cast<F &&>(f));
    if (eq(name, "encode")) {
      if constexpr (std::is_invocable_r<pybind11::bytes, F &, T, const A &...>::value && !std::is_invocable_r<std::size_t, F &, T>::value) { encode = encode_with<F>; return; }
    } else if (eq(name, "decode")) {
      if constexpr (std::is_invocable<F &, T, pybind11::object &>::value && !std::is_invocable_r<upd::action, F &, T, pybind11::function>::value) { decode = decode_with<F>; return; }
    } else if (eq(name, "index")) {
      if constexpr (std::is_invocable_r<std::size_t, F &, T>::value) { globals::keys.index[slot_of(N)] = index_with<F>; indexed = true; return; }
    } else if (eq(name, "__make_action")) {
      if constexpr (std::is_invocable_r<upd::action, F &, T, pybind11::function>::value) { globals::keys.make_action[slot_of(N)] = make_with<F>; made = true; return; }
    } else return; // other methods are free
    vp_assert(false, "a method of a key has another signature");
  }
};
#define VP_CLS template<class I, I N, class R, class... A, upd::endianess E, upd::signed_mode S>
VP_CLS pybind11::bytes (*cls<upd::key<I, N, R(A...), E, S>>::encode)(args_t &) = nullptr;
VP_CLS void (*cls<upd::key<I, N, R(A...), E, S>>::decode)(pybind11::object &) = nullptr;
VP_CLS bool cls<upd::key<I, N, R(A...), E, S>>::made = false;
VP_CLS bool cls<upd::key<I, N, R(A...), E, S>>::indexed = false;
VP_CLS vcb::result<R> cls<upd::key<I, N, R(A...), E, S>>::decoded;

template<class I, I N, class R, class... A, upd::endianess E, upd::signed_mode S> void expose_key(const char *name, const upd::key<I, N, R(A...), E, S> &) {
  names::key[names::nkey] = name;
  names::key_id[names::nkey++] = N;
}
template<class T> void expose(const char *name, const T &value) { expose_key(name, value); }

// ---- dispatchers
template<class D> struct cls<upd::double_buffered_dispatcher<D>> {
  using T = upd::double_buffered_dispatcher<D>;
  static const char *name;
  static bool init;
  static upd::packet_status (*put)(T &, unsigned char);
  static unsigned char (*get)(T &);
  static bool (*is_loaded)(T &);
  static upd::packet_status (*read_from)(T &, const std::function<upd::byte_t()> &);
  static void (*write_to)(T &, const std::function<void(upd::byte_t)> &);
  static void (*replace)(T &, pybind11::object, pybind11::function);

  static void declared(const char *n) { name = n; }
  template<class... A> static void constructible() { if (sizeof...(A) == 0) init = true; }
  template<class F> static upd::packet_status put_with(T &d, unsigned char b) { return std::invoke(*slot<T, F>::f, d, b); }
  template<class F> static unsigned char get_with(T &d) { return std::invoke(*slot<T, F>::f, d); }
  template<class F> static bool loaded_with(T &d) { return std::invoke(*slot<T, F>::f, d); }
  template<class F> static upd::packet_status read_with(T &d, const std::function<upd::byte_t()> &s) { return (*slot<T, F>::f)(d, s); }
  template<class F> static void write_with(T &d, const std::function<void(upd::byte_t)> &s) { (*slot<T, F>::f)(d, s); }
  template<class F> static void replace_with(T &d, pybind11::object k, pybind11::function f) { (*slot<T, F>::f)(d, k, f); }
  template<class F> static void def(const char *n, F f) {
    slot<T, F>::f = new F(static_cast<F &&>(f));
    if (eq(n, "put")) {
      if constexpr (std::is_invocable_r<upd::packet_status, F &, T &, unsigned char>::value) { put = put_with<F>; return; }
    } else if (eq(n, "get")) {
      if constexpr (std::is_invocable_r<unsigned char, F &, T &>::value) { get = get_with<F>; return; }
    } else if (eq(n, "is_loaded")) {
      if constexpr (std::is_invocable_r<bool, F &, T &>::value) { is_loaded = loaded_with<F>; return; }
    } else if (eq(n, "read_from")) {
      if constexpr (std::is_invocable_r<upd::packet_status, F &, T &, const std::function<upd::byte_t()> &>::value) { read_from = read_with<F>; return; }
    } else if (eq(n, "write_to")) {
      if constexpr (std::is_invocable<F &, T &, const std::function<void(upd::byte_t)> &>::value) { write_to = write_with<F>; return; }
    } else if (eq(n, "replace")) {
      if constexpr (std::is_invocable<F &, T &, pybind11::object, pybind11::function>::value) { replace = replace_with<F>; return; }
    } else return;
    vp_assert(false, "a method of the dispatcher has another signature");
  }
};
#define VP_D template<class D>
#define VP_DM(T, M) VP_D T cls<upd::double_buffered_dispatcher<D>>::M
VP_DM(const char *, name) = nullptr;
VP_DM(bool, init) = false;
VP_D upd::packet_status (*cls<upd::double_buffered_dispatcher<D>>::put)(T &, unsigned char) = nullptr;
VP_D unsigned char (*cls<upd::double_buffered_dispatcher<D>>::get)(T &) = nullptr;
VP_D bool (*cls<upd::double_buffered_dispatcher<D>>::is_loaded)(T &) = nullptr;
VP_D upd::packet_status (*cls<upd::double_buffered_dispatcher<D>>::read_from)(T &, const std::function<upd::byte_t()> &) = nullptr;
VP_D void (*cls<upd::double_buffered_dispatcher<D>>::write_to)(T &, const std::function<void(upd::byte_t)> &) = nullptr;
VP_D void (*cls<upd::double_buffered_dispatcher<D>>::replace)(T &, pybind11::object, pybind11::function) = nullptr;

// ---- the Python function: any result; identity `who`
template<class R> struct pyres { static vcb::result<R> v; };
template<class R> vcb::result<R> pyres<R>::v;
template<class R> R result_of(int) { return pyres<R>::v.v; }
template<class... A> void called(int who, const A &...a) {
  ++vcb::ghost::total;
  vcb::ghost::last = who;
  vcb::ghost::ok = vcb::ghost::ok & vcb::match<A...>::at(vcb::ghost::args, a...);
}

} // namespace vp_py

template<class Ring, class Seq> struct py_impl;
template<class Ring, std::size_t... Ks> struct py_impl<Ring, spec::seq<Ks...>> {
  using keyring_t = typename Ring::keyring_t;
  using index_t = typename Ring::index_t;
  using disp_t = double_buffered_dispatcher<dispatcher<keyring_t, action_features::ANY>>;
  using cls_t = vp_py::cls<disp_t>;
  template<std::size_t K> using cb = typename Ring::template cb<K>;
  template<std::size_t K> using h = typename Ring::template h<K>;
  template<std::size_t K> using key_t = typename Ring::template key_t<K>;
  template<std::size_t K> using kcls = vp_py::cls<key_t<K>>;
  using d_ = int[];
  static const std::size_t size = Ring::size, isz = sizeof(index_t);

  //! Contract of the extraction of names (decided natively, see names()): "__" and a name proper to the callback
  template<std::size_t K> static const char *fname(const h<K> &) {
    static const char n[] = {'_', '_', 'f', static_cast<char>('0' + (K < 10 ? K : K / 100)), static_cast<char>(K < 10 ? 0 : '0' + K / 10 % 10), static_cast<char>('0' + K % 10), 0};
    return n;
  }
  static void assume_names() {
#ifndef VP_NO_INTERNAL
    (void)d_{0, (vp::replace(static_cast<const char *(*)(const h<Ks> &)>(&upd::py::detail::demangled_fname<h<Ks>>), &fname<Ks>), 0)...};
#endif
  }
  static void reset() { vp_py::names::ncls = vp_py::names::nkey = 0; }
  static void unpack() {
    assume_names();
    reset();
    pybind11::module m;
    py::unpack_keyring(m, keyring_t{});
  }
  static void declare() {
    assume_names();
    reset();
    pybind11::module m;
    py::declare_dispatcher(m, "Dispatcher", keyring_t{});
  }

  // ---- keys
  template<std::size_t K> static void exposed() {
    vp_assert(vp_py::names::key_id[K] == static_cast<int>(K), "every key is exposed once");
    const char want[] = {'_', '_', 'f', static_cast<char>('0' + K), 0};
    vp_assert(vp_py::eq(vp_py::names::key[K], want + 2), "a key is exposed under the name of its callback");
    for (std::size_t i = 0; i < size; ++i) vp_assert(i == K || !vp_py::eq(vp_py::names::cls[K], vp_py::names::cls[i]), "the class of a key has a name of its own");
    vp_assert(kcls<K>::encode && kcls<K>::decode && kcls<K>::indexed && kcls<K>::made, "the methods of a key are exposed");
    vp_assert(vp_py::globals::keys.index[K]() == K, "index yields the index of the key");
  }
  static void all_exposed() {
    vp_assert(vp_py::names::nkey == size && vp_py::names::ncls == size, "every key is exposed");
    (void)d_{0, (exposed<Ks>(), 0)...};
  }
  template<std::size_t K> static void encode() {
    using ki = key_impl<Ring, K, typename Ring::template sig<K>>;
    typename ki::args_t r;
    ki::any(r);
    unsigned char want[ki::len];
    ki::packet_of(r, want);
    pybind11::bytes b = kcls<K>::encode(r);
    vp_assert(b.n == ki::len, "encode yields as many bytes as the packet");
    for (std::size_t i = 0; i < ki::len; ++i) vp_assert(b.b[i] == want[i], "encode yields the packet of the key");
  }
  template<class Q> static bool same(const vcb::result<Q> &r, const unsigned char *b) { return spec::wire<spec::plain<Q>>::den(r.v, b, Ring::e, Ring::s); }
  static bool same(const vcb::result<void> &, const unsigned char *) { return true; }
  template<std::size_t K> static void decode() {
    static const std::size_t n = cb<K>::out;
    unsigned char b[n + 1];
    vp::bytes(b, n, "response");
    vp_py::globals::bytes = b;
    vp_py::globals::size = n;
    vp_py::globals::taken = 0;
    pybind11::object o;
    o.kind = pybind11::object::BYTES;
    kcls<K>::decode(o);
    vp_assert(vp_py::globals::taken == n, "decode reads exactly the response");
    vp_assert(same(kcls<K>::decoded, b), "decode yields what the key reads from these bytes");
  }
  static void keys() {
    unpack();
    all_exposed();
    (void)d_{0, (encode<Ks>(), 0)...};
    (void)d_{0, (decode<Ks>(), 0)...};
    vp_cover("keys");
  }

  // ---- dispatchers
  template<std::size_t K> struct call_t { // a request for K
    unsigned char req[isz + cb<K>::in], want[cb<K>::out + 1];
    call_t() {
      spec::encode(req, static_cast<index_t>(K), Ring::e, Ring::s);
      vp::bytes(req + isz, cb<K>::in, "args");
    }
    template<class Res> void expect(Res &res) {
      res.any("result");
      vp_assume(res.ok(Ring::s));
      res.enc(want, Ring::e, Ring::s);
      vcb::expect(req + isz, Ring::e, Ring::s);
    }
    void done(int who) { vp_assert(vcb::ghost::total == 1 && vcb::ghost::last == who && vcb::ghost::ok, "the callback of the key is called once, with the arguments"); }
  };
  template<std::size_t K> static void drive(disp_t &d) {
    call_t<K> c;
    c.expect(cb<K>::res);
    const std::size_t len = isz + cb<K>::in;
    for (std::size_t i = 0; i < len; ++i) {
      auto s = cls_t::put(d, c.req[i]);
      vp_assert(s == (i + 1 < len ? packet_status::LOADING_PACKET : packet_status::RESOLVED_PACKET), "put reports the status of the packet");
    }
    c.done(static_cast<int>(K));
    for (std::size_t i = 0; i < cb<K>::out; ++i) {
      vp_assert(cls_t::is_loaded(d), "is_loaded while bytes remain");
      vp_assert(cls_t::get(d) == c.want[i], "get yields the response");
    }
    vp_assert(!cls_t::is_loaded(d), "is_loaded is false once everything is read");
  }
  template<std::size_t K> static void stream(disp_t &d) {
    call_t<K> c;
    c.expect(cb<K>::res);
    unsigned char got[cb<K>::out + 1];
    std::size_t taken = 0, given = 0;
    auto s = cls_t::read_from(d, std::function<upd::byte_t()>{ring::src{c.req, &taken, isz + cb<K>::in}});
    vp_assert(s == packet_status::RESOLVED_PACKET && taken == isz + cb<K>::in, "read_from reads exactly one packet");
    c.done(static_cast<int>(K));
    cls_t::write_to(d, std::function<void(upd::byte_t)>{ring::dst{got, &given, cb<K>::out}});
    vp_assert(given == cb<K>::out && !cls_t::is_loaded(d), "write_to writes the whole response");
    for (std::size_t i = 0; i < given; ++i) vp_assert(got[i] == c.want[i], "write_to writes the response");
  }
  static void declared() {
    vp_assert(cls_t::name && vp_py::eq(cls_t::name, "Dispatcher") && cls_t::init, "the dispatcher class is declared under the given name");
    vp_assert(cls_t::put && cls_t::get && cls_t::is_loaded && cls_t::read_from && cls_t::write_to && cls_t::replace, "the methods of a dispatcher are exposed");
  }
  static void dispatchers() {
    declare();
    declared();
    all_exposed();
    disp_t d;
    (void)d_{0, (drive<Ks>(d), 0)...};
    vp_cover("dispatchers");
  }
  static void streams() {
    declare();
    disp_t d;
    (void)d_{0, (stream<Ks>(d), 0)...};
    vp_cover("streams");
  }
  static void unknown() {
    declare();
    disp_t d;
    unsigned char b = vp::any<unsigned char>("index");
    if (!vp_symbolic() && b < size) b = static_cast<unsigned char>(255 - b);
    vp_assume(b >= size);
    vcb::expect(nullptr, Ring::e, Ring::s);
    vp_assert(cls_t::put(d, b) == packet_status::DROPPED_PACKET && vcb::ghost::total == 0, "put reports a dropped packet");
    vp_assert(!cls_t::is_loaded(d), "a dropped packet has no response");
    vp_cover("unknown");
  }
  // a request for K after the action of I was replaced by the Python function 500 + I
  template<std::size_t I, std::size_t K, class R> static void after(disp_t &d, R (*)(...)) {
    if constexpr (I == K) {
      call_t<K> c;
      c.expect(vp_py::pyres<R>::v);
      const std::size_t len = isz + cb<K>::in;
      for (std::size_t i = 0; i < len; ++i) {
        auto s = cls_t::put(d, c.req[i]);
        vp_assert(s == (i + 1 < len ? packet_status::LOADING_PACKET : packet_status::RESOLVED_PACKET), "put reports the status of the packet");
      }
      vp_assert(vcb::ghost::total == 1 && vcb::ghost::last == 500 + static_cast<int>(I) && vcb::ghost::ok, "the Python function is called once, with the arguments");
      for (std::size_t i = 0; i < cb<K>::out; ++i) vp_assert(cls_t::is_loaded(d) && cls_t::get(d) == c.want[i], "the result of the Python function is output");
      vp_assert(!cls_t::is_loaded(d), "nothing more than the result is output");
    } else drive<K>(d);
  }
  template<class F> struct ret;
  template<class R, class... A> struct ret<R(A...)> { using fn = R (*)(...); };
  template<std::size_t I> static void replace(disp_t &d) {
    pybind11::object k;
    k.kind = pybind11::object::KEY;
    k.id = static_cast<int>(I);
    pybind11::function f;
    f.id = 500 + static_cast<int>(I);
    cls_t::replace(d, k, f);
  }
  template<std::size_t I> static void replaced() {
    disp_t d;
    replace<I>(d);
    (void)d_{0, (after<I, Ks>(d, typename ret<typename Ring::template sig<Ks>>::fn{}), 0)...};
  }
  static void replaces() {
    declare();
    (void)d_{0, (replaced<Ks>(), 0)...};
    vp_cover("replaces");
  }
};
template<class Ring> using pyb = py_impl<Ring, typename Ring::seq>;

//! Keys of arbitrary index
template<class I, I N, class F, upd::endianess E, upd::signed_mode S> struct py_far;
template<class I, I N, class R, class... A, upd::endianess E, upd::signed_mode S> struct py_far<I, N, R(A...), E, S> {
  using K = upd::key<I, N, R(A...), E, S>;
  using kcls = vp_py::cls<K>;
  using Ring = ring::of<E, S, R(A...)>;
  static void run() {
    static const char name[] = "__far";
    vp_py::names::ncls = vp_py::names::nkey = 0;
    pybind11::module m;
    upd::py::detail::define_pykey(m, name, typename Ring::keyring_t{}, K{});
    vp_assert(vp_py::names::nkey == 1 && vp_py::names::ncls == 1 && vp_py::names::key_id[0] == static_cast<int>(N) && vp_py::eq(vp_py::names::key[0], "far"), "the key is exposed under its name");
    vp_assert(kcls::encode && kcls::decode && kcls::indexed && kcls::made, "the methods of a key are exposed");
    vp_assert(vp_py::globals::keys.index[vp_py::slot_of(N)]() == N, "index yields the index of the key");
    using ki = key_impl<Ring, 0, R(A...)>; // same arguments, index 0 on one byte
    typename ki::args_t r;
    ki::any(r);
    unsigned char want[ki::len], idx[sizeof(I)];
    ki::packet_of(r, want);
    spec::encode(idx, N, Ring::e, Ring::s);
    pybind11::bytes b = kcls::encode(r);
    vp_assert(b.n == ki::len - 1 + sizeof(I), "encode yields as many bytes as the packet");
    for (std::size_t i = 0; i < sizeof(I); ++i) vp_assert(b.b[i] == idx[i], "encode yields the packet of the key");
    for (std::size_t i = 1; i < ki::len; ++i) vp_assert(b.b[i - 1 + sizeof(I)] == want[i], "encode yields the packet of the key");
    static const std::size_t n = vcb::fn<0, R(A...)>::out;
    unsigned char resp[n + 1];
    vp::bytes(resp, n, "response");
    vp_py::globals::bytes = resp;
    vp_py::globals::size = n;
    vp_py::globals::taken = 0;
    pybind11::object o;
    o.kind = pybind11::object::BYTES;
    kcls::decode(o);
    vp_assert(vp_py::globals::taken == n, "decode reads exactly the response");
    vp_assert(py_impl<Ring, typename Ring::seq>::same(kcls::decoded, resp), "decode yields what the key reads from these bytes");
    vp_cover("far");
  }
};
