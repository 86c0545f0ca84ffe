// P19 (bounded, built with g++): the bindings under the real pybind11 and the real CPython.
#include <pybind11/embed.h>
#include "pyring.hpp"
#include "c_key.hpp"
#include <upd/python.hpp>
#include <_details.cpp> // the module of the package

using namespace upd;
namespace pyx = pybind11;

static pyx::object interpreter() {
  static auto *guard = (PyImport_AppendInittab("_details", PyInit__details), new pyx::scoped_interpreter{});
  pyx::module_::import("_details");
  (void)guard;
  return pyx::module_::import("types").attr("ModuleType");
}
template<class T> pyx::object to_py(const T &x) { return pyx::cast(x); }

template<class Ring, class Seq> struct real_impl;
template<class Ring, std::size_t... Ks> struct real_impl<Ring, spec::seq<Ks...>> {
  using keyring_t = typename Ring::keyring_t;
  template<std::size_t K> using cb = typename Ring::template cb<K>;
  using d_ = int[];
  static pyx::object &mod() {
    static auto *m = [] {
      auto *o = new pyx::object{interpreter()("vpm")};
      auto mm = pyx::reinterpret_borrow<pyx::module_>(*o);
      py::declare_dispatcher(mm, "Dispatcher", keyring_t{});
      return o;
    }();
    return *m;
  }
  static pyx::object key(std::size_t k) { return mod().attr(("f" + std::to_string(k)).c_str()); }
  template<class R, std::size_t... Is> static pyx::bytes send(pyx::object k, R &r, spec::seq<Is...>) { return k.attr("encode")(to_py(spec::at_rec<Is>::get(r))...); }
  template<class F> struct seq_of;
  template<class R, class... A> struct seq_of<R(A...)> {
    using type = typename spec::mkseq<sizeof...(A)>::type;
    using ret = R;
  };
  template<class Q> static bool same(pyx::object o, vcb::result<Q> &, const unsigned char *b) {
    auto v = o.cast<Q>();
    return spec::wire<spec::plain<Q>>::den(v, b, Ring::e, Ring::s);
  }
  static bool same(pyx::object o, vcb::result<void> &, const unsigned char *) { return o.is_none(); }
  template<std::size_t K> static void key_methods() {
    using sig = typename Ring::template sig<K>;
    using ki = key_impl<Ring, K, sig>;
    typename ki::args_t r;
    ki::any(r);
    unsigned char want[ki::len];
    ki::packet_of(r, want);
    std::string b = send(key(K), r, typename seq_of<sig>::type{});
    vp_assert(b.size() == ki::len, "encode yields as many bytes as the packet");
    for (std::size_t i = 0; i < ki::len; ++i) vp_assert(static_cast<unsigned char>(b[i]) == want[i], "encode yields the packet of the key");
    unsigned char resp[cb<K>::out + 1];
    cb<K>::res.any("result");
    vp_assume(cb<K>::res.ok(Ring::s));
    cb<K>::res.enc(resp, Ring::e, Ring::s);
    auto o = key(K).attr("decode")(pyx::bytes(reinterpret_cast<char *>(resp), +cb<K>::out));
    vp_assert(same(o, cb<K>::res, resp), "decode yields what the key reads from these bytes");
    vp_assert(key(K).attr("index")().cast<std::size_t>() == K, "index yields the index of the key");
  }
  static void keys() {
    (void)d_{0, (key_methods<Ks>(), 0)...};
    vp_cover("keys");
  }
  // Client.call: the payload is the packet of the key, a bytes response is decoded by the key, any other one is returned as it is
  static pyx::object &client() {
    static auto *c = [] {
      interpreter();
      pyx::dict ns;
      ns["path"] = VP_CLIENT;
      pyx::exec("import asyncio\nexec(compile(open(path).read(), path, 'exec'))\n"
                "class C(Client):\n  async def new_request(self, payload):\n    self.sent.append(payload)\n    return self.answer\n"
                "def call(answer, key, *args):\n  c = C()\n  c.sent = []\n  c.answer = answer\n  rv = asyncio.run(c.call(key, *args))\n  return c.sent, rv\n", ns);
      return new pyx::object{ns["call"]};
    }();
    return *c;
  }
  template<class R, std::size_t... Is> static pyx::tuple request(pyx::object answer, pyx::object k, R &r, spec::seq<Is...>) { return client()(answer, k, to_py(spec::at_rec<Is>::get(r))...); }
  template<std::size_t K> static void client_call() {
    using sig = typename Ring::template sig<K>;
    using ki = key_impl<Ring, K, sig>;
    typename ki::args_t r;
    ki::any(r);
    unsigned char want[ki::len], resp[cb<K>::out + 1];
    ki::packet_of(r, want);
    cb<K>::res.any("result");
    vp_assume(cb<K>::res.ok(Ring::s));
    cb<K>::res.enc(resp, Ring::e, Ring::s);
    for (int raw = 0; raw < 2; ++raw) {
      pyx::object answer = raw ? pyx::object{pyx::str("not bytes")} : pyx::object{pyx::bytes(reinterpret_cast<char *>(resp), +cb<K>::out)};
      pyx::tuple got = request(answer, key(K), r, typename seq_of<sig>::type{});
      pyx::list sent = got[0];
      pyx::object rv = got[1];
      vp_assert(sent.size() == 1, "call() makes one request");
      std::string b = sent[0].cast<std::string>();
      vp_assert(b.size() == ki::len, "call() sends the packet of the key");
      for (std::size_t i = 0; i < ki::len; ++i) vp_assert(static_cast<unsigned char>(b[i]) == want[i], "call() sends the packet of the key");
      if (raw) vp_assert(rv.is(answer), "call() returns a response that is not bytes as it is");
      else vp_assert(same(rv, cb<K>::res, resp), "call() returns what the key decodes");
    }
  }
  static void clients() {
    mod();
    (void)d_{0, (client_call<Ks>(), 0)...};
    vp_cover("clients");
  }
  // one request for K; `who` is called
  template<std::size_t K> static void drive(pyx::object d, int who, bool streams) {
    static const std::size_t len = 1 + cb<K>::in;
    unsigned char req[len], want[cb<K>::out + 1], got[cb<K>::out + 1];
    req[0] = K;
    vp::bytes(req + 1, cb<K>::in, "args");
    cb<K>::res.any("result");
    vp_assume(cb<K>::res.ok(Ring::s));
    cb<K>::res.enc(want, Ring::e, Ring::s);
    vcb::expect(req + 1, Ring::e, Ring::s);
    std::size_t given = 0;
    if (streams) {
      std::size_t taken = 0;
      d.attr("read_from")(pyx::cpp_function([&] {
        vp_assert(taken < len, "read_from reads exactly one packet");
        return static_cast<int>(req[taken++]);
      }));
      vp_assert(taken == len, "read_from reads exactly one packet");
    } else
      for (std::size_t i = 0; i < len; ++i) vp_assert(d.attr("put")(static_cast<int>(req[i])).template cast<packet_status>() == (i + 1 < len ? packet_status::LOADING_PACKET : packet_status::RESOLVED_PACKET), "put reports the status of the packet");
    vp_assert(vcb::ghost::total == 1 && vcb::ghost::last == who && vcb::ghost::ok, "the callable of the key is called once, with the arguments");
    if (streams) {
      d.attr("write_to")(pyx::cpp_function([&](int x) {
        vp_assert(given < cb<K>::out, "write_to writes the response");
        got[given++] = static_cast<unsigned char>(x);
      }));
    } else
      while (given < cb<K>::out) {
        vp_assert(d.attr("is_loaded")().template cast<bool>(), "is_loaded while bytes remain");
        got[given++] = d.attr("get")().template cast<unsigned char>();
      }
    vp_assert(given == cb<K>::out && !d.attr("is_loaded")().template cast<bool>(), "the whole response is output");
    for (std::size_t i = 0; i < given; ++i) vp_assert(got[i] == want[i], "the response");
  }
  static void dispatchers() {
    auto d = mod().attr("Dispatcher")();
    (void)d_{0, (drive<Ks>(d, Ks, false), 0)...};
    (void)d_{0, (drive<Ks>(d, Ks, true), 0)...};
    vp_cover("dispatchers");
  }
  template<std::size_t I, class R, class... A> static pyx::object callable(R (*)(A...)) {
    return pyx::cpp_function([](A... a) -> R {
      ++vcb::ghost::total;
      vcb::ghost::last = 500 + static_cast<int>(I);
      vcb::ghost::ok = vcb::ghost::ok & vcb::match<A...>::at(vcb::ghost::args, a...);
      return cb<I>::ret(cb<I>::res);
    });
  }
  template<std::size_t I> static void replaced() {
    auto d = mod().attr("Dispatcher")();
    d.attr("replace")(key(I), callable<I>(static_cast<typename Ring::template sig<I> *>(nullptr)));
    (void)d_{0, (drive<Ks>(d, Ks == I ? 500 + static_cast<int>(I) : static_cast<int>(Ks), Ks % 2), 0)...};
  }
  static void replaces() {
    (void)d_{0, (replaced<Ks>(), 0)...};
    vp_cover("replaces");
  }
};
template<class Ring> using real = real_impl<Ring, typename Ring::seq>;

#define PY(N, E, S) {"P19", "pybind11." #N "<" #E "," #S ">", 0, &real<ring::pyk<endianess::E, signed_mode::S>>::N}
#define FMT(E, S) PY(keys, E, S), PY(dispatchers, E, S), PY(replaces, E, S), PY(clients, E, S)
static void available() { interpreter(); }
VP_TABLE({"P19", "available", 2, &available}, FMT(LITTLE, ONES_COMPLEMENT), FMT(BIG, SIGNED_MAGNITUDE))
