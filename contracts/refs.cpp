// P09, P15, P18 (bounded, built with g++): callbacks designated by reference and `replace<I, Callback>()`, which
// clang 18 does not compile from C++17 on.
#include "c_dispatch.hpp"
#include "c_key.hpp"
#include <upd/buffered_dispatcher.hpp>

using namespace ring;

int p0(int x) { return vcb::fn<0, int(int)>::call(x); }
void p1(unsigned char x) { vcb::fn<1, void(unsigned char)>::call(x); }
short p2(short x, long long y) { return vcb::fn<2, short(short, long long)>::call(x, y); }
struct o1_t {
  void operator()(unsigned char x) { vcb::fn<1, void(unsigned char)>::call(x); }
} o1;
auto l2 = [](short x, long long y) { return vcb::fn<2, short(short, long long)>::call(x, y); };

template<class F> struct arity;
template<class R, class... A> struct arity<R(A...)> { using seq = typename spec::mkseq<sizeof...(A)>::type; };
template<endianess E, signed_mode S> struct deduced {
  using sigs = of<E, S, int(int), void(unsigned char), short(short, long long)>;
  template<std::size_t K, class Key> static void one(Key k) {
    using ki = key_impl<sigs, K, typename sigs::template sig<K>>;
    static_assert(Key::index == K && Key::payload_length == ki::len, "index and length of a key");
    typename ki::args_t r;
    ki::any(r);
    unsigned char want[ki::len], got[ki::len + 1];
    ki::packet_of(r, want);
    put<K>(k, r, got, typename arity<typename sigs::template sig<K>>::seq{});
    for (std::size_t i = 0; i < ki::len; ++i) vp_assert(got[i] == want[i], "the packet of a key of a deduced keyring");
  }
  template<std::size_t K, class Key, class R, std::size_t... Is> static void put(Key k, R &r, unsigned char *to, spec::seq<Is...>) { k(spec::at_rec<Is>::get(r)...).write_to(to); }
  static void keys() {
    constexpr keyring kr{flist<p0, o1, l2>, endianess_h<E>{}, signed_mode_h<S>{}};
    static_assert(decltype(kr)::size == 3, "size");
    one<0>(kr.template get<p0>());
    one<1>(kr.template get<o1>());
    one<2>(kr.template get<l2>());
    constexpr keyring fr{flist<p0, p1, p2>, endianess_h<E>{}, signed_mode_h<S>{}};
    double_buffered_dispatcher d{fr, policy::any_callback};
    call<0>(d);
    call<1>(d);
    call<2>(d);
    double_buffered_dispatcher w{fr, policy::weak_reference};
    call<0>(w);
    call<1>(w);
    call<2>(w);
    vp_cover("deduced");
  }
  template<std::size_t K, class D> static void call(D &d) {
    using cb = typename sigs::template cb<K>;
    unsigned char req[1 + cb::in], want[cb::out + 1];
    req[0] = K;
    vp::bytes(req + 1, cb::in, "args");
    cb::res.any("result");
    vp_assume(cb::res.ok(sigs::s));
    cb::res.enc(want, sigs::e, sigs::s);
    vcb::expect(req + 1, sigs::e, sigs::s);
    for (std::size_t i = 0; i < 1 + cb::in; ++i) vp_assert(d.put(req[i]) == (i < cb::in ? packet_status::LOADING_PACKET : packet_status::RESOLVED_PACKET), "packet status");
    vp_assert(vcb::ghost::total == 1 && vcb::ghost::last == static_cast<int>(K) && vcb::ghost::ok, "the callback is called once with the arguments");
    for (std::size_t i = 0; i < cb::out; ++i) vp_assert(d.is_loaded() && d.get() == want[i], "the response");
    vp_assert(!d.is_loaded(), "nothing more is output");
  }
};

#define A_(P, W, E, S, ...) {P, "action." #W "<" #E "," #S "," #__VA_ARGS__ ">", 0, &act<endianess::E, signed_mode::S, __VA_ARGS__>::W}
#define D_(PR, W, R, P, E, S) {PR, "dispatcher." #W "<" #R "," #P "," #E "," #S ">", 0, &disp<R<endianess::E, signed_mode::S>, action_features::P>::W}
#define K_(E, S) {"P08,P09,P15,P17,P18", "deduced.keys<" #E "," #S ">", 0, &deduced<endianess::E, signed_mode::S>::keys}
VP_TABLE(A_("P09,P18", no_storage, LITTLE, SIGNED_MAGNITUDE, SA(const A3 &, bool, SA)), A_("P09,P18", no_storage, BIG, OFFSET_BINARY, void(short, unsigned char)),
         D_("P15", replace_static, basic, ANY, BIG, ONES_COMPLEMENT), D_("P15", replace_static, arrays, WEAK_REFERENCE, LITTLE, OFFSET_BINARY), K_(LITTLE, ONES_COMPLEMENT), K_(BIG, SIGNED_MAGNITUDE))
