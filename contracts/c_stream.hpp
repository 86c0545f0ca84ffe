// P16: every stream form (contract templates): factories of inputs and outputs, and the forms of the plain objects
#pragma once
#include "c_dispatch.hpp"
#include "iters.hpp"

namespace form {

// ---------------------------------------------------------------- inputs over N given bytes
template<std::size_t N> struct in_fn { // functor with outside state, rvalue
  std::size_t n = 0;
  const unsigned char *b;
  explicit in_fn(const unsigned char *p) : b(p) {}
  ring::src make() { return ring::src{b, &n, N}; }
  bool all() const { return n == N; }
};
struct msrc { // functor with its own state
  const unsigned char *b;
  std::size_t n, size;
  unsigned char operator()() {
    vp_assert(n < size, "no byte is read beyond the needed ones");
    return b[n++];
  }
};
template<std::size_t N> struct in_state { // functor with its own state, lvalue
  msrc f;
  explicit in_state(const unsigned char *p) : f{p, 0, N} {}
  msrc &make() { return f; }
  bool all() const { return f.n == N; }
};
template<std::size_t N> struct in_temp { // functor with its own state, rvalue
  const unsigned char *b;
  explicit in_temp(const unsigned char *p) : b(p) {}
  msrc make() { return msrc{b, 0, N}; }
  bool all() const { return true; }
};
template<std::size_t N> struct in_cfn { // const functor, lvalue
  std::size_t n = 0;
  const ring::src f;
  explicit in_cfn(const unsigned char *p) : f{p, &n, N} {}
  const ring::src &make() { return f; }
  bool all() const { return n == N; }
};
template<std::size_t N> struct in_ptr { // pointer to an exact buffer
  unsigned char b[N + 1]; // the byte beyond must not be read: it is left out of the range by poisoning its value
  explicit in_ptr(const unsigned char *p) { for (std::size_t i = 0; i < N; ++i) b[i] = p[i]; }
  unsigned char *make() { return b; }
  bool all() const { return true; }
};
template<std::size_t N> struct in_cptr { // pointer into an exactly sized object
  const unsigned char *b;
  explicit in_cptr(const unsigned char *p) : b(p) {}
  const unsigned char *make() { return b; }
  bool all() const { return true; }
};
template<std::size_t N> struct in_it { // single-pass iterator
  it::source_state st;
  explicit in_it(const unsigned char *p) : st{p, 0, N} {}
  it::input make() { return it::input{&st}; }
  bool all() const { return st.taken == N; }
};
template<std::size_t N> struct in_itl { // single-pass iterator, lvalue
  it::source_state st;
  it::input i;
  explicit in_itl(const unsigned char *p) : st{p, 0, N}, i{&st} {}
  it::input &make() { return i; }
  bool all() const { return st.taken == N; }
};
template<std::size_t N> struct in_fwd { // linked list of exactly N nodes
  it::list<N> l;
  explicit in_fwd(const unsigned char *p) { for (std::size_t i = 0; i < N; ++i) l.at(i) = p[i]; }
  it::fwd<const unsigned char> make() { return it::fwd<const unsigned char>{l.head()}; }
  bool all() const { return true; }
};

// ---------------------------------------------------------------- outputs of at most N bytes
template<std::size_t N> struct out_fn {
  std::size_t n = 0;
  unsigned char b[N + 1];
  ring::dst make() { return ring::dst{b, &n, N}; }
  bool is(const unsigned char *w, std::size_t k) const { bool r = n == k; for (std::size_t i = 0; i < k && i < N; ++i) r = r & (b[i] == w[i]); return r; }
};
struct mdst {
  unsigned char *b;
  std::size_t n, size;
  void operator()(unsigned char x) {
    vp_assert(n < size, "no byte is written beyond the needed ones");
    b[n++] = x;
  }
};
template<std::size_t N> struct out_state {
  unsigned char b[N + 1];
  mdst f;
  out_state() : f{b, 0, N} {}
  mdst &make() { return f; }
  bool is(const unsigned char *w, std::size_t k) const { bool r = f.n == k; for (std::size_t i = 0; i < k && i < N; ++i) r = r & (b[i] == w[i]); return r; }
};
template<std::size_t N> struct out_temp {
  unsigned char b[N + 1];
  out_temp() { for (std::size_t i = 0; i < N; ++i) b[i] = 0xcc; }
  mdst make() { return mdst{b, 0, N}; }
  bool is(const unsigned char *w, std::size_t k) const { bool r = true; for (std::size_t i = 0; i < N; ++i) r = r & (b[i] == (i < k ? w[i] : 0xcc)); return r; }
};
template<std::size_t N> struct out_ptr { // pointer; nothing beyond the output may change
  unsigned char b[N + 2];
  out_ptr() { for (std::size_t i = 0; i < N + 2; ++i) b[i] = 0xcc; }
  unsigned char *make() { return b; }
  bool is(const unsigned char *w, std::size_t k) const { bool r = true; for (std::size_t i = 0; i < N + 2; ++i) r = r & (b[i] == (i < k ? w[i] : 0xcc)); return r; }
};
template<std::size_t N> struct out_it {
  unsigned char b[N + 1];
  it::sink_state st;
  out_it() : st{b, 0, N} {}
  it::output make() { return it::output{&st}; }
  bool is(const unsigned char *w, std::size_t k) const { bool r = st.given == k; for (std::size_t i = 0; i < k && i < N; ++i) r = r & (b[i] == w[i]); return r; }
};
template<std::size_t N> struct out_fwd {
  it::list<N + 1> l;
  out_fwd() { for (std::size_t i = 0; i <= N; ++i) l.at(i) = 0xcc; }
  it::fwd<unsigned char> make() { return it::fwd<unsigned char>{l.head()}; }
  bool is(const unsigned char *w, std::size_t k) { bool r = true; for (std::size_t i = 0; i <= N; ++i) r = r & (l.at(i) == (i < k ? w[i] : 0xcc)); return r; }
};

//! Apply `Op` to every form of input / of output / to every pair of forms
template<std::size_t N, class Op> void inputs(Op op) {
  op.template in<in_fn<N>>(); op.template in<in_state<N>>(); op.template in<in_temp<N>>(); op.template in<in_cfn<N>>();
  op.template in<in_ptr<N>>(); op.template in<in_cptr<N>>(); op.template in<in_it<N>>(); op.template in<in_itl<N>>(); op.template in<in_fwd<N>>();
}
template<std::size_t N, class Op> void outputs(Op op) {
  op.template out<out_fn<N>>(); op.template out<out_state<N>>(); op.template out<out_temp<N>>();
  op.template out<out_ptr<N>>(); op.template out<out_it<N>>(); op.template out<out_fwd<N>>();
}
template<std::size_t M, class I, class Op> void with_outputs(Op op) {
  op.template io<I, out_fn<M>>(); op.template io<I, out_state<M>>(); op.template io<I, out_temp<M>>();
  op.template io<I, out_ptr<M>>(); op.template io<I, out_it<M>>(); op.template io<I, out_fwd<M>>();
}
template<std::size_t N, std::size_t M, class Op> void pairs(Op op) {
  with_outputs<M, in_fn<N>>(op); with_outputs<M, in_state<N>>(op); with_outputs<M, in_temp<N>>(op); with_outputs<M, in_cfn<N>>(op);
  with_outputs<M, in_ptr<N>>(op); with_outputs<M, in_cptr<N>>(op); with_outputs<M, in_it<N>>(op); with_outputs<M, in_itl<N>>(op); with_outputs<M, in_fwd<N>>(op);
}

} // namespace form

// ------------------------------------------------------------------ keys: reading
template<class Ring, std::size_t K, class F> struct key_forms;
template<class Ring, std::size_t K, class R, class... A> struct key_forms<Ring, K, R(A...)> {
  using ki = key_impl<Ring, K, R(A...)>;
  template<class Q> struct read_op {
    using W = spec::wire<spec::plain<Q>>;
    static const std::size_t n = W::n;
    template<class In, class Key> void one(Key &k, bool shift) {
      unsigned char b[n];
      vp::bytes(b, n, "response");
      In in(b);
      auto v = shift ? (k << in.make()) : k.read_from(in.make());
      vp_assert((std::is_same<decltype(v), spec::plain<Q>>::value), "the types involved are the documented ones");
      vp_assert(W::den(v, b, Ring::e, Ring::s), "every form of reading gives the value the functor form gives");
      vp_assert(in.all(), "every form of reading takes exactly the bytes of the response");
    }
    template<class In> void in() {
      typename ki::key_t k{};
      const typename ki::key_t c{};
      one<In>(k, false);
      one<In>(k, true);
      one<In>(c, false);
      one<In>(c, true);
    }
  };
  static void reads() { reads(static_cast<vcb::result<R> *>(nullptr)); }
  template<class Q> static void reads(vcb::result<Q> *) {
    each<Ring::en, Ring::sm, spec::plain<Q>>::install_get();
    form::inputs<read_op<Q>::n>(read_op<Q>{});
    vp_cover("reads");
  }
  struct write_op {
    typename ki::args_t &r;
    const unsigned char *want;
    template<class Out, class M> void one(M &m, bool shift) {
      Out o;
      if (shift) m >> o.make();
      else m.write_to(o.make());
      vp_assert(o.is(want, ki::len), "every form of writing outputs exactly the packet");
    }
    template<class Out> void out() {
      typename ki::key_t k{};
      auto m = ki::send(k, r, typename spec::mkseq<sizeof...(A)>::type{});
      const auto &c = m;
      one<Out>(m, false);
      one<Out>(m, true);
      one<Out>(c, false);
      one<Out>(c, true);
    }
  };
  static void writes() {
    each<Ring::en, Ring::sm, typename Ring::index_t, spec::plain<A>...>::install();
    typename ki::args_t r;
    ki::any(r);
    unsigned char want[ki::len];
    ki::packet_of(r, want);
    form::outputs<ki::len>(write_op{r, want});
    vp_cover("writes");
  }
};

// ------------------------------------------------------------------ actions
template<endianess E, signed_mode S, class F> struct act_forms;
template<endianess E, signed_mode S, class R, class... A> struct act_forms<E, S, R(A...)> {
  using cb = vcb::fn<0, R(A...)>;
  static const std::size_t n = cb::in, m = cb::out;
  static const spec::endian e = spec::en<E>::v;
  static const spec::sign s = spec::sm<S>::v;
  template<class Act> struct op {
    Act &a;
    template<class In, class Out> void io() {
      unsigned char b[n > 0 ? n : 1], want[m + 1];
      vp::bytes(b, n, "request");
      cb::res.any("result");
      vp_assume(cb::res.ok(s));
      cb::res.enc(want, e, s);
      vcb::expect(b, e, s);
      In in(b);
      Out out;
      a(in.make(), out.make());
      vp_assert(vcb::ghost::total == 1 && vcb::ghost::ok, "every form calls the callback once on the same arguments");
      vp_assert(in.all(), "every form reads exactly the bytes of the arguments");
      vp_assert(out.is(want, m), "every form outputs exactly the bytes of the result");
    }
    template<class In> void in() {
      unsigned char b[n > 0 ? n : 1];
      vp::bytes(b, n, "request");
      cb::res.any("result");
      vp_assume(cb::res.ok(s));
      vcb::expect(b, e, s);
      In in(b);
      a(in.make());
      vp_assert(vcb::ghost::total == 1 && vcb::ghost::ok && in.all(), "an action called without output reads its arguments and runs its callback once");
    }
  };
  static void any_action() {
    action a{cb::call, endianess_h<E>{}, signed_mode_h<S>{}};
    form::pairs<n, m>(op<action>{a});
    const action &c = a;
    form::pairs<n, m>(op<const action>{c});
    vp_cover("action");
  }
  static void no_storage() {
    no_storage_action a{unevaluated<typename cb::ptr, &cb::call>{}, endianess_h<E>{}, signed_mode_h<S>{}};
    form::pairs<n, m>(op<no_storage_action>{a});
    const no_storage_action &c = a;
    form::pairs<n, m>(op<const no_storage_action>{c});
    vp_cover("no storage");
  }
};

// ------------------------------------------------------------------ dispatchers
template<class Ring, action_features P, std::size_t K> struct disp_forms {
  using disp_t = dispatcher<typename Ring::keyring_t, P>;
  using index_t = typename Ring::index_t;
  using cb = typename Ring::template cb<K>;
  static const std::size_t isz = sizeof(index_t), n = isz + cb::in, m = cb::out;
  struct op {
    disp_t &d;
    template<class In, class Out> void io() {
      unsigned char b[n], want[m + 1];
      spec::encode(b, static_cast<index_t>(K), Ring::e, Ring::s);
      vp::bytes(b + isz, cb::in, "request");
      cb::res.any("result");
      vp_assume(cb::res.ok(Ring::s));
      cb::res.enc(want, Ring::e, Ring::s);
      vcb::expect(b + isz, Ring::e, Ring::s);
      In in(b);
      Out out;
      auto i = d(in.make(), out.make());
      vp_assert(i == K && vcb::ghost::total == 1 && vcb::ghost::last == static_cast<int>(K) && vcb::ghost::ok, "every form dispatches the same request");
      vp_assert(in.all(), "every form reads exactly the bytes of the request");
      vp_assert(out.is(want, m), "every form outputs exactly the bytes of the result");
    }
  };
  static void run() {
    disp_t d;
    form::pairs<n, m>(op{d});
    vp_cover("dispatcher");
  }
  // index / action lookup from any functor
  struct look {
    disp_t &d;
    template<class In> void in() { one<In>(0); }
    template<class In> auto one(int) -> decltype(static_cast<In *>(nullptr)->make()(), void()) {
      unsigned char b[isz];
      spec::encode(b, static_cast<index_t>(K), Ring::e, Ring::s);
      In a(b), c(b);
      vp_assert(d.get_index(a.make()) == K && a.all(), "every functor form gives the index");
      vp_assert(d.get_action(c.make()) == &d[K] && c.all(), "every functor form gives the action");
    }
    template<class In> void one(...) {}
  };
  static void looks() {
    disp_t d;
    form::inputs<isz>(look{d});
    vp_cover("looks");
  }
};
