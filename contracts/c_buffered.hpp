// P10 - P14: buffered dispatchers (contract templates).
//
// Abstract state of a buffered dispatcher: the bytes of the packet being loaded (at most one packet, never a complete or
// dropped one) and the bytes of the response not read yet. The class invariant ties it to the members; every operation is
// verified from an arbitrary state satisfying the invariant, and must re-establish it (kind 1). The same contracts are
// also verified on states reached from the constructor through the public interface (kind 0).
#pragma once
#include "c_keyring.hpp"
#include "c_stream.hpp"
#include <upd/buffered_dispatcher.hpp>

// A clause of several properties: of P (and then of those of the label) when the condition holds, of those of the label otherwise
#define VP_ALSO(COND, P, X, LABEL) do { if (COND) vp_assert(X, P "," LABEL); else vp_assert(X, LABEL); } while (0)

template<class D> struct two_buffers { static const bool v = false; };
template<class K> struct two_buffers<upd::double_buffered_dispatcher<K>> { static const bool v = true; };

template<class Ring, action_features P, template<class> class B, class Seq> struct buf_impl;
template<class Ring, action_features P, template<class> class B, std::size_t... Ks>
struct buf_impl<Ring, P, B, spec::seq<Ks...>> {
  using keyring_t = typename Ring::keyring_t;
  using disp_t = B<dispatcher<keyring_t, P>>;
  using index_t = typename Ring::index_t;
  template<std::size_t K> using cb = typename Ring::template cb<K>;
  template<std::size_t K> using alt = vcb::fn<static_cast<int>(K) + 100, typename Ring::template sig<K>>;
  static const bool dbl = two_buffers<disp_t>::v;
  static const std::size_t isz = sizeof(index_t), size = Ring::size, max_in = Ring::max_in, max_out = Ring::max_out;
  static const std::size_t max_pkt = isz + max_in;
  using d_ = int[];

  static std::size_t in(std::size_t k) { const std::size_t t[] = {cb<Ks>::in...}; return t[k]; }
  static std::size_t out(std::size_t k) { const std::size_t t[] = {cb<Ks>::out...}; return t[k]; }
  static bool any_in() { return max_in > 0; }

  //! Any result for every callback, and its encoding
  struct results {
    unsigned char b[size][max_out + 1];
    template<std::size_t K, class Cb> void one() {
      Cb::res.any("result");
      vp_assume(Cb::res.ok(Ring::s));
      Cb::res.enc(b[K], Ring::e, Ring::s);
    }
    results() { (void)d_{0, (one<Ks, cb<Ks>>(), 0)...}; }
    explicit results(std::size_t k) { again(k); } // of callback k only
    template<std::size_t K> void other() { one<K, alt<K>>(); } // callback K was replaced
    void again(std::size_t k) { (void)d_{0, (k == Ks ? (one<Ks, cb<Ks>>(), 0) : 0)...}; }
  };

  //! What a packet is: loaded bytes, index, number of bytes
  struct packet {
    unsigned char p[max_pkt + 1];
    std::size_t len, k; // k == size: unknown index
    void valid(std::size_t which) {
      k = which;
      len = isz + in(k);
      spec::encode(p, static_cast<index_t>(k), Ring::e, Ring::s);
      vp::bytes(p + isz, max_in, "args");
    }
    void unknown() {
      k = size;
      len = isz;
      vp::bytes(p, isz, "index");
      if (!vp_symbolic()) { // native search: bias
        auto i = static_cast<index_t>(spec::decoded_pattern<index_t>(p, Ring::e, Ring::s));
        if (i < size) spec::encode(p, static_cast<index_t>(size + i % 3), Ring::e, Ring::s);
      }
      vp_assume(static_cast<index_t>(spec::decoded_pattern<index_t>(p, Ring::e, Ring::s)) >= size);
    }
    //! Any packet, complete case split on the index; `size` stands for the unknown ones
    void any(std::size_t lo = 0, std::size_t hi = size) {
      std::size_t w = vp::pick(lo, hi, "packet");
      if (w < size) valid(w);
      else unknown();
    }
    packet_status end() const { return k < size ? packet_status::RESOLVED_PACKET : packet_status::DROPPED_PACKET; }
  };

  //! Which callback calls happened since expect()
  static void called(std::size_t k, bool dropped = false) {
    VP_ALSO(dropped, "P10", vcb::ghost::total == (k < size ? 1u : 0u), "P11 a callback is called exactly once, when its packet is complete, and none otherwise");
    if (k < size) vp_assert(vcb::ghost::last == static_cast<int>(k) && vcb::ghost::ok, "P11 the callback called is that of the index, with the decoded arguments");
  }

#ifndef VP_NO_INTERNAL
  // ---------------------------------------------------------------- kind 1: from any state satisfying the invariant
  static std::size_t icap(disp_t &) { return icap_(static_cast<disp_t *>(nullptr)); }
  template<class K> static std::size_t icap_(upd::double_buffered_dispatcher<K> *) { return sizeof(static_cast<upd::double_buffered_dispatcher<K> *>(nullptr)->m_ibuf); }
  template<class K> static std::size_t icap_(upd::single_buffered_dispatcher<K> *) { return sizeof(static_cast<upd::single_buffered_dispatcher<K> *>(nullptr)->m_buf); }
  template<class K> static std::size_t ocap_(upd::double_buffered_dispatcher<K> *) { return sizeof(static_cast<upd::double_buffered_dispatcher<K> *>(nullptr)->m_obuf); }
  template<class K> static std::size_t ocap_(upd::single_buffered_dispatcher<K> *) { return sizeof(static_cast<upd::single_buffered_dispatcher<K> *>(nullptr)->m_buf); }

  struct state {
    disp_t d;
    packet pk;             // packet being loaded
    std::size_t n;         // bytes of it loaded so far
    std::size_t o, b;      // pending response: bytes [o, b) of the output buffer
    unsigned char old_o[max_out + 1];

    std::size_t icap() { return icap_(&d); }
    std::size_t ocap() { return ocap_(&d); }
    //! split: 0 none (o and b stay symbolic), 1 every (o, b), 2 every b with o = 0 and the rest symbolic
    void pending(int split) {
      vp_assert(ocap() >= max_out && icap() >= max_pkt, "P13 the buffers are large enough for every request and every response");
      vp::bytes(d.ibuf_begin(), icap(), "input buffer");
      if (dbl) vp::bytes(d.obuf_begin(), ocap(), "output buffer");
      std::size_t w = split == 2 ? vp::pick(0, max_out + 1, "bottom or partly read") : 0;
      if (split == 1) {
        b = vp::pick(0, max_out, "bottom");
        o = vp::pick(0, b, "next");
      } else if (split == 2 && w <= max_out) {
        b = w;
        o = 0;
      } else {
        b = vp::any<std::size_t>("bottom");
        o = vp::any<std::size_t>("next");
        if (!vp_symbolic()) { b %= max_out + 1; o %= b + 1; o += split && !o && b; }
        vp_assume(b <= max_out && o <= b && (split == 0 || o > 0));
      }
    }
    //! n bytes of pk are loaded
    void loaded() {
      bool idx = n >= isz;
      for (std::size_t i = 0; i < n; ++i) d.ibuf_begin()[i] = pk.p[i];
      d.m_is_index_loaded = idx;
      d.m_ibuf_next = n;
      d.m_load_count = (idx ? pk.len : isz) - n;
      d.m_obuf_next = o;
      d.m_obuf_bottom = b;
      for (std::size_t i = 0; i < max_out; ++i) old_o[i] = d.obuf_begin()[i];
    }
    //! an arbitrary state (complete case split on the packet and its loaded bytes)
    void any(int split_output, std::size_t lo = 0, std::size_t hi = size) {
      pending(split_output);
      pk.any(lo, hi);
      n = vp::pick(0, pk.len - 1, "loaded");
      loaded();
    }
    //! the invariant holds, for a packet of which `n` bytes are loaded
    void input_is(std::size_t now, bool dropped = false) {
      bool idx = now >= isz;
      VP_ALSO(dropped, "P10", d.m_is_index_loaded == idx && d.m_ibuf_next == now && d.m_load_count == (idx ? pk.len : isz) - now, "P11 the invariant of the input buffer is re-established");
      for (std::size_t i = 0; i < now; ++i) vp_assert(d.ibuf_begin()[i] == pk.p[i], "P11 the input buffer holds the loaded bytes of the packet");
    }
    bool unread() {
      bool ok = d.m_obuf_next == o && d.m_obuf_bottom == b;
      if (dbl)
        for (std::size_t i = 0; i < max_out; ++i) ok = ok & (d.obuf_begin()[i] == old_o[i]);
      return ok;
    }
    void output_same(bool dropped = false) { VP_ALSO(dropped, "P10", unread(), "P12 the pending response is unaffected"); }
    void output_is(std::size_t k, const results &r) {
      vp_assert(d.m_obuf_next == 0 && d.m_obuf_bottom == out(k), "P12 the pending response has the size of the result");
      for (std::size_t i = 0; i < out(k); ++i) vp_assert(d.obuf_begin()[i] == r.b[k][i], "P12 the pending response is the encoded result");
    }
    //! after the packet was completed
    void completed(const results &r) {
      const bool dropped = pk.k == size;
      called(pk.k, dropped);
      input_is(0, dropped);
      if (pk.k < size) output_is(pk.k, r);
      else output_same(true);
    }
  };

  // base case: the constructors establish the invariant
  static void init(disp_t &d) {
    vp_assert(!d.m_is_index_loaded && d.m_ibuf_next == 0 && d.m_load_count == isz && d.m_obuf_next == 0 && d.m_obuf_bottom == 0, "the constructors establish the invariant");
    vp_assert(!d.is_loaded(), "P12 no response is pending after construction");
    const disp_t &c = d;
    (void)d_{0, (vp_assert(&c[Ks] == &d[Ks] && d[Ks].input_size() == cb<Ks>::in && d[Ks].output_size() == cb<Ks>::out, "every index has the action of its callback"), 0)...};
  }
  static void construct() {
    disp_t a;
    init(a);
    disp_t b{keyring_t{}, action_features_h<P>{}};
    init(b);
    auto c = make(static_cast<disp_t *>(nullptr));
    init(c);
    vp_cover("construct");
  }
  template<class K> static upd::double_buffered_dispatcher<K> make(upd::double_buffered_dispatcher<K> *) { return upd::make_double_buffered_dispatcher(keyring_t{}, action_features_h<P>{}); }
  template<class K> static upd::single_buffered_dispatcher<K> make(upd::single_buffered_dispatcher<K> *) { return upd::make_single_buffered_dispatcher(keyring_t{}, action_features_h<P>{}); }

  static void put_step(std::size_t lo, std::size_t hi) {
    state s;
    s.any(0, lo, hi);
    results r{s.pk.k};
    vcb::expect(s.pk.p + isz, Ring::e, Ring::s);
    auto st = s.d.put(s.pk.p[s.n]);
    if (s.n + 1 == s.pk.len) {
      VP_ALSO(s.pk.k == size, "P10", st == s.pk.end(), "P11 the byte completing a packet is answered RESOLVED_PACKET, or DROPPED_PACKET if the index is unknown");
      s.completed(r);
    } else {
      vp_assert(st == packet_status::LOADING_PACKET, "P11 every byte of an incomplete packet is answered LOADING_PACKET");
      called(size);
      s.input_is(s.n + 1);
      s.output_same();
    }
    vp_cover("put");
  }
  static void put_step() { put_step(0, size); }
  //! for the packets of callbacks [Lo, Hi] only (large keyrings)
  template<std::size_t Lo, std::size_t Hi> static void put_step_of() { put_step(Lo, Hi); }
  static void read_step(std::size_t lo, std::size_t hi) {
    state s;
    s.any(0, lo, hi);
    results r{s.pk.k};
    vcb::expect(s.pk.p + isz, Ring::e, Ring::s);
    std::size_t taken = 0;
    ring::isrc from{s.pk.p + s.n, s.pk.len - s.n};
    auto st = s.d.read_from(from);
    taken = from.n;
    VP_ALSO(s.pk.k == size, "P10", taken == s.pk.len - s.n, "P11 read_from takes exactly the rest of one packet");
    VP_ALSO(s.pk.k == size, "P10", st == s.pk.end(), "P11 read_from returns at the end of one packet, with its status");
    s.completed(r);
    vp_cover("read_from");
  }
  static void read_step() { read_step(0, size); }
  //! for the packets of callbacks [Lo, Hi] only (large keyrings)
  template<std::size_t Lo, std::size_t Hi> static void read_step_of() { read_step(Lo, Hi); }
  // operations on the pending response leave the input alone
  struct out_state : state {
    // the input part of the state, abstract: only that it is not touched
    void opaque(int split) {
      this->pending(split);
      this->pk.unknown();
      this->n = 0;
      this->loaded();
      this->d.m_is_index_loaded = vp::any<bool>("index loaded");
      this->d.m_load_count = lc = vp::any<std::size_t>("load count");
      this->d.m_ibuf_next = in_ = vp::any<std::size_t>("ibuf next");
      il = this->d.m_is_index_loaded;
      for (std::size_t i = 0; i < max_pkt; ++i) old_i[i] = this->d.ibuf_begin()[i];
      for (std::size_t i = 0; i < max_out; ++i) this->old_o[i] = this->d.obuf_begin()[i];
    }
    bool il;
    std::size_t lc, in_;
    unsigned char old_i[max_pkt + 1];
    void input_same(bool reply = false) {
      bool ok = this->d.m_is_index_loaded == il && this->d.m_load_count == lc && this->d.m_ibuf_next == in_;
      for (std::size_t i = 0; i < max_pkt; ++i) ok = ok & (this->d.ibuf_begin()[i] == old_i[i]);
      VP_ALSO(reply, "P14", ok, "P11,P12 reading a response does not affect the packet being loaded");
    }
    void bytes_same(bool reply = false) {
      bool ok = true;
      for (std::size_t i = 0; i < max_out; ++i) ok = ok & (this->d.obuf_begin()[i] == this->old_o[i]);
      VP_ALSO(reply, "P14", ok, "P12 the bytes of the response are not modified by reading");
    }
  };
  static void get_step() {
    out_state s;
    s.opaque(1);
    const disp_t &c = s.d;
    vp_assert(c.is_loaded() == (s.o != s.b), "P12 is_loaded() is true exactly while bytes remain");
    auto x = s.d.get();
    if (s.o < s.b) {
      vp_assert(x == s.old_o[s.o], "P12 get() delivers the next byte of the response");
      vp_assert(s.d.m_obuf_next == s.o + 1, "P12 get() delivers each byte once");
    } else vp_assert(s.d.m_obuf_next == s.o, "P12 get() changes nothing when no byte remains");
    vp_assert(s.d.m_obuf_bottom == s.b, "P12 get() does not change the end of the response");
    vp_assert(c.is_loaded() == (s.d.m_obuf_next != s.b), "P12 is_loaded() is true exactly while bytes remain");
    s.bytes_same();
    s.input_same();
    vp_cover("get");
  }
  static void write_step() {
    out_state s;
    s.opaque(1);
    unsigned char got[max_out + 1];
    std::size_t given = 0;
    ring::idst to{got, s.b - s.o};
    s.d.write_to(to);
    given = to.n;
    vp_assert(given == s.b - s.o, "P12 write_to outputs the remaining bytes of the response");
    for (std::size_t i = 0; i < given; ++i) vp_assert(got[i] == s.old_o[s.o + i], "P12 write_to outputs the bytes of the response in order");
    vp_assert(!s.d.is_loaded() && s.d.m_obuf_next == s.b && s.d.m_obuf_bottom == s.b, "P12 nothing remains after write_to");
    s.bytes_same();
    s.input_same();
    vp_cover("write_to");
  }
  static void process_step() {
    state s;
    s.any(0);
    results r{s.pk.k};
    vcb::expect(s.pk.p + isz, Ring::e, Ring::s);
    std::size_t taken = 0, given = 0, want = s.pk.k < size ? out(s.pk.k) : 0;
    unsigned char got[max_out + 1];
    ring::isrc from{s.pk.p + s.n, s.pk.len - s.n}; ring::idst to{got, want};
    auto st = s.d(from, to);
    taken = from.n; given = to.n;
    const bool dropped = s.pk.k == size;
    VP_ALSO(dropped, "P10", taken == s.pk.len - s.n && st == s.pk.end(), "P11 operator() takes exactly the rest of one packet and returns its status");
    called(s.pk.k, dropped);
    s.input_is(0, dropped);
    VP_ALSO(dropped, "P10", given == want, "P12 operator() outputs the response, and only when a packet was resolved");
    for (std::size_t i = 0; i < want; ++i) vp_assert(got[i] == r.b[s.pk.k][i], "P12 operator() outputs the encoded result");
    if (s.pk.k < size) vp_assert(!s.d.is_loaded() && s.d.m_obuf_next == s.d.m_obuf_bottom && s.d.m_obuf_bottom <= max_out, "P12 operator() leaves no response pending");
    else s.output_same(true);
    vp_cover("process");
  }
  // replacing between packets, with any response pending: nothing else changes; then requests call the right callback
  template<std::size_t I> static void replace_one() {
    state s;
    s.pending(0);
    s.pk.any();
    s.n = 0;
    s.loaded();
    s.d.template replace<I>(unevaluated<typename alt<I>::ptr, &alt<I>::call>{});
    vp_assert(!s.d.m_is_index_loaded && s.d.m_ibuf_next == 0 && s.d.m_load_count == isz, "P11,P15 replacing does not affect the framing of packets");
    vp_assert(s.unread(), "P12,P15 replacing does not affect the pending response");
    results r;
    r.template other<I>();
    vcb::expect(s.pk.p + isz, Ring::e, Ring::s);
    std::size_t taken = 0;
    auto st = s.d.read_from(ring::src{s.pk.p, &taken, s.pk.len});
    vp_assert(st == s.pk.end() && taken == s.pk.len, "replacing does not change the framing of packets");
    vp_assert(vcb::ghost::total == (s.pk.k < size ? 1u : 0u), "one callback is called");
    if (s.pk.k < size) {
      vp_assert(vcb::ghost::ok && vcb::ghost::last == static_cast<int>(s.pk.k) + (s.pk.k == I ? 100 : 0), "P15 only the replaced index calls the new callback");
      s.output_is(s.pk.k, r);
    }
    s.input_is(0);
  }
  static void replace_step() {
    std::size_t which = vp::pick(0, size - 1, "index"); // complete case split
    (void)d_{0, (which == Ks ? (replace_one<Ks>(), 0) : 0)...};
    vp_cover("replace");
  }
  // ---- reply: from any pending response, to keys with buffers of several sizes
  template<class K2, std::size_t N, std::size_t Isz> static void reply_one(const K2 &key, const unsigned char *idx) {
    out_state s;
    s.opaque(2);
    const std::size_t len = Isz + N;
    unsigned char got[len];
    std::size_t given = 0;
    bool can = s.o == 0 && s.b <= N;
    ring::idst to{got, can ? len : 0};
    bool ok = s.d.reply(to, key);
    given = to.n;
    vp_assert(ok == can, "P14 reply() succeeds exactly when the whole response is pending and fits");
    if (ok) {
      vp_assert(given == len, "P14 reply() sends one request");
      for (std::size_t i = 0; i < Isz; ++i) vp_assert(got[i] == idx[i], "P14 reply() sends a request of the given key");
      for (std::size_t i = 0; i < N; ++i) vp_assert(got[Isz + i] == (i < s.b ? s.old_o[i] : 0), "P14 the buffer sent is the response followed by zeros");
      vp_assert(!s.d.is_loaded() && s.d.m_obuf_next == s.b && s.d.m_obuf_bottom == s.b, "P14 the output is empty after a reply");
    } else {
      vp_assert(given == 0, "P14 a failed reply() writes nothing");
      vp_assert(s.d.m_obuf_next == s.o && s.d.m_obuf_bottom == s.b, "P14 a failed reply() leaves the dispatcher unchanged");
    }
    s.bytes_same(true);
    s.input_same(true);
  }
  template<class Ring2, std::size_t K, std::size_t N> static void reply_key() {
    typename Ring2::template key_t<K> key;
    unsigned char idx[sizeof(typename Ring2::index_t)];
    spec::encode(idx, static_cast<typename Ring2::index_t>(K), Ring2::e, Ring2::s);
    reply_one<decltype(key), N, sizeof(idx)>(key, idx);
  }
  // keys that belong to no keyring: wide index, byte order of their own
  static const endianess other = Ring::en == endianess::LITTLE ? endianess::BIG : endianess::LITTLE;
  template<class I, I V, std::size_t N, endianess E2> static void reply_far() {
    upd::key<I, V, void(const bytes_t<N> &), E2, Ring::sm> key;
    unsigned char idx[sizeof(I)];
    spec::encode(idx, V, spec::en<E2>::v, Ring::s);
    reply_one<decltype(key), N, sizeof(idx)>(key, idx);
  }
  static void reply_step() {
    using R = replies;
    std::size_t which = vp::pick(0, 9, "key"); // complete case split
    if (which == 0) reply_key<R, 0, 1>();
    if (which == 1) reply_key<R, 1, 2>();
    if (which == 2) reply_key<R, 2, 4>();
    if (which == 3) reply_key<R, 3, 8>();
    if (which == 4) reply_key<R, 4, 64>();
    if (which == 5) reply_key<R, 5, 16>();
    if (which == 6) reply_key<R, 6, (max_out > 0 ? max_out : 1)>();
    if (which == 7) reply_key<R, 7, (max_out > 1 ? max_out - 1 : 1)>();
    if (which == 8) reply_far<std::uint16_t, 300, (max_out > 1 ? max_out - 1 : 1), Ring::en>();
    if (which == 9) reply_far<std::uint32_t, 0xfedcba98, (max_out > 0 ? max_out : 1), other>();
    vp_cover("reply");
  }
#endif
  template<std::size_t N> using bytes_t = std::array<unsigned char, N>;
  template<std::size_t N> using cbytes_t = unsigned char[N];
  using replies = ring::of<Ring::en, Ring::sm, void(bytes_t<1>), int(const bytes_t<2> &), void(bytes_t<4>), void(const bytes_t<8> &), short(bytes_t<64>),
                           void(const cbytes_t<16> &), void(bytes_t<(max_out > 0 ? max_out : 1)>), void(bytes_t<(max_out > 1 ? max_out - 1 : 1)>)>;

  // ---------------------------------------------------------------- kind 0: histories from the constructor
  //! Feed bytes [from, to) of the packet with put()
  static void feed(disp_t &d, const packet &pk, std::size_t from, std::size_t to) {
    vcb::expect(pk.p + isz, Ring::e, Ring::s);
    for (std::size_t i = from; i < to; ++i) {
      auto st = d.put(pk.p[i]);
      if (i + 1 == pk.len) {
        VP_ALSO(pk.k == size, "P10", st == pk.end(), "P11 the byte completing a packet is answered RESOLVED_PACKET, or DROPPED_PACKET if the index is unknown");
        called(pk.k, pk.k == size);
      } else {
        vp_assert(st == packet_status::LOADING_PACKET, "P11 every byte of an incomplete packet is answered LOADING_PACKET");
        called(size);
      }
    }
  }
  static void take(disp_t &d, const results &r, std::size_t k, std::size_t from, std::size_t to) {
    for (std::size_t i = from; i < to; ++i) {
      vp_assert(d.is_loaded(), "P12 is_loaded() is true while bytes of the response remain");
      vp_assert(d.get() == r.b[k][i], "P12 get() delivers the next byte of the response");
    }
    vp_assert(d.is_loaded() == (to < out(k)), "P12 is_loaded() is true exactly while bytes of the response remain");
  }
  static void drained(disp_t &d) {
    vp_assert(!d.is_loaded(), "P12 nothing remains once the response was delivered");
    d.get();
    vp_assert(!d.is_loaded(), "P12 get() changes nothing when nothing remains");
    unsigned char x[1];
    std::size_t given = 0;
    d.write_to(ring::dst{x, &given, 0});
    vp_assert(given == 0, "P12 nothing is output when nothing remains");
  }
  static void all_of(disp_t &d, const results &r, std::size_t k, std::size_t from) {
    unsigned char got[max_out + 1];
    std::size_t given = 0, want = out(k) - from;
    ring::idst to{got, want};
    d.write_to(to);
    given = to.n;
    vp_assert(given == want, "P12 write_to outputs every remaining byte of the response");
    for (std::size_t i = 0; i < want; ++i) vp_assert(got[i] == r.b[k][from + i], "P12 write_to outputs the bytes of the response in order");
    drained(d);
  }
  //! A count in [0, m]: every one if m is small, otherwise the ends and the middle (the steps above cover the others)
  static std::size_t some(std::size_t m, const char *name) {
    if (m <= 4) return vp::pick(0, m, name);
    std::size_t w = vp::pick(0, 4, name);
    return w < 2 ? w : w == 2 ? m / 2 : w == 3 ? m - 1 : m;
  }
  // packet A byte by byte, part of its response read, part of packet B, then the rest of B, then its response
  static void history() {
    disp_t d;
    drained(d);
    results r;
    packet a, b;
    a.any();
    feed(d, a, 0, a.len);
    std::size_t o = 0;
    if (a.k < size) {
      o = some(out(a.k), "bytes read");
      take(d, r, a.k, 0, o);
    } else drained(d);
    b.any();
    std::size_t n = some(b.len - 1, "bytes loaded");
    feed(d, b, 0, n);
    if (dbl && a.k < size && o < out(a.k)) take(d, r, a.k, o, o + 1), ++o;
    else if (a.k < size && !dbl) vp_assert(d.is_loaded() == (o < out(a.k)), "P12 loading does not change whether bytes remain");
    vcb::expect(b.p + isz, Ring::e, Ring::s);
    std::size_t taken = 0;
    ring::isrc from{b.p + n, b.len - n};
    auto st = d.read_from(from);
    taken = from.n;
    VP_ALSO(b.k == size, "P10", taken == b.len - n, "P11 read_from takes exactly the rest of one packet");
    VP_ALSO(b.k == size, "P10", st == b.end(), "P11 read_from returns at the end of one packet, with its status");
    called(b.k, b.k == size);
    if (b.k < size) all_of(d, r, b.k, 0);
    else if (a.k >= size) drained(d);
    else if (dbl) all_of(d, r, a.k, o); // P10: the pending output is kept
    vp_cover("history");
  }
  // through operator() all along: three packets
  static void processes() {
    disp_t d{keyring_t{}, action_features_h<P>{}};
    results r;
    for (int round = 0; round < 2; ++round) {
      packet a;
      a.any();
      vcb::expect(a.p + isz, Ring::e, Ring::s);
      unsigned char got[max_out + 1];
      std::size_t taken = 0, given = 0, want = a.k < size ? out(a.k) : 0;
      ring::isrc from{a.p, a.len}; ring::idst to{got, want};
      auto st = d(from, to);
      taken = from.n; given = to.n;
      VP_ALSO(a.k == size, "P10", st == a.end() && taken == a.len, "P11 operator() takes exactly one packet and returns its status");
      called(a.k, a.k == size);
      VP_ALSO(a.k == size, "P10", given == want, "P12 operator() outputs the response, and only when a packet was resolved");
      for (std::size_t i = 0; i < want; ++i) vp_assert(got[i] == r.b[a.k][i], "P12 operator() outputs the encoded result");
      drained(d);
    }
    vp_cover("processes");
  }
  // P10: a dispatcher that drops a packet then behaves as its twin that never received that packet
  static void same_output(disp_t &d, disp_t &e, std::size_t n) {
    for (std::size_t i = 0; i <= n; ++i) {
      bool more = e.is_loaded();
      vp_assert(d.is_loaded() == more, "P10 a dropped packet does not change what is output");
      if (more) {
        auto x = d.get();
        vp_assert(x == e.get(), "P10 a dropped packet does not change what is output");
      }
    }
  }
  static void same_packet(disp_t &d, disp_t &e, const packet &c) {
    for (std::size_t i = 0; i < c.len; ++i) {
      vcb::expect(c.p + isz, Ring::e, Ring::s);
      auto st = d.put(c.p[i]);
      auto total = vcb::ghost::total;
      auto ok = vcb::ghost::ok;
      vcb::expect(c.p + isz, Ring::e, Ring::s);
      vp_assert(st == e.put(c.p[i]) && total == vcb::ghost::total && (!total || ok == vcb::ghost::ok), "P10 a dispatcher is ready for another packet once it dropped one");
    }
  }
  static void twins(std::size_t lo, std::size_t hi) {
    disp_t d, e;
    results r;
    packet a, b, c;
    std::size_t w = vp::pick(lo, hi + 1, "packet before");
    if (w <= hi) {
      a.valid(w);
      same_packet(d, e, a);
      std::size_t o = some(out(w), "bytes read");
      for (std::size_t i = 0; i < o; ++i) d.get(), e.get();
    }
    b.unknown();
    std::size_t how = vp::pick(0, 2, "operation"), n = how ? vp::pick(0, isz - 1, "bytes loaded") : isz;
    vcb::expect(nullptr, Ring::e, Ring::s);
    packet_status st = packet_status::LOADING_PACKET;
    for (std::size_t i = 0; i < n; ++i) {
      vp_assert(st == packet_status::LOADING_PACKET, "P10 a packet is dropped once its index was read");
      st = d.put(b.p[i]);
    }
    unsigned char got[1];
    std::size_t taken = 0, given = 0;
    if (how == 1) st = d.read_from(ring::src{b.p + n, &taken, isz - n});
    if (how == 2) st = d(ring::src{b.p + n, &taken, isz - n}, ring::dst{got, &given, 0});
    vp_assert(st == packet_status::DROPPED_PACKET && taken == isz - n && given == 0 && vcb::ghost::total == 0, "P10 an unknown index is dropped: nothing is output nor called");
    if (dbl) same_output(d, e, max_out);
    c.valid(vp::pick(lo, hi, "next packet"));
    same_packet(d, e, c);
    same_output(d, e, max_out);
    vp_cover("dropped");
  }
  static void process_dropped() { twins(0, size - 1); }
  // the same with the last callbacks only (large keyrings)
  static void process_dropped1() { twins(size - 3, size - 1); }
  // reply through the public interface
  template<class Ring2, std::size_t K, std::size_t N> static void reply_pub() {
    unsigned char idx[sizeof(typename Ring2::index_t)];
    spec::encode(idx, static_cast<typename Ring2::index_t>(K), Ring2::e, Ring2::s);
    reply_to<typename Ring2::template key_t<K>, sizeof(idx), N>(idx);
  }
  template<std::size_t N> static void reply_wide() {
    unsigned char idx[2];
    spec::encode(idx, static_cast<std::uint16_t>(300), Ring::e, Ring::s);
    reply_to<upd::key<std::uint16_t, 300, void(const bytes_t<N> &), Ring::en, Ring::sm>, 2, N>(idx);
  }
  template<class K2, std::size_t Isz, std::size_t N> static void reply_to(const unsigned char *idx) {
    const std::size_t len = Isz + N;
    disp_t d;
    results r;
    packet a;
    a.any();
    feed(d, a, 0, a.len);
    std::size_t w = a.k < size ? out(a.k) : 0, o = some(w, "bytes read");
    for (std::size_t i = 0; i < o; ++i) d.get();
    unsigned char got[len];
    std::size_t given = 0;
    bool can = o == 0 && w <= N;
    ring::idst to{got, can ? len : 0};
    bool ok = d.reply(to, K2{});
    given = to.n;
    vp_assert(ok == can, "P14 reply() succeeds exactly when the whole response is pending and fits");
    if (ok) {
      vp_assert(given == len, "P14 reply() sends one request");
      for (std::size_t i = 0; i < Isz; ++i) vp_assert(got[i] == idx[i], "P14 reply() sends a request of the given key");
      for (std::size_t i = 0; i < N; ++i) vp_assert(got[Isz + i] == (i < w ? r.b[a.k][i] : 0), "P14 the buffer sent is the response followed by zeros");
      drained(d);
    } else {
      vp_assert(given == 0, "P14 a failed reply() writes nothing");
      vp_assert(d.is_loaded() == (o < w), "P14 a failed reply() leaves the dispatcher unchanged");
      for (std::size_t i = o; i < w; ++i) vp_assert(d.is_loaded() && d.get() == r.b[a.k][i], "P14 a failed reply() leaves the response unchanged");
      drained(d);
    }
    packet b; // ready for another packet
    b.valid(0);
    feed(d, b, 0, b.len);
    all_of(d, r, 0, 0);
  }
  static void reply_history() {
    using R = replies;
    std::size_t which = vp::pick(0, 6, "key"); // complete case split
    if (which == 6) reply_wide<(max_out > 1 ? max_out - 1 : 1)>();
    if (which == 0) reply_pub<R, 0, 1>();
    if (which == 1) reply_pub<R, 2, 4>();
    if (which == 2) reply_pub<R, 3, 8>();
    if (which == 3) reply_pub<R, 5, 16>();
    if (which == 4) reply_pub<R, 6, (max_out > 0 ? max_out : 1)>();
    if (which == 5) reply_pub<R, 7, (max_out > 1 ? max_out - 1 : 1)>();
    vp_cover("reply");
  }
  // replace between two packets
  template<std::size_t I> static void replace_pub() {
    disp_t d;
    results r;
    packet a, b;
    a.valid(I);
    feed(d, a, 0, a.len);
    std::size_t o = some(out(I), "bytes read");
    take(d, r, I, 0, o);
    d.template replace<I>(unevaluated<typename alt<I>::ptr, &alt<I>::call>{});
    take(d, r, I, o, out(I)); // the pending response survives
    r.template other<I>();
    b.any();
    vcb::expect(b.p + isz, Ring::e, Ring::s);
    std::size_t taken = 0;
    auto st = d.read_from(ring::src{b.p, &taken, b.len});
    vp_assert(st == b.end() && taken == b.len, "replacing does not change the framing of packets");
    vp_assert(vcb::ghost::total == (b.k < size ? 1u : 0u), "one callback is called");
    if (b.k < size) {
      vp_assert(vcb::ghost::ok && vcb::ghost::last == static_cast<int>(b.k) + (b.k == I ? 100 : 0), "P15 only the replaced index calls the new callback");
      all_of(d, r, b.k, 0);
    } else drained(d);
    (void)d_{0, (vp_assert(d[Ks].input_size() == cb<Ks>::in && d[Ks].output_size() == cb<Ks>::out, "P15 replacing leaves the sizes unaffected"), 0)...};
  }
  static void replaces() {
    std::size_t which = vp::pick(0, size - 1, "index"); // complete case split
    (void)d_{0, (which == Ks ? (replace_pub<Ks>(), 0) : 0)...};
    vp_cover("replaces");
  }
  // stateful functors (ANY policy only)
  template<std::size_t I> static void replace_ftor() {
    disp_t d;
    results r;
    r.template other<I>();
    {
      typename alt<I>::ftor f{static_cast<int>(I) + 1100};
      d.template replace<I>(f);
      f.state = -1;
    }
    packet b;
    b.any();
    vcb::expect(b.p + isz, Ring::e, Ring::s);
    std::size_t taken = 0;
    auto st = d.read_from(ring::src{b.p, &taken, b.len});
    vp_assert(st == b.end() && taken == b.len && vcb::ghost::total == (b.k < size ? 1u : 0u), "replacing does not change the framing of packets");
    if (b.k < size) {
      vp_assert(vcb::ghost::ok && vcb::ghost::last == static_cast<int>(b.k) + (b.k == I ? 100 : 0), "P15 only the replaced index calls the new callback, its own copy");
      all_of(d, r, b.k, 0);
    }
  }
  static void replace_ftors() {
    std::size_t which = vp::pick(0, size - 1, "index"); // complete case split
    (void)d_{0, (which == Ks ? (replace_ftor<Ks>(), 0) : 0)...};
    vp_cover("replace functors");
  }
  // advertised capacities
  static void sizes() {
    sizes_(static_cast<disp_t *>(nullptr));
    vp_cover("sizes");
  }
  template<class K> static void sizes_(upd::double_buffered_dispatcher<K> *) {
    vp_assert(upd::double_buffered_dispatcher<K>::input_buffer_size >= max_pkt, "P13 the input buffer is large enough for every request");
    vp_assert(upd::double_buffered_dispatcher<K>::output_buffer_size >= max_out, "P13 the output buffer is large enough for every response");
  }
  template<class K> static void sizes_(upd::single_buffered_dispatcher<K> *) {
    vp_assert(upd::single_buffered_dispatcher<K>::buffer_size >= max_pkt && upd::single_buffered_dispatcher<K>::buffer_size >= max_out, "P13 the buffer is large enough for every request and every response");
  }

  // ---------------------------------------------------------------- kind 2: long random histories against the abstract state
  static void random() {
    disp_t d;
    results r;
    packet pk;
    std::size_t n = 0, ko = size, o = 0; // loaded bytes; pending response of ko from o
    bool clobbered = false;              // single buffer: loading overwrites the pending response
    pk.any();
    for (int step = 0; step < 60; ++step) {
      std::size_t left = ko < size ? out(ko) - o : 0;
      vp_assert(d.is_loaded() == (left > 0), "P12 is_loaded() is true exactly while bytes remain");
      std::size_t op = vp::pick(0, 9, "op");
      std::size_t m = 0;
      if (op <= 3) { // put some bytes
        std::size_t to = n + vp::pick(1, pk.len - n, "bytes");
        feed(d, pk, n, to);
        m = n = to;
      } else if (op <= 5) {
        vcb::expect(pk.p + isz, Ring::e, Ring::s);
        std::size_t taken = 0;
        auto st = d.read_from(ring::src{pk.p + n, &taken, pk.len - n});
        VP_ALSO(pk.k == size, "P10", taken == pk.len - n && st == pk.end(), "P11 read_from takes exactly the rest of one packet");
        called(pk.k, pk.k == size);
        n = pk.len;
      } else if (op == 6) {
        auto x = d.get();
        if (left > 0 && !clobbered) vp_assert(x == r.b[ko][o], "P12 get() delivers the next byte of the response");
        if (left > 0) ++o;
        continue;
      } else if (op == 7) {
        unsigned char got[max_out + 1];
        std::size_t given = 0;
        d.write_to(ring::dst{got, &given, left});
        vp_assert(given == left, "P12 write_to outputs every remaining byte of the response");
        for (std::size_t i = 0; i < left && !clobbered; ++i) vp_assert(got[i] == r.b[ko][o + i], "P12 write_to outputs the bytes of the response in order");
        o += left;
        continue;
      } else if (op == 8) {
        unsigned char got[max_out + 1];
        vcb::expect(pk.p + isz, Ring::e, Ring::s);
        std::size_t taken = 0, given = 0, want = pk.k < size ? out(pk.k) : 0;
        auto st = d(ring::src{pk.p + n, &taken, pk.len - n}, ring::dst{got, &given, want});
        VP_ALSO(pk.k == size, "P10", taken == pk.len - n && st == pk.end(), "P11 operator() takes exactly the rest of one packet");
        called(pk.k, pk.k == size);
        VP_ALSO(pk.k == size, "P10", given == want, "P12 operator() outputs the response, and only when a packet was resolved");
        for (std::size_t i = 0; i < want; ++i) vp_assert(got[i] == r.b[pk.k][i], "P12 operator() outputs the encoded result");
        if (pk.k < size) ko = pk.k, o = out(pk.k);
        else if (!dbl) clobbered = true;
        n = pk.len;
        r.again(pk.k);
        pk.any();
        n = 0;
        continue;
      } else {
        using K2 = typename replies::template key_t<4>;
        unsigned char got[65];
        std::size_t given = 0;
        // whether anything was read yet: a response of no byte is always replied
        bool can = (ko >= size || o == 0) && left <= 64;
        bool ok = d.reply(ring::dst{got, &given, can ? 65u : 0u}, K2{});
        vp_assert(ok == can, "P14 reply() succeeds exactly when the whole response is pending and fits");
        if (ok) {
          vp_assert(given == 65, "P14 reply() sends one request");
          for (std::size_t i = 0; i < 64 && !clobbered; ++i) vp_assert(got[1 + i] == (i < left ? r.b[ko][i] : 0), "P14 the buffer sent is the response followed by zeros");
          o += left;
        }
        continue;
      }
      if (!dbl && m > 0) clobbered = true;
      if (n == pk.len) {
        if (pk.k < size) ko = pk.k, o = 0, clobbered = false;
        else if (!dbl) clobbered = true;
        std::size_t done = pk.k;
        pk.any();
        n = 0;
        (void)done;
      }
    }
    vp_cover("random");
  }
};
template<class Ring, action_features P, template<class> class B> using buf = buf_impl<Ring, P, B, typename Ring::seq>;

// ------------------------------------------------------------------ P16: stream forms of buffered dispatchers
template<class Ring, action_features P, template<class> class B, std::size_t K> struct buf_forms {
  using disp_t = B<dispatcher<typename Ring::keyring_t, P>>;
  using index_t = typename Ring::index_t;
  using cb = typename Ring::template cb<K>;
  static const std::size_t isz = sizeof(index_t), n = isz + cb::in, m = cb::out;
  struct op {
    disp_t &d;
    static void make(unsigned char *b, unsigned char *want) {
      spec::encode(b, static_cast<index_t>(K), Ring::e, Ring::s);
      vp::bytes(b + isz, cb::in, "request");
      cb::res.any("result");
      vp_assume(cb::res.ok(Ring::s));
      cb::res.enc(want, Ring::e, Ring::s);
      vcb::expect(b + isz, Ring::e, Ring::s);
    }
    static void ran() { vp_assert(vcb::ghost::total == 1 && vcb::ghost::last == static_cast<int>(K) && vcb::ghost::ok, "every form processes the same request"); }
    template<class In, class Out> void io() {
      unsigned char b[n], want[m + 1];
      make(b, want);
      In in(b);
      Out out;
      auto st = d(in.make(), out.make());
      vp_assert(st == packet_status::RESOLVED_PACKET, "every form gives the same status");
      ran();
      vp_assert(in.all(), "every form reads exactly the bytes of the request");
      vp_assert(out.is(want, m), "every form outputs exactly the bytes of the response");
      vp_assert(!d.is_loaded(), "every form outputs the whole response");
    }
    template<class In> void in() {
      unsigned char b[n], want[m + 1];
      make(b, want);
      for (int form = 0; form < 2; ++form) {
        vcb::expect(b + isz, Ring::e, Ring::s);
        In in(b);
        auto st = form == 0 ? d.read_from(in.make()) : (d << in.make());
        vp_assert(st == packet_status::RESOLVED_PACKET, "every form gives the same status");
        ran();
        vp_assert(in.all(), "every form reads exactly the bytes of the request");
        for (std::size_t i = 0; i < m; ++i) vp_assert(d.is_loaded() && d.get() == want[i], "every form leaves the same response");
        vp_assert(!d.is_loaded(), "every form leaves the same response");
      }
    }
    template<class Out> void out() {
      unsigned char b[n], want[m + 1];
      make(b, want);
      for (int form = 0; form < 2; ++form) {
        for (std::size_t i = 0; i < n; ++i) d.put(b[i]);
        Out out;
        if (form == 0) d.write_to(out.make());
        else d >> out.make();
        vp_assert(out.is(want, m), "every form outputs exactly the bytes of the response");
        vp_assert(!d.is_loaded(), "every form outputs the whole response");
      }
    }
  };
  struct reply_op {
    disp_t &d;
    template<class Out> void out() {
      unsigned char b[n], want[m + 1], pkt[9] = {0};
      op::make(b, want);
      for (std::size_t i = 0; i < n; ++i) d.put(b[i]);
      Out out;
      using R2 = ring::of<Ring::en, Ring::sm, void(), void(std::array<unsigned char, 8>)>;
      bool ok = d.reply(out.make(), typename R2::template key_t<1>{});
      vp_assert(ok == (m <= 8), "every form replies");
      pkt[0] = 1;
      for (std::size_t i = 0; i < m && i < 8; ++i) pkt[1 + i] = want[i];
      if (ok) vp_assert(out.is(pkt, 9), "every form of reply outputs the same request");
    }
  };
  static void pairs() {
    disp_t d;
    form::pairs<n, m>(op{d});
    vp_cover("pairs");
  }
  static void reads() {
    disp_t d;
    form::inputs<n>(op{d});
    vp_cover("reads");
  }
  static void writes() {
    disp_t d;
    form::outputs<m>(op{d});
    vp_cover("writes");
  }
  static void replies() {
    disp_t d;
    form::outputs<9>(reply_op{d});
    vp_cover("replies");
  }
};
