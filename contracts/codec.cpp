// P01 / P02 / P03: contracts of the integer codec, enforced through the public API.
#include "model.hpp"
#include <upd/format.hpp>
#include <upd/tuple.hpp>

using namespace upd;

// ensures: the sizeof(T) bytes of the field are the encoding of v; assigns: these bytes only
template<class T, endianess E, signed_mode S>
void encode() {
  const spec::endian e = spec::en<E>::v;
  const spec::sign s = spec::sm<S>::v;
  T v = vp::any<T>("v");
  vp_assume(spec::representable(v, s));
  unsigned char buf[sizeof(T) + 2];
  vp::bytes(buf, sizeof buf, "buf");
  unsigned char g0 = buf[0], g1 = buf[sizeof(T) + 1];
  tuple_view<byte_t *, E, S, T> view{buf + 1};
  vp_assert(sizeof(T) == view.size, "an integer takes exactly its size");
  view.template set<0>(v);
  for (std::size_t i = 0; i < sizeof(T); ++i)
    vp_assert(buf[1 + i] == spec::byte_at(v, e, s, i), "encoded byte equals the wire format");
  vp_assert(buf[0] == g0 && buf[sizeof(T) + 1] == g1, "no byte outside the field is written");
  auto t = make_tuple(endianess_h<E>{}, signed_mode_h<S>{}, v);
  for (std::size_t i = 0; i < sizeof(T); ++i)
    vp_assert(t[i] == spec::byte_at(v, e, s, i), "encoded byte of a tuple equals the wire format");
  vp_cover("encode");
}

// ensures: the result is the value denoted by the bytes; assigns nothing
template<class T, endianess E, signed_mode S>
void decode() {
  const spec::endian e = spec::en<E>::v;
  const spec::sign s = spec::sm<S>::v;
  unsigned char buf[sizeof(T)], old[sizeof(T)];
  vp::bytes(buf, sizeof buf, "buf");
  for (std::size_t i = 0; i < sizeof buf; ++i) old[i] = buf[i];
  tuple_view<const byte_t *, E, S, T> view{buf};
  T v = view.template get<0>();
  vp_assert(spec::denotes(v, old, e, s), "decoded value equals the wire format");
  for (std::size_t i = 0; i < sizeof buf; ++i) vp_assert(buf[i] == old[i], "decoding does not modify the bytes");
  vp_cover("decode");
}

// ensures: reading back what was written yields the value
template<class T, endianess E, signed_mode S>
void roundtrip() {
  T v = vp::any<T>("v");
  vp_assume(spec::representable(v, spec::sm<S>::v));
  auto t = make_tuple(endianess_h<E>{}, signed_mode_h<S>{}, v);
  T r = t.template get<0>();
  vp_assert(r == v, "reading back a serialized value returns it");
  vp_cover("roundtrip");
}

#define U(P, F, T, E, S)                                                                                               \
  { P, #F "<" #T "," #E "," #S ">", 0, &F<T, endianess::E, signed_mode::S> }
#define T_(P, F, T)                                                                                                    \
  U(P, F, T, LITTLE, SIGNED_MAGNITUDE), U(P, F, T, LITTLE, ONES_COMPLEMENT), U(P, F, T, LITTLE, TWOS_COMPLEMENT),      \
      U(P, F, T, LITTLE, OFFSET_BINARY), U(P, F, T, BIG, SIGNED_MAGNITUDE), U(P, F, T, BIG, ONES_COMPLEMENT),          \
      U(P, F, T, BIG, TWOS_COMPLEMENT), U(P, F, T, BIG, OFFSET_BINARY)
#define ALL(P, F)                                                                                                      \
  T_(P, F, bool), T_(P, F, char), T_(P, F, unsigned char), T_(P, F, signed char), T_(P, F, short),                     \
      T_(P, F, unsigned short), T_(P, F, int), T_(P, F, unsigned), T_(P, F, long), T_(P, F, unsigned long),            \
      T_(P, F, long long), T_(P, F, unsigned long long),                                       \
      T_(P, F, wchar_t), T_(P, F, char16_t), T_(P, F, char32_t)

VP_TABLE(ALL("P01,P03", encode), ALL("P02,P03", decode), ALL("P02", roundtrip))
