// P17 on small keyrings (and P10, P09 where routing is concerned).
#include "c_keyring.hpp"

using namespace ring;

template<endianess E, signed_mode S> using three = big<E, S, 3>;
template<endianess E, signed_mode S> using eight = big<E, S, 8>;
template<endianess E, signed_mode S> using forty = big<E, S, 40>;

#define U(P, W, R, E, S) {P, "keyring." #W "<" #R "," #E "," #S ">", 0, &kr<R<endianess::E, signed_mode::S>>::W}
#define RT(R, P, E, S, ...) \
  {"P17", "routes<" #R "," #P "," #E "," #S ">", 0, &sample<R<endianess::E, signed_mode::S>, __VA_ARGS__>::routes<action_features::P>}, \
  {"P17,P10", "lookup<" #R "," #P "," #E "," #S ">", 0, &sample<R<endianess::E, signed_mode::S>, __VA_ARGS__>::lookup<action_features::P>}, \
  {"P10", "unknown<" #R "," #P "," #E "," #S ">", 0, &sample<R<endianess::E, signed_mode::S>, __VA_ARGS__>::unknown<action_features::P>}
#define RT2(R, E, S, ...) RT(R, ANY, E, S, __VA_ARGS__), RT(R, WEAK_REFERENCE, E, S, __VA_ARGS__), {"P17,P08", "packets<" #R "," #E "," #S ">", 0, &sample<R<endianess::E, signed_mode::S>, __VA_ARGS__>::packets}
#define KR(R, E, S) U("P17", keys, R, E, S), U("P17", made, R, E, S)
#define FORMAT(E, S)                                                                                                   \
  KR(only, E, S), KR(mute, E, S), KR(three, E, S), KR(basic, E, S), KR(arrays, E, S), KR(exts, E, S), KR(eight, E, S), KR(forty, E, S), \
      RT2(only, E, S, 0), RT2(mute, E, S, 0, 1), RT2(three, E, S, 0, 1, 2), RT2(eight, E, S, 0, 1, 2, 3, 4, 5, 6, 7), RT2(forty, E, S, 0, 1, 20, 38, 39)

VP_TABLE(VP_FORMATS(FORMAT))
