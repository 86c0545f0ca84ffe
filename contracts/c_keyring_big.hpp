// P17 around the change of index width. VP_N is the number of callbacks.
#include "c_keyring.hpp"

using namespace ring;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(x) #x
#define STR(x) STR_(x)
template<endianess E, signed_mode S> using huge = big<E, S, VP_N>;

#define U(P, W, R, E, S) {P, "keyring." #W "<" STR(VP_N) "," #E "," #S ">", 0, &kr<R<endianess::E, signed_mode::S>>::W}
#define SM(R, E, S) sample<R<endianess::E, signed_mode::S>, 0, 1, 126, VP_N - 2, VP_N - 1>
#define RT(R, P, E, S) \
  {"P17,P09", "routes<" STR(VP_N) "," #P "," #E "," #S ">", 0, &SM(R, E, S)::routes<action_features::P>}, \
  {"P17,P10,P13", "lookup<" STR(VP_N) "," #P "," #E "," #S ">", 0, &SM(R, E, S)::lookup<action_features::P>}, \
  {"P10,P13", "unknown<" STR(VP_N) "," #P "," #E "," #S ">", 0, &SM(R, E, S)::unknown<action_features::P>}
#define FORMAT(E, S) \
  U("P17", keys, huge, E, S), U("P17", made, huge, E, S), RT(huge, WEAK_REFERENCE, E, S), \
  {"P17,P08", "packets<" STR(VP_N) "," #E "," #S ">", 0, &SM(huge, E, S)::packets}
VP_TABLE(FORMAT(LITTLE, TWOS_COMPLEMENT), FORMAT(BIG, SIGNED_MAGNITUDE), RT(huge, ANY, LITTLE, OFFSET_BINARY))
