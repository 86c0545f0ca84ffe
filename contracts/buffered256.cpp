// P10 - P13: buffered dispatchers whose index takes two bytes.
#include "c_buffered.hpp"

using namespace ring;

#define B_(PR, KIND, W, R, P, B, E, S) {PR, #B "." #W "<" #R "," #P "," #E "," #S ">", KIND, &buf<R<endianess::E, signed_mode::S>, action_features::P, upd::B##_buffered_dispatcher>::W}
#define R_(PR, KIND, W, LO, HI, R, P, B, E, S) {PR, #B "." #W "<" #LO ".." #HI "," #R "," #P "," #E "," #S ">", KIND, &buf<R<endianess::E, signed_mode::S>, action_features::P, upd::B##_buffered_dispatcher>::W##_of<LO, HI>}
#define CHUNK(LO, HI, R, P, B, E, S) R_("P10,P11,P12,P13", 1, put_step, LO, HI, R, P, B, E, S), R_("P10,P11,P12,P13", 1, read_step, LO, HI, R, P, B, E, S),
#ifndef VP_NO_INTERNAL
#ifdef VP_QUICK
#define EACH(...) CHUNK(0, 2, __VA_ARGS__) CHUNK(127, 128, __VA_ARGS__) CHUNK(254, 256, __VA_ARGS__)
#else // every index
#define EACH(...)                                                                                                      \
  CHUNK(0, 31, __VA_ARGS__) CHUNK(32, 63, __VA_ARGS__) CHUNK(64, 95, __VA_ARGS__) CHUNK(96, 127, __VA_ARGS__) CHUNK(128, 159, __VA_ARGS__) \
  CHUNK(160, 191, __VA_ARGS__) CHUNK(192, 223, __VA_ARGS__) CHUNK(224, 256, __VA_ARGS__)
#endif
#define INV(R, P, B, E, S)                                                                                             \
  B_("P10,P11,P12,P13,P14,P15", 1, construct, R, P, B, E, S), B_("P11,P12,P13", 1, get_step, R, P, B, E, S), B_("P11,P12,P13", 1, write_step, R, P, B, E, S), EACH(R, P, B, E, S)
#else
#define INV(R, P, B, E, S)
#endif
#define ONE(R, P, B, E, S) INV(R, P, B, E, S) B_("P10", 0, process_dropped1, R, P, B, E, S), B_("P13", 0, sizes, R, P, B, E, S), B_("P10,P11,P12,P13,P14", 2, random, R, P, B, E, S)
VP_TABLE(ONE(two56, WEAK_REFERENCE, double, BIG, TWOS_COMPLEMENT), ONE(two56, ANY, single, LITTLE, OFFSET_BINARY))
