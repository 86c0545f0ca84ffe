// P10 - P16: buffered dispatchers.
#include "c_buffered.hpp"

using namespace ring;

#define B_(PR, KIND, W, R, P, B, E, S) {PR, #B "." #W "<" #R "," #P "," #E "," #S ">", KIND, &buf<R<endianess::E, signed_mode::S>, action_features::P, upd::B##_buffered_dispatcher>::W}
#ifndef VP_NO_INTERNAL
#define INV(R, P, B, E, S)                                                                                             \
  B_("P10,P11,P12,P13,P14,P15", 1, construct, R, P, B, E, S), B_("P10,P11,P12,P13", 1, put_step, R, P, B, E, S), B_("P10,P11,P12,P13", 1, read_step, R, P, B, E, S), \
      B_("P11,P12,P13", 1, get_step, R, P, B, E, S), B_("P11,P12,P13", 1, write_step, R, P, B, E, S), B_("P10,P11,P12,P13", 1, process_step, R, P, B, E, S), \
      B_("P14,P12,P13", 1, reply_step, R, P, B, E, S), B_("P15,P11,P12,P13", 1, replace_step, R, P, B, E, S),
#else
#define INV(R, P, B, E, S)
#endif
#define HIST(R, P, B, E, S)                                                                                            \
  B_("P10,P11,P12,P13", 0, history, R, P, B, E, S), B_("P14,P13", 0, reply_history, R, P, B, E, S), B_("P15,P13", 0, replaces, R, P, B, E, S)
#define PUB(R, P, B, E, S)                                                                                             \
  B_("P10,P11,P12,P13", 0, processes, R, P, B, E, S), B_("P10", 0, process_dropped, R, P, B, E, S), B_("P13", 0, sizes, R, P, B, E, S), \
      B_("P10,P11,P12,P13,P14", 2, random, R, P, B, E, S)
#define FT(R, B, E, S) B_("P15", 0, replace_ftors, R, ANY, B, E, S)
#define ONE(R, P, B, E, S) INV(R, P, B, E, S) PUB(R, P, B, E, S)
#define FOUR(R, E, S) ONE(R, ANY, single, E, S), ONE(R, ANY, double, E, S), ONE(R, WEAK_REFERENCE, single, E, S), ONE(R, WEAK_REFERENCE, double, E, S), FT(R, single, E, S), FT(R, double, E, S)
#define TWO(R, E, S) ONE(R, ANY, single, E, S), ONE(R, WEAK_REFERENCE, double, E, S), FT(R, double, E, S)
#define PER_FORMAT(E, S) FOUR(basic, E, S)
#define HIST4(R, E, S) HIST(R, ANY, single, E, S), HIST(R, ANY, double, E, S), HIST(R, WEAK_REFERENCE, single, E, S), HIST(R, WEAK_REFERENCE, double, E, S)
#define HIST2(R, E, S) HIST(R, ANY, single, E, S), HIST(R, WEAK_REFERENCE, double, E, S)

VP_TABLE(VP_FORMATS(PER_FORMAT), TWO(arrays, LITTLE, TWOS_COMPLEMENT), TWO(arrays, BIG, SIGNED_MAGNITUDE), TWO(exts, LITTLE, ONES_COMPLEMENT), TWO(exts, BIG, TWOS_COMPLEMENT), B_("P07", 0, processes, exts, ANY, single, LITTLE, SIGNED_MAGNITUDE),
         B_("P07", 0, processes, exts, WEAK_REFERENCE, double, BIG, TWOS_COMPLEMENT), B_("P07", 0, sizes, exts, WEAK_REFERENCE, double, BIG, TWOS_COMPLEMENT), B_("P07", 0, sizes, exts, ANY, single, BIG, TWOS_COMPLEMENT),
         TWO(resp, LITTLE, TWOS_COMPLEMENT), TWO(resp, BIG, OFFSET_BINARY), TWO(reqs, LITTLE, SIGNED_MAGNITUDE), TWO(reqs, BIG, TWOS_COMPLEMENT),
         TWO(only, LITTLE, TWOS_COMPLEMENT), TWO(only, BIG, ONES_COMPLEMENT), TWO(many, LITTLE, OFFSET_BINARY), TWO(mute, LITTLE, TWOS_COMPLEMENT), TWO(mute, BIG, SIGNED_MAGNITUDE),
         HIST2(basic, LITTLE, TWOS_COMPLEMENT), HIST2(resp, BIG, SIGNED_MAGNITUDE), HIST2(reqs, BIG, SIGNED_MAGNITUDE), HIST2(only, BIG, SIGNED_MAGNITUDE), HIST2(mute, BIG, SIGNED_MAGNITUDE)
#ifndef VP_QUICK
         , HIST4(basic, BIG, SIGNED_MAGNITUDE), HIST4(basic, BIG, OFFSET_BINARY), HIST4(basic, LITTLE, ONES_COMPLEMENT), HIST2(arrays, LITTLE, SIGNED_MAGNITUDE), HIST2(arrays, BIG, TWOS_COMPLEMENT),
         HIST2(exts, LITTLE, TWOS_COMPLEMENT), HIST2(exts, BIG, ONES_COMPLEMENT)
#endif
)
