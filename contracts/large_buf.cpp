// Buffered dispatchers with packets and responses of more than 255 bytes.
#include "c_buffered.hpp"
#include "large.hpp"

using namespace ring;

#define B_(PR, KIND, W, R, P, B, E, S) {PR, #B "." #W "<" #R "," #P "," #E "," #S ">", KIND, &buf<R<endianess::E, signed_mode::S>, action_features::P, upd::B##_buffered_dispatcher>::W}
#if !defined(VP_NO_INTERNAL) && !defined(VP_QUICK)
#define INV(R, P, B, E, S)                                                                                             \
  B_("P10,P11,P12,P13", 1, put_step, R, P, B, E, S), B_("P10,P11,P12,P13", 1, read_step, R, P, B, E, S), \
      B_("P11,P12,P13", 1, get_step, R, P, B, E, S), B_("P11,P12,P13", 1, write_step, R, P, B, E, S), B_("P10,P11,P12,P13", 1, process_step, R, P, B, E, S), \
      B_("P14,P12,P13", 1, reply_step, R, P, B, E, S),
#else
#define INV(R, P, B, E, S)
#endif
#define BUF(R, P, B, E, S)                                                                                             \
  INV(R, P, B, E, S) B_("P10,P11,P12,P13", 0, processes, R, P, B, E, S), B_("P10", 0, process_dropped, R, P, B, E, S), B_("P13", 0, sizes, R, P, B, E, S), \
      B_("P10,P11,P12,P13", 0, history, R, P, B, E, S), B_("P14,P13", 0, reply_history, R, P, B, E, S), B_("P10,P11,P12,P13,P14", 2, random, R, P, B, E, S)

#define F_(W, R, P, B, K, E, S) {"P16", #B "." #W "<" #R "," #P "," #K "," #E "," #S ">", 0, &buf_forms<R<endianess::E, signed_mode::S>, action_features::P, upd::B##_buffered_dispatcher, K>::W}
#ifdef VP_QUICK
#define G_(R, P, B, K, E, S) F_(reads, R, P, B, K, E, S), F_(writes, R, P, B, K, E, S)
#else
#define G_(R, P, B, K, E, S) F_(pairs, R, P, B, K, E, S), F_(reads, R, P, B, K, E, S), F_(writes, R, P, B, K, E, S), F_(replies, R, P, B, K, E, S)
#endif

VP_TABLE(BUF(large, WEAK_REFERENCE, double, LITTLE, TWOS_COMPLEMENT), BUF(large, ANY, single, BIG, SIGNED_MAGNITUDE), G_(large, WEAK_REFERENCE, double, 0, LITTLE, TWOS_COMPLEMENT), G_(large, ANY, single, 1, BIG, SIGNED_MAGNITUDE))
