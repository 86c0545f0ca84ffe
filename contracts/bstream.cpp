// P16: every stream form of buffered dispatchers.
#include "c_buffered.hpp"

using namespace ring;

#define F_(W, R, P, B, K, E, S) {"P16", #B "." #W "<" #R "," #P "," #K "," #E "," #S ">", 0, &buf_forms<R<endianess::E, signed_mode::S>, action_features::P, upd::B##_buffered_dispatcher, K>::W}
#define G_(R, P, B, K, E, S) F_(pairs, R, P, B, K, E, S), F_(reads, R, P, B, K, E, S), F_(writes, R, P, B, K, E, S), F_(replies, R, P, B, K, E, S)
#define FORMAT(E, S)                                                                                                   \
  G_(basic, ANY, single, 0, E, S), G_(basic, WEAK_REFERENCE, double, 0, E, S), G_(basic, ANY, double, 2, E, S), G_(basic, WEAK_REFERENCE, single, 3, E, S), \
      G_(arrays, ANY, double, 0, E, S), G_(arrays, WEAK_REFERENCE, single, 1, E, S), G_(arrays, ANY, single, 3, E, S), G_(exts, WEAK_REFERENCE, double, 0, E, S)

VP_TABLE(FORMAT(LITTLE, TWOS_COMPLEMENT), FORMAT(BIG, SIGNED_MAGNITUDE))
