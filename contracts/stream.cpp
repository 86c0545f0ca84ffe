// P16: every stream form of keys, actions and plain dispatchers behaves as the functor form.
#include "c_stream.hpp"

using namespace ring;

#define KF(W, R, K, E, S) {"P16", "key." #W "<" #R "," #K "," #E "," #S ">", 0, &key_forms<R<endianess::E, signed_mode::S>, K, R<endianess::E, signed_mode::S>::sig<K>>::W}
#define AF(W, E, S, ...) {"P16", "action." #W "<" #E "," #S "," #__VA_ARGS__ ">", 0, &act_forms<endianess::E, signed_mode::S, __VA_ARGS__>::W}
#define DF(W, R, P, K, E, S) {"P16", "dispatcher." #W "<" #R "," #P "," #K "," #E "," #S ">", 0, &disp_forms<R<endianess::E, signed_mode::S>, action_features::P, K>::W}
#define A2(E, S, ...) AF(any_action, E, S, __VA_ARGS__), AF(no_storage, E, S, __VA_ARGS__)
#define D2(R, K, E, S) DF(run, R, ANY, K, E, S), DF(run, R, WEAK_REFERENCE, K, E, S)
#define FORMAT(E, S)                                                                                                   \
  KF(reads, basic, 0, E, S), KF(reads, basic, 2, E, S), KF(reads, arrays, 0, E, S), KF(reads, arrays, 2, E, S), KF(reads, exts, 0, E, S), \
      KF(writes, basic, 0, E, S), KF(writes, basic, 3, E, S), KF(writes, basic, 2, E, S), KF(writes, arrays, 0, E, S), KF(writes, exts, 0, E, S), KF(reads, many, 1, E, S), KF(writes, many, 0, E, S), \
      A2(E, S, int(int)), A2(E, S, void(short)), A2(E, S, void()), A2(E, S, SA(const A3 &, bool)), A2(E, S, bool()), A2(E, S, ext::one(ext::small)), \
      D2(basic, 0, E, S), D2(basic, 2, E, S), D2(basic, 3, E, S), D2(arrays, 1, E, S), DF(looks, basic, ANY, 2, E, S), DF(looks, basic, WEAK_REFERENCE, 0, E, S)

VP_TABLE(FORMAT(LITTLE, TWOS_COMPLEMENT), FORMAT(BIG, SIGNED_MAGNITUDE))
