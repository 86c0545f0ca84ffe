// Fields, packets and responses of more than 255 bytes.
#include "c_dispatch.hpp"
#include "c_key.hpp"
#include "c_invoke.hpp"
#include "c_stream.hpp"
#include "c_view.hpp"
#include "large.hpp"

using namespace ring;
using I20 = int[20];

#define T_(PR, W, E, S, ...) {PR, #W "<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::W}
#define V_(M, E, S, W, ...) {"P05", #M "." #W "<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &views<M, endianess::E, signed_mode::S, spec::mkseq<std::tuple_size<std::tuple<__VA_ARGS__>>::value>::type, __VA_ARGS__>::W}
#define I_(W, E, S, ...) {"P06", "invoke." #W "<" #E "," #S "," #__VA_ARGS__ ">", 0, &inv<endianess::E, signed_mode::S, __VA_ARGS__>::W}
#define K_(PR, W, R, E, S) {PR, #W "<" #R "," #E "," #S ">", 0, &keys<R<endianess::E, signed_mode::S>>::W}
#define A_(PR, W, E, S, ...) {PR, "action." #W "<" #E "," #S "," #__VA_ARGS__ ">", 0, &act<endianess::E, signed_mode::S, __VA_ARGS__>::W}
#define D_(PR, W, R, P, E, S) {PR, "dispatcher." #W "<" #R "," #P "," #E "," #S ">", 0, &disp<R<endianess::E, signed_mode::S>, action_features::P>::W}

#define TUPLES(E, S, ...) T_("P04", sets, E, S, __VA_ARGS__), T_("P04", gets, E, S, __VA_ARGS__), T_("P04", sizes, E, S, __VA_ARGS__), T_("P04", construct, E, S, __VA_ARGS__)
#define VIEWS(M, E, S, ...) V_(M, E, S, bound, __VA_ARGS__), V_(M, E, S, sets, __VA_ARGS__), V_(M, E, S, gets, __VA_ARGS__)
#define ACTIONS(E, S, ...) A_("P09,P18", from_function, E, S, __VA_ARGS__), A_("P09,P18", from_functor, E, S, __VA_ARGS__), A_("P09,P18", no_storage, E, S, __VA_ARGS__)
#define FORMAT(E, S)                                                                                                   \
  TUPLES(E, S, U300, I20, short), T_("P04", sets, E, S, short, S150, int), VIEWS(raw_mem, E, S, short, U300, int), V_(list_mem, E, S, sets, S150, short), V_(list_mem, E, S, gets, U300, short), VIEWS(rev_mem, E, S, U300, short), \
      I_(run, E, S, U300(const U300 &, short)), I_(views, E, S, U300(U300, int)), K_("P08", packets, large, E, S), K_("P09", responses, large, E, S), \
      ACTIONS(E, S, U300(unsigned char)), ACTIONS(E, S, short(U300, short, const U300 &)), D_("P09", dispatch, large, ANY, E, S), D_("P09", dispatch, large, WEAK_REFERENCE, E, S), \
      D_("P15", replace_static, large, WEAK_REFERENCE, E, S)

#define KF(W, R, K, E, S) {"P16", "key." #W "<" #R "," #K "," #E "," #S ">", 0, &key_forms<R<endianess::E, signed_mode::S>, K, R<endianess::E, signed_mode::S>::sig<K>>::W}
#define AF(W, E, S, ...) {"P16", "action." #W "<" #E "," #S "," #__VA_ARGS__ ">", 0, &act_forms<endianess::E, signed_mode::S, __VA_ARGS__>::W}
#define DF(W, R, P, K, E, S) {"P16", "dispatcher." #W "<" #R "," #P "," #K "," #E "," #S ">", 0, &disp_forms<R<endianess::E, signed_mode::S>, action_features::P, K>::W}
#ifdef VP_QUICK
#define STREAMS(E, S) KF(writes, large, 0, E, S), DF(run, large, WEAK_REFERENCE, 1, E, S)
#else
#define STREAMS(E, S) KF(writes, large, 0, E, S), KF(reads, large, 1, E, S), AF(any_action, E, S, U300(unsigned char)), AF(no_storage, E, S, short(const U300 &)), DF(run, large, ANY, 0, E, S), DF(run, large, WEAK_REFERENCE, 1, E, S)
#endif

VP_TABLE(FORMAT(LITTLE, TWOS_COMPLEMENT), FORMAT(BIG, SIGNED_MAGNITUDE), STREAMS(LITTLE, TWOS_COMPLEMENT), STREAMS(BIG, SIGNED_MAGNITUDE))
