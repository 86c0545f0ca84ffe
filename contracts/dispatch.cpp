// P09, P10, P15, P18: actions and plain dispatchers.
#include "c_dispatch.hpp"

using namespace ring;

#define A_(P, W, E, S, ...) {P, "action." #W "<" #E "," #S "," #__VA_ARGS__ ">", 0, &act<endianess::E, signed_mode::S, __VA_ARGS__>::W}
#define ACT(P, E, S, ...)                                                                                              \
  A_("P09,P18" P, from_function, E, S, __VA_ARGS__), A_("P09,P18" P, from_functor, E, S, __VA_ARGS__),                  \
      A_("P09,P18" P, no_storage, E, S, __VA_ARGS__)
#define ACT2(E, S, ...) A_("P09,P18", from_lambda, E, S, __VA_ARGS__), A_("P15", own_copy, E, S, __VA_ARGS__), A_("P09,P18", input_only, E, S, __VA_ARGS__), A_("P09,P15,P18", hook, E, S, __VA_ARGS__), A_("P09,P18", static_hook, E, S, __VA_ARGS__)
#define D_(PR, W, R, P, E, S) {PR, "dispatcher." #W "<" #R "," #P "," #E "," #S ">", 0, &disp<R<endianess::E, signed_mode::S>, action_features::P>::W}
#define D2(PR, W, R, E, S) D_(PR, W, R, ANY, E, S), D_(PR, W, R, WEAK_REFERENCE, E, S)

#define PER_FORMAT(E, S)                                                                                               \
  ACT("", E, S, int(int)), ACT("", E, S, void(short, unsigned char, const long long &)), ACT("", E, S, SA(const A3 &, bool, SA)), \
      ACT(",P07", E, S, ext::wide(ext::small, const ext::nested &)), ACT(",P07", E, S, NA(const EC2 &, ext::one)),      \
      D2("P09", dispatch, basic, E, S), D2("P09", dispatch, arrays, E, S), D2("P09,P07", dispatch, exts, E, S),         \
      D2("P09", lookup, basic, E, S), D2("P10", unknown, basic, E, S), D2("P10", unknown, only, E, S), D2("P09", index, basic, E, S), \
      D2("P09", trips, basic, E, S), D2("P09", trips, arrays, E, S), D2("P09,P07", trips, exts, E, S)
#define SOME(E, S)                                                                                                     \
  ACT2(E, S, int(int)), ACT2(E, S, void(const A3 &)), ACT2(E, S, SA(short, bool)), ACT2(E, S, bool()),                  \
      ACT("", E, S, void()), ACT("", E, S, LA4()), ACT("", E, S, unsigned char(LA4)), ACT("", E, S, void(A3 &&, int &&, char)), ACT("", E, S, int(signed char, unsigned short, int, long long, bool, char)), \
      D2("P09", dispatch, only, E, S), D2("P09", dispatch, many, E, S), D2("P09", trips, many, E, S), ACT("", E, S, char16_t(char32_t, wchar_t, char16_t, unsigned long, long, unsigned long long)), D2("P09", dispatch, resp, E, S), D2("P09", dispatch, reqs, E, S), D2("P09", dispatch, mute, E, S), \
      D2("P09", lookup, arrays, E, S), D2("P09", pairs, basic, E, S), D2("P10", unknown, mute, E, S),                   \
      D2("P15", replace_static, basic, E, S), D_("P15", replace_any, basic, ANY, E, S), D2("P15", replace_static, arrays, E, S), \
      D_("P15", replace_any, arrays, ANY, E, S), D2("P15", replace_two, basic, E, S), D2("P15", replace_static, only, E, S), D_("P15", replace_any, resp, ANY, E, S)

VP_TABLE(VP_FORMATS(PER_FORMAT), SOME(LITTLE, TWOS_COMPLEMENT), SOME(BIG, SIGNED_MAGNITUDE), {"P18", "action.empty", 0, &empty_action})
