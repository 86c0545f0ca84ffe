// P08: request packets. P09: reading responses.
#include "c_key.hpp"

using namespace upd;

#define KP(P, R, E, S) {P, "packets<" #R "," #E "," #S ">", 0, &keys<ring::R<endianess::E, signed_mode::S>>::packets}
#define KR(P, R, E, S) {P, "responses<" #R "," #E "," #S ">", 0, &keys<ring::R<endianess::E, signed_mode::S>>::responses}
#define KB(R, E, S) KP("P08,P03", R, E, S), KR("P09,P03", R, E, S)
#define KX(R, E, S) KP("P08,P07", R, E, S), KR("P09,P07", R, E, S)
#define PER_FORMAT(E, S) KB(basic, E, S), KB(arrays, E, S), KX(exts, E, S), KP("P08", resp, E, S), KP("P08", reqs, E, S), KP("P08", only, E, S), KP("P08", many, E, S), KR("P09", many, E, S), \
      {"P08,P03", "far<byte," #E "," #S ">", 0, &far<endianess::E, signed_mode::S, std::uint8_t>::bytes}, {"P08,P03", "far<word," #E "," #S ">", 0, &far<endianess::E, signed_mode::S, std::uint16_t>::words}

VP_TABLE(VP_FORMATS(PER_FORMAT))
