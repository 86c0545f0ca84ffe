// P19: Python bindings
#include "c_python.hpp"
#include "pyring.hpp"

#define PY(N, E, S) {"P19", #N "<" #E "," #S ">", 0, &pyb<ring::pyk<endianess::E, signed_mode::S>>::N}
#define FAR(I, N, E, S, ...) {"P19", "far<" #I "," #N "," #E "," #S "," #__VA_ARGS__ ">", 0, &py_far<std::I, N, __VA_ARGS__, endianess::E, signed_mode::S>::run}
#define PER_FORMAT(E, S) PY(keys, E, S), PY(dispatchers, E, S), PY(streams, E, S), PY(unknown, E, S), PY(replaces, E, S)

VP_TABLE(VP_FORMATS(PER_FORMAT)
#ifndef VP_NO_INTERNAL
         , FAR(uint8_t, 255, LITTLE, TWOS_COMPLEMENT, int(short)), FAR(uint16_t, 256, LITTLE, SIGNED_MAGNITUDE, unsigned long long(short, unsigned long long)), FAR(uint16_t, 300, BIG, TWOS_COMPLEMENT, void(long long)),
         FAR(uint16_t, 65535, LITTLE, TWOS_COMPLEMENT, void()), FAR(uint32_t, 0xfedcba98, BIG, ONES_COMPLEMENT, ring::SA3(const ring::SA3 &, bool))
#endif
)
