// P06: invoke() passes every decoded field in order, once, and returns the functor's result.
#include "c_invoke.hpp"

using SA = std::array<short, 2>;
using A3 = int[3];
using C4 = char[4];
using SSA = std::array<std::array<short, 2>, 3>;
using S5 = ext::small;

#define I_(W, E, S, ...) {"P06", "invoke." #W "<" #E "," #S "," #__VA_ARGS__ ">", 0, &inv<endianess::E, signed_mode::S, __VA_ARGS__>::W}
#define IV(E, S, ...) I_(run, E, S, __VA_ARGS__), I_(views, E, S, __VA_ARGS__)
#define PER_FORMAT(E, S)                                                                                               \
  IV(E, S, int()), IV(E, S, int(int)), IV(E, S, void(int, int, int)), IV(E, S, unsigned char(signed char, unsigned short, int, long long, bool)),    \
      IV(E, S, long long(const int &, const short &, unsigned char)), IV(E, S, SA(const A3 &, short, const SA &, SA)),    \
      IV(E, S, bool(short, short, short, short, short, short, short, short)),                                           \
      IV(E, S, S5(S5, const ext::wide &, int)), IV(E, S, void(A3 &&, int &&, C4 &&, const C4 &)),                         \
      {"P06", "invoke.refs<" #E "," #S ">", 0, &refs<endianess::E, signed_mode::S>::run}

VP_TABLE(VP_FORMATS(PER_FORMAT), IV(LITTLE, TWOS_COMPLEMENT, unsigned long long(SSA, const SSA &)), IV(BIG, OFFSET_BINARY, SSA(SSA)))
