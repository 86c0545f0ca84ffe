// P04: packed, isolated, recoverable tuple fields.
#include "c_tuple.hpp"

using A3 = int[3];
using A2 = unsigned long long[2];
using SA = std::array<short, 2>;
using SSA = std::array<std::array<short, 2>, 3>;
using B200 = unsigned char[200];
using I20 = int[20];
using W2 = wchar_t[2];

#define LISTS(M, E, S)                                                                                                 \
  M(E, S, char), M(E, S, bool, unsigned char, short, unsigned, long long), M(E, S, long long, bool, int, signed char), \
      M(E, S, A3, char, SA, A2), M(E, S, unsigned short, SSA, int, bool),                                              \
      M(E, S, signed char, short, int, long, long long, unsigned char, unsigned short, unsigned, unsigned long, bool, char, unsigned long long)
#define BIGL(M, E, S) M(E, S, B200, I20, short), M(E, S, short, B200, unsigned)
#define CHRL(M, E, S) M(E, S, wchar_t, char16_t, W2, char32_t)
#define EXTL(M, E, S) M(E, S, ext::small, char, ext::wide, ext::nested), M(E, S, short, ext::vec, ext::one, int)

#define SG(E, S, ...)                                                                                                  \
  {"P04,P03", "set<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::sets},          \
      {"P04,P03", "get<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::gets}
#define FS(E, S, ...) {"P04", "free_set<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::free_sets}
#define SZ(E, S, ...) {"P04", "sizes<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::sizes}
#define CT(E, S, ...) {"P04", "construct<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::construct}
#define MK(E, S, ...) {"P04", "make<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::make}
#define AF_(E, S, E2, S2, ...)                                                                                         \
  {"P04", "assign<" #E "," #S " from " #E2 "," #S2 ">(" #__VA_ARGS__ ")", 0,                                           \
   &each<endianess::E, signed_mode::S, __VA_ARGS__>::assign_from<endianess::E2, signed_mode::S2>},                     \
  {"P04,P05", "assign_view<" #E "," #S " from " #E2 "," #S2 ">(" #__VA_ARGS__ ")", 0,                                      \
   &each<endianess::E, signed_mode::S, __VA_ARGS__>::assign_view<endianess::E2, signed_mode::S2>}
#define AF(E, S, E2, S2)                                                                                               \
  AF_(E, S, E2, S2, bool, unsigned char, short, unsigned, long long),                                                  \
  AF_(E, S, E2, S2, SA, char, ext::small, SSA),                                                                        \
  {"P04", "convert<" #E "," #S " from " #E2 "," #S2 ">", 0, &convert<endianess::E, signed_mode::S, endianess::E2, signed_mode::S2>}

#define PER_FORMAT(E, S)                                                                                               \
  LISTS(SG, E, S), LISTS(SZ, E, S), LISTS(CT, E, S), LISTS(FS, E, S), EXTL(SG, E, S), EXTL(CT, E, S), EXTL(SZ, E, S),  \
      MK(E, S, long long, bool, int, signed char), MK(E, S, SA, short, SSA, ext::nested)

VP_TABLE(VP_FORMATS(PER_FORMAT),
         BIGL(SG, LITTLE, TWOS_COMPLEMENT), BIGL(SG, BIG, OFFSET_BINARY), BIGL(CT, BIG, SIGNED_MAGNITUDE), BIGL(SZ, LITTLE, ONES_COMPLEMENT), CHRL(SG, LITTLE, SIGNED_MAGNITUDE), CHRL(SG, BIG, TWOS_COMPLEMENT), CHRL(CT, BIG, OFFSET_BINARY), CHRL(FS, LITTLE, TWOS_COMPLEMENT),
         AF(LITTLE, TWOS_COMPLEMENT, BIG, SIGNED_MAGNITUDE), AF(BIG, ONES_COMPLEMENT, LITTLE, OFFSET_BINARY),
         AF(LITTLE, SIGNED_MAGNITUDE, LITTLE, TWOS_COMPLEMENT), AF(BIG, OFFSET_BINARY, BIG, ONES_COMPLEMENT),
         AF(BIG, TWOS_COMPLEMENT, LITTLE, TWOS_COMPLEMENT), AF(LITTLE, ONES_COMPLEMENT, BIG, ONES_COMPLEMENT)
         BINDINGS)
