// P07: user-extended types take exactly their declared wire size everywhere (tuples, views over any iterator, slices, arrays,
// invoke; packets, actions and dispatchers are in key.cpp, dispatch.cpp and buffered*.cpp).
#include "c_invoke.hpp"
#include "c_view.hpp"

using S3 = ext::small[3];
using W1 = ext::wide[1];
using N2 = std::array<ext::nested, 2>;
using SS = std::array<std::array<ext::small, 2>, 2>;
using V2 = ext::vec[2];
using O4 = std::array<ext::one, 4>;
using SA = std::array<short, 2>;

#define E_(W, E, S, ...) {"P07", "tuple." #W "<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::W}
#define T_(E, S, ...) E_(sets, E, S, __VA_ARGS__), E_(gets, E, S, __VA_ARGS__), E_(construct, E, S, __VA_ARGS__), E_(sizes, E, S, __VA_ARGS__)
#define V_(M, E, S, W, ...) {"P07", #M "." #W "<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &views<M, endianess::E, signed_mode::S, spec::mkseq<std::tuple_size<std::tuple<__VA_ARGS__>>::value>::type, __VA_ARGS__>::W}
#define VX(M, E, S, ...) V_(M, E, S, bound, __VA_ARGS__), V_(M, E, S, sets, __VA_ARGS__), V_(M, E, S, gets, __VA_ARGS__)
#define MEMS(E, S, ...) VX(raw_mem, E, S, __VA_ARGS__), VX(list_mem, E, S, __VA_ARGS__), VX(rev_mem, E, S, __VA_ARGS__)
#define SL(E, S, F, N, ...) {"P07", "slice<" #E "," #S "," #F "," #N ">(" #__VA_ARGS__ ")", 0, &slice<endianess::E, signed_mode::S, F, N, __VA_ARGS__>}
#define I_(E, S, ...) {"P07", "invoke<" #E "," #S "," #__VA_ARGS__ ">", 0, &inv<endianess::E, signed_mode::S, __VA_ARGS__>::run}, \
  {"P07", "invoke.views<" #E "," #S "," #__VA_ARGS__ ">", 0, &inv<endianess::E, signed_mode::S, __VA_ARGS__>::views}
#define A_(E, S, E2, S2, ...) {"P07", "assign<" #E "," #S " from " #E2 "," #S2 ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::assign_from<endianess::E2, signed_mode::S2>}, \
  {"P07", "assign_view<" #E "," #S " from " #E2 "," #S2 ">(" #__VA_ARGS__ ")", 0, &each<endianess::E, signed_mode::S, __VA_ARGS__>::assign_view<endianess::E2, signed_mode::S2>}

#define L1 char, ext::small, short, ext::wide, int
#define L2 ext::nested, ext::vec, unsigned char, ext::one, ext::nested
#define L3 short, S3, W1, char, N2
#define L4 ext::one, SS, V2, O4, unsigned short
#define PER_FORMAT(E, S)                                                                                               \
  T_(E, S, L1), T_(E, S, L2), T_(E, S, L3), T_(E, S, L4), T_(E, S, ext::small), T_(E, S, ext::wide), MEMS(E, S, L1), MEMS(E, S, L2), MEMS(E, S, L3), \
      SL(E, S, 1, 3, L1), SL(E, S, 3, 2, L2), SL(E, S, 1, 2, L3), SL(E, S, 4, 1, L4),                                   \
      I_(E, S, ext::wide(char, ext::small, const ext::wide &, int)), I_(E, S, short(N2, const S3 &, ext::one)),         \
      I_(E, S, ext::nested(ext::nested, ext::vec, const O4 &, unsigned char))
#define CROSSED(E, S, E2, S2) A_(E, S, E2, S2, L1), A_(E, S, E2, S2, ext::nested, ext::vec, N2, SS)

VP_TABLE(VP_FORMATS(PER_FORMAT), CROSSED(LITTLE, TWOS_COMPLEMENT, BIG, SIGNED_MAGNITUDE), CROSSED(BIG, ONES_COMPLEMENT, LITTLE, OFFSET_BINARY))
