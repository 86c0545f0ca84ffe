// P05: views alias exactly the bytes they are bound to.
#include "c_view.hpp"

using SA = std::array<short, 2>;
using A3 = int[3];
using A2 = unsigned long long[2];
using SSA = std::array<std::array<short, 2>, 3>;

#define V_(M, E, S, W, ...) {"P05", #M "." #W "<" #E "," #S ">(" #__VA_ARGS__ ")", 0, &views<M, endianess::E, signed_mode::S, spec::mkseq<std::tuple_size<std::tuple<__VA_ARGS__>>::value>::type, __VA_ARGS__>::W}
#define VX(M, E, S, ...) V_(M, E, S, bound, __VA_ARGS__), V_(M, E, S, sets, __VA_ARGS__), V_(M, E, S, gets, __VA_ARGS__)
#define MEMS(M_, E, S, ...) M_(raw_mem, E, S, __VA_ARGS__), M_(list_mem, E, S, __VA_ARGS__), M_(rev_mem, E, S, __VA_ARGS__)
#define ASG(M, E, S, ...) V_(M, E, S, assign, __VA_ARGS__), V_(M, E, S, free_sets, __VA_ARGS__)
#if __cplusplus >= 201703L
#define BND(M, E, S, ...) , V_(M, E, S, bindings, __VA_ARGS__)
#else
#define BND(M, E, S, ...)
#endif
#define SL(E, S, F, N, ...) {"P05", "slice<" #E "," #S "," #F "," #N ">(" #__VA_ARGS__ ")", 0, &slice<endianess::E, signed_mode::S, F, N, __VA_ARGS__>}
#define L5 bool, unsigned char, short, unsigned, long long
#define LA SA, char, A3, unsigned short
#define SL5(E, S, ...)                                                                                                 \
  SL(E, S, 0, 1, __VA_ARGS__), SL(E, S, 0, 3, __VA_ARGS__), SL(E, S, 0, 5, __VA_ARGS__), SL(E, S, 1, 1, __VA_ARGS__), SL(E, S, 1, 3, __VA_ARGS__),      \
      SL(E, S, 1, 4, __VA_ARGS__), SL(E, S, 2, 2, __VA_ARGS__), SL(E, S, 3, 2, __VA_ARGS__), SL(E, S, 4, 1, __VA_ARGS__)
#define PER_FORMAT(E, S)                                                                                               \
  MEMS(VX, E, S, L5), MEMS(ASG, E, S, L5), MEMS(VX, E, S, LA), SL5(E, S, L5), SL(E, S, 0, 2, LA), SL(E, S, 1, 2, LA), SL(E, S, 2, 2, LA)             \
      BND(raw_mem, E, S, L5) BND(list_mem, E, S, L5)

VP_TABLE(VP_FORMATS(PER_FORMAT), MEMS(VX, LITTLE, TWOS_COMPLEMENT, SSA, A2, char), MEMS(VX, BIG, ONES_COMPLEMENT, SSA, A2, char), 
         MEMS(VX, BIG, TWOS_COMPLEMENT, long long), MEMS(VX, LITTLE, SIGNED_MAGNITUDE, signed char),
         SL5(LITTLE, OFFSET_BINARY, A2, ext::small, char, ext::wide, SA), SL5(BIG, SIGNED_MAGNITUDE, A2, ext::small, char, ext::wide, SA))
