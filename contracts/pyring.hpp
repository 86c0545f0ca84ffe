// Keyring of the Python contracts: callbacks of the global namespace, so that names can be extracted from them
#pragma once
#include "ring.hpp"

using namespace upd;
namespace ring {
using SA3 = std::array<int, 3>;
} // namespace ring
#define VP_PLAIN(N, ...) using vpy_c##N = vcb::fn<N, __VA_ARGS__>;
VP_PLAIN(0, int(int))
VP_PLAIN(1, void(unsigned char))
VP_PLAIN(2, short(short, unsigned char, long long))
VP_PLAIN(3, void())
VP_PLAIN(4, bool())
VP_PLAIN(5, ring::SA3(const ring::SA3 &, short))
VP_PLAIN(6, unsigned long long(unsigned, unsigned long long))
int f0(int x) { return vpy_c0::call(x); }
void f1(unsigned char x) { vpy_c1::call(x); }
short f2(short x, unsigned char y, long long z) { return vpy_c2::call(x, y, z); }
void f3() { vpy_c3::call(); }
bool f4() { return vpy_c4::call(); }
ring::SA3 f5(const ring::SA3 &x, short y) { return vpy_c5::call(x, y); }
unsigned long long f6(unsigned x, unsigned long long y) { return vpy_c6::call(x, y); }

namespace ring {
template<std::size_t K> struct fun;
template<> struct fun<0> { using h = unevaluated<int (*)(int), &f0>; };
template<> struct fun<1> { using h = unevaluated<void (*)(unsigned char), &f1>; };
template<> struct fun<2> { using h = unevaluated<short (*)(short, unsigned char, long long), &f2>; };
template<> struct fun<3> { using h = unevaluated<void (*)(), &f3>; };
template<> struct fun<4> { using h = unevaluated<bool (*)(), &f4>; };
template<> struct fun<5> { using h = unevaluated<SA3 (*)(const SA3 &, short), &f5>; };
template<> struct fun<6> { using h = unevaluated<unsigned long long (*)(unsigned, unsigned long long), &f6>; };

template<endianess E, signed_mode S> struct pyk : of<E, S, int(int), void(unsigned char), short(short, unsigned char, long long), void(), bool(), SA3(const SA3 &, short), unsigned long long(unsigned, unsigned long long)> {
  template<std::size_t K> using h = typename fun<K>::h;
  using keyring_t = keyring<E, S, h<0>, h<1>, h<2>, h<3>, h<4>, h<5>, h<6>>;
  template<std::size_t K> using key_t = typename keyring_t::template key_t<h<K>>;
};
} // namespace ring
