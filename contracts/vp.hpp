// Contract language shared by the deductive verifier (symbolic) and the native replayer.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C" {
void vp_nondet(void *p, std::size_t n, const char *name);       // an arbitrary value, one word
void vp_nondet_bytes(void *p, std::size_t n, const char *name); // arbitrary independent bytes
void vp_assume(bool c);
void vp_assert(bool c, const char *label);
void vp_cover(const char *label);
std::size_t vp_split(std::size_t v); // complete case split on v (identity)
bool vp_symbolic();
void vp_replace(const void *real, const void *stub); // addresses of function pointer objects
void vp_frame_begin();
void vp_frame_allow(const void *p, std::size_t n);
void vp_frame_end(const char *label);
}

namespace vp {

using fn_t = void (*)();

template<class T>
struct any_impl {
  static T get(const char *name) {
    T x;
    vp_nondet(&x, sizeof(T), name);
    return x;
  }
};
template<>
struct any_impl<bool> {
  static bool get(const char *name) {
    unsigned char x;
    vp_nondet(&x, 1, name);
    if (!vp_symbolic()) x &= 1;
    vp_assume(x < 2);
    return x == 1;
  }
};
//! An arbitrary value of type T (T an integer type)
template<class T>
T any(const char *name) {
  return any_impl<T>::get(name);
}

inline void bytes(unsigned char *p, std::size_t n, const char *name) { vp_nondet_bytes(p, n, name); }

//! An arbitrary value in [lo, hi], with a complete case split
inline std::size_t pick(std::size_t lo, std::size_t hi, const char *name) {
  unsigned short x;
  vp_nondet(&x, sizeof x, name);
  if (!vp_symbolic() && (x < lo || x > hi)) x = static_cast<unsigned short>(lo + x % (hi - lo + 1)); // native search
  vp_assume(x >= lo && x <= hi);
  return vp_split(x);
}

//! Install `Stub` (the contract) in place of `real` for the rest of the check
template<class F, class G>
void replace(F real, G stub) {
  vp_replace(&real, &stub);
}

} // namespace vp

//! A proof unit: properties it belongs to, name, kind and body.
//! kind 0: contract stated on the public API (a failing input found by the prover is replayed natively)
//! kind 1: contract stated on a class invariant (failing states may be unreachable: never replayed, only searched)
//! kind 2: native search only (not a proof unit)
struct vp_unit {
  const char *props;
  const char *name;
  int kind;
  vp::fn_t fn;
};

#define VP_TABLE(...)                                                                                                  \
  extern "C" {                                                                                                         \
  extern const vp_unit vp_table[];                                                                                     \
  extern const unsigned vp_table_size;                                                                                 \
  const vp_unit vp_table[] __attribute__((used)) = {__VA_ARGS__};                                                      \
  const unsigned vp_table_size __attribute__((used)) = sizeof(vp_table) / sizeof(vp_table[0]);                         \
  }
