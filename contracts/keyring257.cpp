// P17: 257 callbacks
#define VP_N 257
#include "c_keyring_big.hpp"
