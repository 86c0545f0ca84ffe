// P17: 256 callbacks
#define VP_N 256
#include "c_keyring_big.hpp"
