// P17: 255 callbacks
#define VP_N 255
#include "c_keyring_big.hpp"
