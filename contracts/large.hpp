// Keyring of packets and responses of more than 255 bytes
#pragma once
#include "ring.hpp"

namespace ring {
using U300 = std::array<unsigned char, 300>;
using S150 = std::array<short, 150>;
template<endianess E, signed_mode S> using large = of<E, S, short(const U300 &, int), U300(unsigned char)>;
} // namespace ring
