#pragma once
#include <cstdint>
namespace seal::util {
template <class T> inline T reverse_bits(T x, int bits) { T r = 0; for (int i = 0; i < bits; ++i) { r = r << 1 | (x & 1); x >>= 1; } return r; }
}  // namespace seal::util
