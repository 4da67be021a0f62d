#pragma once
#include <cstdint>
namespace seal::util {
template <class T> inline void multiply_uint64_hw64(T a, std::uint64_t b, unsigned long long* hw) { *hw = (unsigned long long)(((unsigned __int128)a * b) >> 64); }
template <class T> inline void multiply_uint64(T a, std::uint64_t b, unsigned long long* r) { unsigned __int128 p = (unsigned __int128)a * b; r[0] = (unsigned long long)p; r[1] = (unsigned long long)(p >> 64); }
template <class R> inline unsigned char add_uint64(std::uint64_t a, std::uint64_t b, R* r) { *r = a + b; return (std::uint64_t)*r < a; }
// numerator (3 words) := numerator mod d, quotient (3 words)
inline void divide_uint192_inplace(std::uint64_t* n, std::uint64_t d, std::uint64_t* q) {
  unsigned __int128 r = 0;
  for (int i = 2; i >= 0; --i) {
    std::uint64_t w = 0;
    for (int b = 63; b >= 0; --b) { r = r << 1 | (n[i] >> b & 1); if (r >= d) { r -= d; w |= 1ull << b; } }
    q[i] = w;
  }
  n[0] = (std::uint64_t)r; n[1] = n[2] = 0;
}
}  // namespace seal::util
