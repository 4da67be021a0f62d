#pragma once
#include <cstdint>
#include <cstddef>
namespace yacl::math {
inline size_t Log2Floor(uint64_t x) { return x ? 63 - __builtin_clzll(x) : 0; }
inline size_t Log2Ceil(uint64_t x) { return x <= 1 ? 0 : Log2Floor(x - 1) + 1; }
template <class T> T DivCeil(T a, T b) { return (a + b - 1) / b; }
template <class T> T RoundUpTo(T a, T b) { return DivCeil(a, b) * b; }
}  // namespace yacl::math
