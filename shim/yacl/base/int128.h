// Stand-in for yacl/base/int128.h (types and helpers only).
#pragma once
#include <cstdint>
#include <ostream>
#include <string>
#include <utility>
#include <limits>
using int128_t = __int128;
using uint128_t = unsigned __int128;
inline std::ostream& operator<<(std::ostream& os, uint128_t x) {
  std::string s; do { s.insert(s.begin(), char('0' + (int)(x % 10))); x /= 10; } while (x); return os << s;
}
inline std::ostream& operator<<(std::ostream& os, int128_t x) {
  if (x < 0) { os << '-'; return os << (uint128_t)0 - (uint128_t)x; } return os << (uint128_t)x;
}
namespace yacl {
constexpr uint128_t MakeUint128(uint64_t hi, uint64_t lo) { return (uint128_t(hi) << 64) | lo; }
constexpr int128_t MakeInt128(int64_t hi, uint64_t lo) { return (int128_t)((uint128_t(uint64_t(hi)) << 64) | lo); }
constexpr uint128_t Uint128Max() { return ~uint128_t(0); }
constexpr uint128_t Uint128Min() { return 0; }
constexpr std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) { return {uint64_t(v >> 64), uint64_t(v)}; }
constexpr std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) { return {int64_t(v >> 64), uint64_t(v)}; }
}  // namespace yacl
