#pragma once
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
void FillRandBytes(void* p, size_t n);   // simulated entropy
template <class T> T RandScalar() { T v; FillRandBytes(&v, sizeof v); return v; }
inline uint32_t RandU32() { return RandScalar<uint32_t>(); }
inline uint32_t FastRandU32() { return RandU32(); }
inline uint32_t SecureRandU32() { return RandU32(); }
inline uint64_t RandU64(bool = false) { return RandScalar<uint64_t>(); }
inline uint64_t FastRandU64() { return RandU64(); }
inline uint64_t SecureRandU64() { return RandU64(); }
inline uint128_t RandU128(bool = false) { return RandScalar<uint128_t>(); }
inline uint128_t FastRandU128() { return RandU128(); }
inline uint128_t SecureRandU128() { return RandU128(); }
inline uint128_t RandSeed(bool = false) { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
inline uint128_t SecureRandSeed() { return RandU128(); }
inline std::vector<uint8_t> RandBytes(size_t n, bool = false) { std::vector<uint8_t> v(n); FillRandBytes(v.data(), n); return v; }
inline std::vector<uint8_t> FastRandBytes(size_t n) { return RandBytes(n); }
inline std::vector<uint8_t> SecureRandBytes(size_t n) { return RandBytes(n); }
inline void FillRand(char* p, size_t n, bool = false) { FillRandBytes(p, n); }
template <class T = uint128_t> dynamic_bitset<T> RandBits(size_t n, bool = false) {
  dynamic_bitset<T> r(n); auto b = RandBytes((n + 7) / 8); for (size_t i = 0; i < n; ++i) r[i] = (b[i / 8] >> (i % 8)) & 1; return r;
}
template <class T = dynamic_bitset<uint128_t>> auto FastRandBits(size_t n) { return RandBits<uint128_t>(n); }
template <class T = dynamic_bitset<uint128_t>> auto SecureRandBits(size_t n) { return RandBits<uint128_t>(n); }
template <class T> std::vector<T> RandVec(size_t n, bool = false) { std::vector<T> v(n); if (n) FillRandBytes(v.data(), n * sizeof(T)); return v; }
template <class T> std::vector<T> FastRandVec(size_t n) { return RandVec<T>(n); }
template <class T> std::vector<T> SecureRandVec(size_t n) { return RandVec<T>(n); }

// Deterministic generator from (seed, counter): the same pair replays the same
// sequence, as the real one does.
template <class T> class YaclReplayUrbg {
 public:
  using result_type = T;
  YaclReplayUrbg(uint128_t seed, uint64_t ctr) : s_((uint64_t)(seed >> 64) ^ (uint64_t)seed * 0x9E3779B97F4A7C15ull), c_(ctr) {}
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() { uint64_t z = s_ + (++c_) * 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (T)(z ^ (z >> 31)); }
  uint64_t GetCounter() const { return c_; }
 private:
  uint64_t s_, c_;
};
template <class T> class YaclStdUrbg {
 public:
  using result_type = T;
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() { return RandScalar<T>(); }
};
}  // namespace yacl::crypto
