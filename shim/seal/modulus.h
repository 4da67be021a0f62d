// Stand-in for the parts of Microsoft SEAL's word arithmetic that the spiral
// sources use (SEAL is not installed).
#pragma once
#include <array>
#include <cstdint>
#include <stdexcept>
namespace seal {
class Modulus {
 public:
  Modulus(std::uint64_t v = 0) : value_(v) {
    if (v == 1 || v >> 61) throw std::invalid_argument("value can be at most 61-bit and cannot be 1");
    if (!v) return;
    bits_ = 64 - __builtin_clzll(v);
    // floor(2^128 / v), and the remainder
    unsigned __int128 all = ~(unsigned __int128)0;
    unsigned __int128 q = all / v, r = all % v + 1;
    if (r == v) { ++q; r = 0; }
    ratio_ = {(std::uint64_t)q, (std::uint64_t)(q >> 64), (std::uint64_t)r};
  }
  std::uint64_t value() const { return value_; }
  int bit_count() const { return bits_; }
  const std::array<std::uint64_t, 3>& const_ratio() const { return ratio_; }
  bool is_zero() const { return value_ == 0; }
  bool operator==(const Modulus& o) const { return value_ == o.value_; }
  bool operator!=(const Modulus& o) const { return value_ != o.value_; }
 private:
  std::uint64_t value_ = 0;
  int bits_ = 0;
  std::array<std::uint64_t, 3> ratio_{};
};
}  // namespace seal
