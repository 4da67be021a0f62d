#pragma once
#include "seal/modulus.h"
namespace seal::util {
inline std::uint64_t multiply_uint_mod(std::uint64_t a, std::uint64_t b, const Modulus& m) { return (std::uint64_t)((unsigned __int128)a * b % m.value()); }
inline std::uint64_t exponentiate_uint_mod(std::uint64_t a, std::uint64_t e, const Modulus& m) {
  std::uint64_t r = 1 % m.value();
  for (; e; e >>= 1) { if (e & 1) r = multiply_uint_mod(r, a, m); a = multiply_uint_mod(a, a, m); }
  return r;
}
inline std::uint64_t div2_uint_mod(std::uint64_t a, const Modulus& m) { return a & 1 ? (std::uint64_t)(((unsigned __int128)a + m.value()) >> 1) : a >> 1; }
inline bool try_invert_uint_mod(std::uint64_t v, const Modulus& m, std::uint64_t& r) {
  __int128 a = v % m.value(), b = m.value(), x = 1, y = 0;
  if (!a) return false;
  while (b) { __int128 q = a / b, t = a - q * b; a = b; b = t; t = x - q * y; x = y; y = t; }
  if (a != 1) return false;
  x %= (__int128)m.value(); if (x < 0) x += m.value();
  r = (std::uint64_t)x; return true;
}
}  // namespace seal::util
