#pragma once
#include "seal/util/uintarithsmallmod.h"
namespace seal::util {
inline bool is_primitive_root(std::uint64_t root, std::uint64_t degree, const Modulus& m) {
  return root && exponentiate_uint_mod(root, degree >> 1, m) == m.value() - 1;
}
inline bool try_primitive_root(std::uint64_t degree, const Modulus& m, std::uint64_t& r) {
  std::uint64_t group = m.value() - 1, quotient = group / degree;
  if (group % degree) return false;
  for (std::uint64_t g = 2; g < 2000; ++g) { r = exponentiate_uint_mod(g, quotient, m); if (is_primitive_root(r, degree, m)) return true; }
  return false;
}
inline bool try_minimal_primitive_root(std::uint64_t degree, const Modulus& m, std::uint64_t& r) {
  std::uint64_t root;
  if (!try_primitive_root(degree, m, root)) return false;
  std::uint64_t sq = multiply_uint_mod(root, root, m), cur = root;
  r = root;
  for (std::uint64_t i = 0; i < degree; ++i) { if (cur < r) r = cur; cur = multiply_uint_mod(cur, sq, m); }
  return true;
}
}  // namespace seal::util
