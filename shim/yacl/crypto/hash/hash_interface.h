#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
namespace yacl::crypto {
enum class HashAlgorithm : int { UNKNOWN, SHA224, SHA256, SHA384, SHA512, SHA_1, SM3, BLAKE2B, BLAKE3 };
inline auto format_as(HashAlgorithm a) { return static_cast<int>(a); }
class HashInterface {
 public:
  virtual ~HashInterface() = default;
  virtual HashAlgorithm GetHashAlgorithm() const = 0;
  virtual size_t DigestSize() const = 0;
  virtual HashInterface& Reset() = 0;
  virtual HashInterface& Update(ByteContainerView data) = 0;
  virtual std::vector<uint8_t> CumulativeHash() const = 0;
};
}  // namespace yacl::crypto
template <> struct fmt::formatter<yacl::crypto::HashAlgorithm> : fmt::formatter<int> {
  template <class C> auto format(yacl::crypto::HashAlgorithm a, C& c) const { return fmt::formatter<int>::format((int)a, c); }
};
