#pragma once
#include <cstring>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/crypto/hash/hash_utils.h"
namespace yacl::crypto {
class RandomOracle {
 public:
  explicit RandomOracle(HashAlgorithm t, size_t n = 16) : t_(t), n_(n) {}
  static RandomOracle& GetDefault() { static RandomOracle r(HashAlgorithm::SHA256, 16); return r; }
  static RandomOracle& GetBlake3() { return GetDefault(); }
  Buffer operator()(ByteContainerView in, size_t n) const { auto h = H(in); YACL_ENFORCE(n <= h.size(), "too long"); return Buffer(h.data(), n); }
  template <class T> T operator()(ByteContainerView in) const { auto h = H(in); T r; std::memcpy(&r, h.data(), sizeof r); return r; }
  template <class T> T Gen(ByteContainerView in) const { auto h = H(in); T r; std::memcpy(&r, h.data(), sizeof r); return r; }
  template <class T> T Gen(ByteContainerView in, uint64_t salt) const {
    SslHash s(t_ == HashAlgorithm::BLAKE3 ? HashAlgorithm::SHA256 : t_); s.Update(in); s.Update(ByteContainerView(&salt, sizeof salt));
    auto h = s.CumulativeHash(); T r; std::memcpy(&r, h.data(), sizeof r); return r;
  }
  template <class T> T Gen(uint128_t x) const { return Gen<T>(ByteContainerView(&x, sizeof x)); }
 private:
  std::vector<uint8_t> H(ByteContainerView in) const { SslHash s(t_ == HashAlgorithm::BLAKE3 ? HashAlgorithm::SHA256 : t_); s.Update(in); return s.CumulativeHash(); }
  HashAlgorithm t_; size_t n_;
};
}  // namespace yacl::crypto
