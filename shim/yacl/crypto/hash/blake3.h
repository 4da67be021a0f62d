#pragma once
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
// Stand-in: SHA-256 with a domain prefix.
class Blake3Hash : public HashInterface {
 public:
  Blake3Hash() : h_(HashAlgorithm::SHA256) { h_.Update("b3"); }
  explicit Blake3Hash(uint64_t n) : Blake3Hash() { n_ = n; }
  HashAlgorithm GetHashAlgorithm() const override { return HashAlgorithm::BLAKE3; }
  size_t DigestSize() const override { return n_; }
  Blake3Hash& Reset() override { h_.Reset(); h_.Update("b3"); return *this; }
  Blake3Hash& Update(ByteContainerView d) override { h_.Update(d); return *this; }
  std::vector<uint8_t> CumulativeHash() const override { auto v = h_.CumulativeHash(); v.resize(n_); return v; }
 private:
  SslHash h_; size_t n_ = 32;
};
}  // namespace yacl::crypto
