#pragma once
#include <memory>
#include "openssl/evp.h"
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto {
class SslHash : public HashInterface {
 public:
  explicit SslHash(HashAlgorithm a);
  SslHash(const SslHash& o);
  ~SslHash() override;
  HashAlgorithm GetHashAlgorithm() const override { return a_; }
  size_t DigestSize() const override { return n_; }
  SslHash& Reset() override;
  SslHash& Update(ByteContainerView d) override;
  std::vector<uint8_t> CumulativeHash() const override;
 private:
  HashAlgorithm a_; EVP_MD_CTX* c_ = nullptr; size_t n_ = 0;
};
class Sha256Hash : public SslHash { public: Sha256Hash() : SslHash(HashAlgorithm::SHA256) {} };
class Sm3Hash : public SslHash { public: Sm3Hash() : SslHash(HashAlgorithm::SM3) {} };
}  // namespace yacl::crypto
