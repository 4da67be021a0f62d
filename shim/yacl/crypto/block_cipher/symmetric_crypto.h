#pragma once
#include <cstring>
#include "absl/types/span.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/aes/aes_intrinsics.h"
namespace yacl::crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType t, uint128_t key, uint128_t iv = 0) : type_(t), key_(key), iv_(iv) { Init(); }
  SymmetricCrypto(CryptoType t, ByteContainerView key, ByteContainerView iv) : type_(t), key_(0), iv_(0) {
    std::memcpy(&key_, key.data(), 16); if (iv.size() >= 16) std::memcpy(&iv_, iv.data(), 16); Init();
  }
  static constexpr int BlockSize() { return 128 / 8; }
  CryptoType GetType() const { return type_; }
  uint128_t Encrypt(uint128_t in) const { return AesEnc(ek_, in); }
  uint128_t Decrypt(uint128_t in) const { return AesDec(dk_, in); }
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { for (size_t i = 0; i < in.size(); ++i) out[i] = AesEnc(ek_, in[i]); }
  void Decrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { for (size_t i = 0; i < in.size(); ++i) out[i] = AesDec(dk_, in[i]); }
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const {
    for (size_t i = 0; i + 16 <= in.size(); i += 16) { uint128_t v; std::memcpy(&v, in.data() + i, 16); v = AesEnc(ek_, v); std::memcpy(out.data() + i, &v, 16); }
  }
 protected:
  void Init() { AES_set_encrypt_key(key_, &ek_); AES_set_decrypt_key(key_, &dk_); }
  CryptoType type_; uint128_t key_, iv_;
  AES_KEY ek_, dk_;
};
}  // namespace yacl::crypto
