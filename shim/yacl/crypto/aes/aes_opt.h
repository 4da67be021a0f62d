#pragma once
#include "yacl/base/block.h"
#include "yacl/crypto/aes/aes_intrinsics.h"
namespace yacl::crypto {
template <int N> inline void AES_opt_key_schedule(const uint128_t* u, AES_KEY* k) { for (int i = 0; i < N; ++i) AES_set_encrypt_key(u[i], k + i); }
template <int NK, int NE> inline void ParaEnc(uint128_t* b, AES_KEY* k) { for (int i = 0; i < NK; ++i) for (int j = 0; j < NE; ++j) b[i * NE + j] = AesEnc(k[i], b[i * NE + j]); }
template <int NK, int NE> inline void ParaEnc(__m128i* b, AES_KEY* k) { for (int i = 0; i < NK; ++i) for (int j = 0; j < NE; ++j) b[i * NE + j] = ToM128(AesEnc(k[i], FromM128(b[i * NE + j]))); }
}  // namespace yacl::crypto
