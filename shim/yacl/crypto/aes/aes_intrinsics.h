#pragma once
#include <emmintrin.h>
#include <wmmintrin.h>
#include <array>
#include <cstring>
#include <type_traits>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
typedef __m128i aes_block;
struct AES_KEY { __m128i rd_key[11]; unsigned rounds = 10; };
template <int R> inline __m128i AesKeyStep(__m128i k) {
  __m128i g = _mm_shuffle_epi32(_mm_aeskeygenassist_si128(k, R), 0xff);
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4)); k = _mm_xor_si128(k, _mm_slli_si128(k, 4)); k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  return _mm_xor_si128(k, g);
}
inline __m128i ToM128(uint128_t v) { return _mm_set_epi64x((uint64_t)(v >> 64), (uint64_t)v); }
inline uint128_t FromM128(__m128i v) { uint128_t r; std::memcpy(&r, &v, 16); return r; }
inline AES_KEY AES_set_encrypt_key(const uint128_t u, AES_KEY* k) {
  __m128i* r = k->rd_key; r[0] = ToM128(u);
  r[1] = AesKeyStep<1>(r[0]); r[2] = AesKeyStep<2>(r[1]); r[3] = AesKeyStep<4>(r[2]); r[4] = AesKeyStep<8>(r[3]); r[5] = AesKeyStep<16>(r[4]);
  r[6] = AesKeyStep<32>(r[5]); r[7] = AesKeyStep<64>(r[6]); r[8] = AesKeyStep<128>(r[7]); r[9] = AesKeyStep<0x1b>(r[8]); r[10] = AesKeyStep<0x36>(r[9]);
  k->rounds = 10; return *k;
}
inline void AES_set_decrypt_key(const uint128_t u, AES_KEY* k) {
  AES_KEY e; AES_set_encrypt_key(u, &e);
  k->rd_key[0] = e.rd_key[10]; for (int i = 1; i < 10; ++i) k->rd_key[i] = _mm_aesimc_si128(e.rd_key[10 - i]); k->rd_key[10] = e.rd_key[0]; k->rounds = 10;
}
inline uint128_t AesEnc(const AES_KEY& k, uint128_t in) {
  __m128i s = _mm_xor_si128(ToM128(in), k.rd_key[0]); for (int i = 1; i < 10; ++i) s = _mm_aesenc_si128(s, k.rd_key[i]); return FromM128(_mm_aesenclast_si128(s, k.rd_key[10]));
}
inline uint128_t AesDec(const AES_KEY& k, uint128_t in) {
  __m128i s = _mm_xor_si128(ToM128(in), k.rd_key[0]); for (int i = 1; i < 10; ++i) s = _mm_aesdec_si128(s, k.rd_key[i]); return FromM128(_mm_aesdeclast_si128(s, k.rd_key[10]));
}
inline void AES_ecb_encrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) { for (size_t i = 0; i < in.size(); ++i) out[i] = AesEnc(k, in[i]); }
inline void AES_ecb_decrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) { for (size_t i = 0; i < in.size(); ++i) out[i] = AesDec(k, in[i]); }
}  // namespace yacl::crypto
using yacl::crypto::AES_set_encrypt_key;
using yacl::crypto::AES_set_decrypt_key;
using yacl::crypto::AES_ecb_encrypt_blks;
using yacl::crypto::AES_ecb_decrypt_blks;
