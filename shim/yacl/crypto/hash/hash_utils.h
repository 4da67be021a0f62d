#pragma once
#include <array>
#include "yacl/base/int128.h"
#include "yacl/crypto/hash/blake3.h"
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
std::array<uint8_t, 32> Sha256(ByteContainerView d);
std::array<uint8_t, 32> Sm3(ByteContainerView d);
std::array<uint8_t, 32> Blake3(ByteContainerView d);
std::array<uint8_t, 20> Sha1(ByteContainerView d);
uint128_t Blake3_128(ByteContainerView d);
inline uint128_t Sha256_128(ByteContainerView d) { auto a = Sha256(d); uint128_t r; memcpy(&r, a.data(), 16); return r; }
}  // namespace yacl::crypto
