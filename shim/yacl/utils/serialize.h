#pragma once
#include <cstring>
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
namespace yacl {
inline Buffer SerializeInt128(int128_t v) { return Buffer(&v, sizeof v); }
inline int128_t DeserializeInt128(ByteContainerView b) { YACL_ENFORCE(b.size() == 16); int128_t v; std::memcpy(&v, b.data(), 16); return v; }
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, sizeof v); }
inline uint128_t DeserializeUint128(ByteContainerView b) { YACL_ENFORCE(b.size() == 16); uint128_t v; std::memcpy(&v, b.data(), 16); return v; }
}  // namespace yacl
