#pragma once
#include <cstdint>
#include <memory>
#include <vector>
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
// Ideal OT instances: what they carry is irrelevant to the ideal KKRT.
class OtRecvStore { public: explicit OtRecvStore(size_t n = 0) : n_(n) {} size_t Size() const { return n_; } private: size_t n_; };
class OtSendStore { public: explicit OtSendStore(size_t n = 0) : n_(n) {} size_t Size() const { return n_; } private: size_t n_; };
}  // namespace yacl::crypto
