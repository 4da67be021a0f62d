#pragma once
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
enum class PRG_MODE { kNistAesCtrDrbg, kSM4CtrDrbg, kGmtSM4, kAesEcb, kSM4Ecb };
// Deterministic stream from a seed (AES-CTR through OpenSSL).
uint64_t PrgExpand(uint128_t seed, uint64_t counter, void* out, size_t n);
template <class T, size_t B = 128> class Prg {
 public:
  explicit Prg(uint128_t seed = 0, PRG_MODE = PRG_MODE::kAesEcb) : seed_(seed) {}
  Prg(uint128_t seed, uint128_t, PRG_MODE) : seed_(seed) {}
  // batches of B values, as in yacl: the same stream as one long Fill
  T operator()() { if (at_ >= b_.size()) { b_.resize(B); c_ = PrgExpand(seed_, c_, b_.data(), B * sizeof(T)); at_ = 0; } return b_[at_++]; }
  void Fill(absl::Span<T> o) { if (!o.empty()) c_ = PrgExpand(seed_, c_, o.data(), o.size() * sizeof(T)); }
  template <class Y, std::enable_if_t<!std::is_same_v<Y, T>, int> = 0>
  void Fill(absl::Span<Y> o) { if (!o.empty()) c_ = PrgExpand(seed_, c_, o.data(), o.size() * sizeof(Y)); }
  uint128_t Seed() const { return seed_; }
  uint64_t Counter() const { return c_; }
  void SetSeed(uint128_t s) { seed_ = s; Reset(); }
  void Reset() { c_ = 0; b_.clear(); at_ = 0; }
 private:
  uint128_t seed_; uint64_t c_ = 0; std::vector<T> b_; size_t at_ = 0;
};
template <class T> void PrgAesCtr(uint128_t seed, absl::Span<T> o) { PrgExpand(seed, 0, o.data(), o.size() * sizeof(T)); }
template <class T> std::vector<T> PrgAesCtr(uint128_t seed, size_t n) { std::vector<T> v(n); if (n) PrgExpand(seed, 0, v.data(), n * sizeof(T)); return v; }
}  // namespace yacl::crypto
