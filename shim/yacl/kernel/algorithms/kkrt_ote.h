#pragma once
#include <memory>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/base/exception.h"
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
// Ideal batched OPRF.  Every correction batch has a PRF key of its own, which
// travels inside the corrections; so an encoding made before the corrections
// of its instance arrived, or from those of another batch, never matches.
void KkrtPrf(uint128_t key, uint64_t idx, uint128_t item, uint8_t* out, size_t n);
struct IGroupPRF {
  virtual ~IGroupPRF() = default;
  virtual uint64_t Eval(size_t idx, uint128_t in) = 0;
  virtual void Eval(size_t idx, uint128_t in, uint8_t* out, uint64_t n) = 0;
};
class KkrtOtExtSender {
 public:
  void Init(const std::shared_ptr<link::Context>&, const OtRecvStore& s, uint64_t num_ot) {
    YACL_ENFORCE(s.Size() == 512, "KKRT needs 512 base OTs"); keys_.assign(num_ot, 0);
  }
  void SetBatchSize(uint64_t n) { YACL_ENFORCE(n > 0); bs_ = n; }
  uint64_t GetBatchSize() const { return bs_; }
  void RecvCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n) { SetCorrection(ctx->Recv(ctx->NextRank(), "KKRT:RecvCorrection"), n); }
  void SetCorrection(const Buffer& b, uint64_t n) {
    YACL_ENFORCE((uint64_t)b.size() == n * 64, "correction size {} != {}", b.size(), n * 64);
    YACL_ENFORCE(pos_ + n <= keys_.size(), "too many corrections");
    uint128_t k; memcpy(&k, b.data(), 16);
    for (uint64_t i = 0; i < n; ++i) keys_[pos_ + i] = k;
    pos_ += n;
  }
  void Encode(uint64_t idx, uint128_t item, void* out, size_t n) { YACL_ENFORCE(idx < keys_.size(), "no such OT instance {}", idx); KkrtPrf(keys_[idx], idx, item, (uint8_t*)out, n); }
  std::shared_ptr<IGroupPRF> GetOprf() {
    struct P : IGroupPRF { KkrtOtExtSender* s;
      uint64_t Eval(size_t i, uint128_t x) override { uint64_t r; s->Encode(i, x, &r, 8); return r; }
      void Eval(size_t i, uint128_t x, uint8_t* o, uint64_t n) override { s->Encode(i, x, o, n); } };
    auto p = std::make_shared<P>(); p->s = this; return p;
  }
 private:
  std::vector<uint128_t> keys_; uint64_t pos_ = 0, bs_ = 896;
};
class KkrtOtExtReceiver {
 public:
  void Init(const std::shared_ptr<link::Context>&, const OtSendStore& s, uint64_t num_ot);
  void SetBatchSize(uint64_t n) { YACL_ENFORCE(n > 0); bs_ = n; }
  uint64_t GetBatchSize() const { return bs_; }
  void Encode(uint64_t idx, uint128_t item, absl::Span<uint8_t> out) { YACL_ENFORCE(idx < num_, "no such OT instance {}", idx); KkrtPrf(key_, idx, item, out.data(), out.size()); }
  void ZeroEncode(uint64_t idx) { YACL_ENFORCE(idx < num_, "no such OT instance {}", idx); }
  Buffer ShiftCorrection(uint64_t n);
  void SendCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n) { ctx->SendAsync(ctx->NextRank(), ShiftCorrection(n), "KKRT:SendCorrection"); }
 private:
  uint128_t key_ = 0; uint64_t num_ = 0, bs_ = 896;
};
}  // namespace yacl::crypto
