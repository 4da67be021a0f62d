#pragma once
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
enum class CodeType { Silver5, Silver11, ExAcc7, ExAcc11, ExAcc21, ExAcc40, ExConv7x24, ExConv21x24 };
// Ideal VOLE: c = b ^ delta * a.
class SilentVoleSender {
 public:
  explicit SilentVoleSender(CodeType, bool = false);
  void Send(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> c);
  void SfSend(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> c);
  uint128_t GetDelta() const { return delta_; }
 private:
  uint128_t delta_;
};
class SilentVoleReceiver {
 public:
  explicit SilentVoleReceiver(CodeType, bool = false) {}
  void Recv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> a, absl::Span<uint128_t> b);
  void SfRecv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint64_t> a, absl::Span<uint128_t> b);
};
}  // namespace yacl::crypto
