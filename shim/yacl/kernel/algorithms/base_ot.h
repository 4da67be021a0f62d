#pragma once
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& ctx, const dynamic_bitset<uint128_t>& choices, uint32_t n);
OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& ctx, uint32_t n);
}  // namespace yacl::crypto
