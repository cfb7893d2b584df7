// Functional stand-in: the sender draws the pads and transfers both in clear;
// correctness contract (receiver ends with pad[choice]) is that of base OT.
#pragma once
#include "yacl/crypto/rand/rand.h"
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& ctx, const dynamic_bitset<uint128_t>& choices, uint32_t num_ot);
OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& ctx, uint32_t num_ot);
}  // namespace yacl::crypto
