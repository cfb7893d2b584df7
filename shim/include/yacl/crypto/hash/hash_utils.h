#pragma once
#include <openssl/obj_mac.h>
#include <array>
#include "yacl/base/int128.h"
#include "yacl/crypto/hash/blake3.h"
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
std::array<uint8_t, 32> Sha256(ByteContainerView d);
std::array<uint8_t, 32> Sm3(ByteContainerView d);
std::array<uint8_t, 64> Blake2(ByteContainerView d);
std::array<uint8_t, 32> Blake3(ByteContainerView d);
uint128_t Blake3_128(ByteContainerView d);
}  // namespace yacl::crypto
