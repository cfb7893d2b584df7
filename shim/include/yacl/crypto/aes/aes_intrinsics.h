#pragma once
#include <immintrin.h>
#include <wmmintrin.h>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
struct AES_KEY { __m128i rd_key[11]; unsigned int rounds; };
AES_KEY AES_set_encrypt_key(uint128_t k);
void AES_set_encrypt_key(uint128_t k, AES_KEY* key);
void AES_ecb_encrypt_blks(const AES_KEY& key, absl::Span<const uint128_t> in, absl::Span<uint128_t> out);
void AES_ecb_encrypt_blks(const AES_KEY& key, absl::Span<uint128_t> io);
inline void AES_ecb_encrypt_blks(absl::Span<const uint128_t> in, AES_KEY* key, absl::Span<uint128_t> out) { AES_ecb_encrypt_blks(*key, in, out); }
void AES_set_decrypt_key(uint128_t k, AES_KEY* key);
void AES_ecb_decrypt_blks(const AES_KEY& key, absl::Span<const uint128_t> in, absl::Span<uint128_t> out);
uint128_t AES_ecb_decrypt_blk(const AES_KEY& key, uint128_t in);
uint128_t AES_ecb_encrypt_blk(const AES_KEY& key, uint128_t in);
}  // namespace yacl::crypto
