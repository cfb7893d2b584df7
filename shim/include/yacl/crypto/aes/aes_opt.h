#pragma once
#include "yacl/crypto/aes/aes_intrinsics.h"
namespace yacl::crypto {
template <int NumKeys>
void AES_opt_key_schedule(uint128_t* user_key, AES_KEY* keys) {
  for (int i = 0; i < NumKeys; ++i) keys[i] = AES_set_encrypt_key(user_key[i]);
}
template <int numKeys, int numEncs>
void ParaEnc(uint128_t* blks, AES_KEY* keys) {
  for (int i = 0; i < numKeys; ++i)
    for (int j = 0; j < numEncs; ++j) blks[i * numEncs + j] = AES_ecb_encrypt_blk(keys[i], blks[i * numEncs + j]);
}
}  // namespace yacl::crypto
