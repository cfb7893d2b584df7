// Stand-in for Intel IPP multi-buffer X25519: 8 independent X25519 products.
#pragma once
#include <cstdint>
#include <openssl/evp.h>
typedef uint32_t mbx_status;
typedef uint8_t int8u;
inline mbx_status mbx_x25519_mb8(int8u* const out[8], const int8u* const sk[8], const int8u* const pk[8]) {
  mbx_status st = 0;
  for (int i = 0; i < 8; ++i) {
    if (!out[i] || !sk[i] || !pk[i]) { st |= 1u << (4 * i); continue; }
    EVP_PKEY* s = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, sk[i], 32);
    EVP_PKEY* p = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, pk[i], 32);
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(s, nullptr);
    size_t n = 32;
    unsigned char t[32];
    if (EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, p) == 1 && EVP_PKEY_derive(c, t, &n) == 1) __builtin_memcpy(out[i], t, 32);
    else { __builtin_memset(out[i], 0, 32); }
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(s); EVP_PKEY_free(p);
  }
  return st;
}
