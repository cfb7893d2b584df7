#pragma once
#include <cstdint>
#include <cstring>
typedef uint64_t digit_t;
typedef digit_t felm_t[2];
typedef felm_t f2elm_t[2];
typedef struct { f2elm_t x; f2elm_t y; } point_affine;
typedef point_affine point_t[1];
typedef enum {
  ECCRYPTO_ERROR, ECCRYPTO_SUCCESS, ECCRYPTO_ERROR_DURING_TEST, ECCRYPTO_ERROR_UNKNOWN,
  ECCRYPTO_ERROR_NOT_IMPLEMENTED, ECCRYPTO_ERROR_NO_MEMORY, ECCRYPTO_ERROR_INVALID_PARAMETER,
  ECCRYPTO_ERROR_SHARED_KEY, ECCRYPTO_ERROR_SIGNATURE_VERIFICATION, ECCRYPTO_ERROR_HASH_TO_CURVE,
} ECCRYPTO_STATUS;
bool ecc_mul(point_t P, digit_t* k, point_t Q, bool clear_cofactor);
void encode(point_t P, unsigned char* out);
ECCRYPTO_STATUS decode(const unsigned char* in, point_t P);
void mod1271(felm_t a);
ECCRYPTO_STATUS HashToCurve(f2elm_t r, point_t P);
void to_Montgomery(const digit_t* a, digit_t* out);
void from_Montgomery(const digit_t* a, digit_t* out);
void Montgomery_inversion_mod_order(const digit_t* a, digit_t* out);
void modulo_order(digit_t* a, digit_t* out);
