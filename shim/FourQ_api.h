#pragma once
// Stand-in for FourQlib: the ideal group of shim.cc in FourQ's interface.
#include <cstdint>
#include <cstring>
typedef uint64_t digit_t;
typedef digit_t felm_t[2];
typedef felm_t f2elm_t[2];
struct point_affine { f2elm_t x, y; };
typedef point_affine point_t[1];
enum ECCRYPTO_STATUS { ECCRYPTO_SUCCESS = 1, ECCRYPTO_ERROR = 2, ECCRYPTO_ERROR_DURING_TEST, ECCRYPTO_ERROR_UNKNOWN, ECCRYPTO_ERROR_NOT_IMPLEMENTED, ECCRYPTO_ERROR_NO_MEMORY, ECCRYPTO_ERROR_INVALID_PARAMETER };
bool ecc_mul(point_affine* p, digit_t* k, point_affine* q, bool clear_cofactor);
void encode(point_affine* p, unsigned char* out);
ECCRYPTO_STATUS decode(const unsigned char* in, point_affine* p);
void mod1271(felm_t a);
ECCRYPTO_STATUS HashToCurve(f2elm_t r, point_affine* p);
void to_Montgomery(const digit_t* a, digit_t* b);
void from_Montgomery(const digit_t* a, digit_t* b);
void Montgomery_inversion_mod_order(const digit_t* a, digit_t* b);
