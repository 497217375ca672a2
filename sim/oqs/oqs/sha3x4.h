/* Stand-in for liboqs: four-lane incremental SHAKE. */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef struct { void* ctx; } OQS_SHA3_shake128_x4_inc_ctx;
void OQS_SHA3_shake128_x4_inc_init(OQS_SHA3_shake128_x4_inc_ctx* s);
void OQS_SHA3_shake128_x4_inc_absorb(OQS_SHA3_shake128_x4_inc_ctx* s, const uint8_t* in0, const uint8_t* in1, const uint8_t* in2, const uint8_t* in3, size_t len);
void OQS_SHA3_shake128_x4_inc_finalize(OQS_SHA3_shake128_x4_inc_ctx* s);
void OQS_SHA3_shake128_x4_inc_squeeze(uint8_t* out0, uint8_t* out1, uint8_t* out2, uint8_t* out3, size_t len, OQS_SHA3_shake128_x4_inc_ctx* s);
void OQS_SHA3_shake128_x4_inc_ctx_clone(OQS_SHA3_shake128_x4_inc_ctx* d, const OQS_SHA3_shake128_x4_inc_ctx* s);
void OQS_SHA3_shake128_x4_inc_ctx_reset(OQS_SHA3_shake128_x4_inc_ctx* s);
void OQS_SHA3_shake128_x4_inc_ctx_release(OQS_SHA3_shake128_x4_inc_ctx* s);
typedef struct { void* ctx; } OQS_SHA3_shake256_x4_inc_ctx;
void OQS_SHA3_shake256_x4_inc_init(OQS_SHA3_shake256_x4_inc_ctx* s);
void OQS_SHA3_shake256_x4_inc_absorb(OQS_SHA3_shake256_x4_inc_ctx* s, const uint8_t* in0, const uint8_t* in1, const uint8_t* in2, const uint8_t* in3, size_t len);
void OQS_SHA3_shake256_x4_inc_finalize(OQS_SHA3_shake256_x4_inc_ctx* s);
void OQS_SHA3_shake256_x4_inc_squeeze(uint8_t* out0, uint8_t* out1, uint8_t* out2, uint8_t* out3, size_t len, OQS_SHA3_shake256_x4_inc_ctx* s);
void OQS_SHA3_shake256_x4_inc_ctx_clone(OQS_SHA3_shake256_x4_inc_ctx* d, const OQS_SHA3_shake256_x4_inc_ctx* s);
void OQS_SHA3_shake256_x4_inc_ctx_reset(OQS_SHA3_shake256_x4_inc_ctx* s);
void OQS_SHA3_shake256_x4_inc_ctx_release(OQS_SHA3_shake256_x4_inc_ctx* s);
