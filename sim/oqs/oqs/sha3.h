/* Stand-in for liboqs: incremental SHAKE.  As there, contexts live on the heap until released. */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef struct { void* ctx; } OQS_SHA3_shake128_inc_ctx;
void OQS_SHA3_shake128_inc_init(OQS_SHA3_shake128_inc_ctx* s);
void OQS_SHA3_shake128_inc_absorb(OQS_SHA3_shake128_inc_ctx* s, const uint8_t* in, size_t len);
void OQS_SHA3_shake128_inc_finalize(OQS_SHA3_shake128_inc_ctx* s);
void OQS_SHA3_shake128_inc_squeeze(uint8_t* out, size_t len, OQS_SHA3_shake128_inc_ctx* s);
void OQS_SHA3_shake128_inc_ctx_clone(OQS_SHA3_shake128_inc_ctx* d, const OQS_SHA3_shake128_inc_ctx* s);
void OQS_SHA3_shake128_inc_ctx_reset(OQS_SHA3_shake128_inc_ctx* s);
void OQS_SHA3_shake128_inc_ctx_release(OQS_SHA3_shake128_inc_ctx* s);
typedef struct { void* ctx; } OQS_SHA3_shake256_inc_ctx;
void OQS_SHA3_shake256_inc_init(OQS_SHA3_shake256_inc_ctx* s);
void OQS_SHA3_shake256_inc_absorb(OQS_SHA3_shake256_inc_ctx* s, const uint8_t* in, size_t len);
void OQS_SHA3_shake256_inc_finalize(OQS_SHA3_shake256_inc_ctx* s);
void OQS_SHA3_shake256_inc_squeeze(uint8_t* out, size_t len, OQS_SHA3_shake256_inc_ctx* s);
void OQS_SHA3_shake256_inc_ctx_clone(OQS_SHA3_shake256_inc_ctx* d, const OQS_SHA3_shake256_inc_ctx* s);
void OQS_SHA3_shake256_inc_ctx_reset(OQS_SHA3_shake256_inc_ctx* s);
void OQS_SHA3_shake256_inc_ctx_release(OQS_SHA3_shake256_inc_ctx* s);
