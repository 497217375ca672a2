/* liboqs stand-in over the frozen release's Keccak. */
#include <oqs/common.h>
#include <oqs/sha3.h>
#include <oqs/sha3x4.h>
#include <stdlib.h>
#include <string.h>
#include "KeccakHash.h"
extern void sim_hash_output(unsigned char* data, size_t bits) __attribute__((weak));
static void* fresh(size_t n) { void* p = malloc(n); if (!p) abort(); return p; }
#define ONE(b)                                                                                                         \
  void OQS_SHA3_shake##b##_inc_init(OQS_SHA3_shake##b##_inc_ctx* s) { s->ctx = fresh(sizeof(Keccak_HashInstance)); Keccak_HashInitialize_SHAKE##b(s->ctx); } \
  void OQS_SHA3_shake##b##_inc_absorb(OQS_SHA3_shake##b##_inc_ctx* s, const uint8_t* in, size_t n) { Keccak_HashUpdate(s->ctx, in, n << 3); } \
  void OQS_SHA3_shake##b##_inc_finalize(OQS_SHA3_shake##b##_inc_ctx* s) { Keccak_HashFinal(s->ctx, NULL); }            \
  void OQS_SHA3_shake##b##_inc_squeeze(uint8_t* o, size_t n, OQS_SHA3_shake##b##_inc_ctx* s) { Keccak_HashSqueeze(s->ctx, o, n << 3); if (sim_hash_output) sim_hash_output(o, n << 3); } \
  void OQS_SHA3_shake##b##_inc_ctx_clone(OQS_SHA3_shake##b##_inc_ctx* d, const OQS_SHA3_shake##b##_inc_ctx* s) { memcpy(d->ctx, s->ctx, sizeof(Keccak_HashInstance)); } \
  void OQS_SHA3_shake##b##_inc_ctx_reset(OQS_SHA3_shake##b##_inc_ctx* s) { Keccak_HashInitialize_SHAKE##b(s->ctx); } \
  void OQS_SHA3_shake##b##_inc_ctx_release(OQS_SHA3_shake##b##_inc_ctx* s) { free(s->ctx); s->ctx = NULL; }            \
  void OQS_SHA3_shake##b##_x4_inc_init(OQS_SHA3_shake##b##_x4_inc_ctx* s) { Keccak_HashInstance* k = s->ctx = fresh(4 * sizeof(Keccak_HashInstance)); for (int i = 0; i < 4; ++i) Keccak_HashInitialize_SHAKE##b(k + i); } \
  void OQS_SHA3_shake##b##_x4_inc_absorb(OQS_SHA3_shake##b##_x4_inc_ctx* s, const uint8_t* a, const uint8_t* b0, const uint8_t* c, const uint8_t* d, size_t n) { Keccak_HashInstance* k = s->ctx; Keccak_HashUpdate(k, a, n << 3); Keccak_HashUpdate(k + 1, b0, n << 3); Keccak_HashUpdate(k + 2, c, n << 3); Keccak_HashUpdate(k + 3, d, n << 3); } \
  void OQS_SHA3_shake##b##_x4_inc_finalize(OQS_SHA3_shake##b##_x4_inc_ctx* s) { Keccak_HashInstance* k = s->ctx; for (int i = 0; i < 4; ++i) Keccak_HashFinal(k + i, NULL); } \
  void OQS_SHA3_shake##b##_x4_inc_squeeze(uint8_t* a, uint8_t* b0, uint8_t* c, uint8_t* d, size_t n, OQS_SHA3_shake##b##_x4_inc_ctx* s) { Keccak_HashInstance* k = s->ctx; Keccak_HashSqueeze(k, a, n << 3); Keccak_HashSqueeze(k + 1, b0, n << 3); Keccak_HashSqueeze(k + 2, c, n << 3); Keccak_HashSqueeze(k + 3, d, n << 3); } \
  void OQS_SHA3_shake##b##_x4_inc_ctx_clone(OQS_SHA3_shake##b##_x4_inc_ctx* d, const OQS_SHA3_shake##b##_x4_inc_ctx* s) { memcpy(d->ctx, s->ctx, 4 * sizeof(Keccak_HashInstance)); } \
  void OQS_SHA3_shake##b##_x4_inc_ctx_reset(OQS_SHA3_shake##b##_x4_inc_ctx* s) { Keccak_HashInstance* k = s->ctx; for (int i = 0; i < 4; ++i) Keccak_HashInitialize_SHAKE##b(k + i); } \
  void OQS_SHA3_shake##b##_x4_inc_ctx_release(OQS_SHA3_shake##b##_x4_inc_ctx* s) { free(s->ctx); s->ctx = NULL; }
ONE(128)
ONE(256)
void* OQS_MEM_aligned_alloc(size_t a, size_t n) { return aligned_alloc(a, n); }
void OQS_MEM_aligned_free(void* p) { free(p); }
int OQS_MEM_secure_bcmp(const void* a, const void* b, size_t n) { const uint8_t *x = a, *y = b; uint8_t d = 0; while (n--) d |= *x++ ^ *y++; return d; }
void OQS_MEM_cleanse(void* p, size_t n) { explicit_bzero(p, n); }
