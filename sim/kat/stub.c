/* Stand-in signature scheme (see stub_api.h): needs randomness in both calls, deterministic in it. */
#include <stdint.h>
#include <string.h>
#include "api.h"
int randombytes(unsigned char* x, unsigned long long n);
static void sponge(uint64_t* h, const unsigned char* p, unsigned long long n) { while (n--) { *h = (*h ^ *p++) * 0x100000001b3ull; *h ^= *h >> 31; } }
static void stretch(uint64_t h, unsigned char* p, int n) { for (int i = 0; i < n; ++i) { h = (h ^ (h >> 27)) * 0x3c79ac492ba7b653ull + 1; p[i] = (unsigned char)(h >> 40); } }
int crypto_sign_keypair(unsigned char* pk, unsigned char* sk) {
  if (randombytes(sk, CRYPTO_SECRETKEYBYTES)) return -1;
  uint64_t h = 1; sponge(&h, sk, CRYPTO_SECRETKEYBYTES); stretch(h, pk, CRYPTO_PUBLICKEYBYTES); return 0;
}
static void tag(unsigned char* t, const unsigned char* m, unsigned long long n, const unsigned char* r, const unsigned char* pk) { uint64_t h = 7; sponge(&h, pk, CRYPTO_PUBLICKEYBYTES); sponge(&h, r, 32); sponge(&h, m, n); stretch(h, t, CRYPTO_BYTES - 32); }
int crypto_sign(unsigned char* sm, unsigned long long* smlen, const unsigned char* m, unsigned long long mlen, const unsigned char* sk) {
  unsigned char pk[CRYPTO_PUBLICKEYBYTES]; uint64_t h = 1; sponge(&h, sk, CRYPTO_SECRETKEYBYTES); stretch(h, pk, CRYPTO_PUBLICKEYBYTES);
  memmove(sm, m, mlen); if (randombytes(sm + mlen, 32)) return -1; tag(sm + mlen + 32, sm, mlen, sm + mlen, pk); *smlen = mlen + CRYPTO_BYTES; return 0;
}
int crypto_sign_open(unsigned char* m, unsigned long long* mlen, const unsigned char* sm, unsigned long long smlen, const unsigned char* pk) {
  unsigned char t[CRYPTO_BYTES - 32]; if (smlen < CRYPTO_BYTES) return -1; unsigned long long n = smlen - CRYPTO_BYTES;
  tag(t, sm, n, sm + n, pk); if (memcmp(t, sm + n + 32, sizeof t)) return -1; memmove(m, sm, n); *mlen = n; return 0;
}
