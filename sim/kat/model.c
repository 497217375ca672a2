/* What the two files have to contain, written from NIST's description: CTR_DRBG (SP 800-90A, AES-256, no
 * derivation function), 100 records.  Usage: model FILE.req FILE.rsp; spacing is normalised by the caller. */
#include <openssl/evp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
static struct { unsigned char key[32], v[16]; } G;
static void block(unsigned char* out) {
  for (int j = 15; j >= 0 && ++G.v[j] == 0; --j) {}
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); int l;
  if (!c || EVP_EncryptInit_ex(c, EVP_aes_256_ecb(), 0, G.key, 0) != 1 || EVP_EncryptUpdate(c, out, &l, G.v, 16) != 1) abort();
  EVP_CIPHER_CTX_free(c);
}
static void update(const unsigned char* data) {
  unsigned char t[48]; for (int i = 0; i < 3; ++i) block(t + 16 * i);
  for (int i = 0; data && i < 48; ++i) t[i] ^= data[i];
  memcpy(G.key, t, 32); memcpy(G.v, t + 32, 16);
}
static void seed_with(const unsigned char* s) { memset(&G, 0, sizeof G); update(s); }
int randombytes(unsigned char* x, unsigned long long n) {
  unsigned char b[16]; while (n) { unsigned long long k = n < 16 ? n : 16; block(b); memcpy(x, b, k); x += k; n -= k; }
  update(0); return 0;
}
static void hex(FILE* f, const char* name, const unsigned char* p, unsigned long long n) { fprintf(f, "%s=", name); while (n--) fprintf(f, "%02X", *p++); fputc('\n', f); }
int main(int argc, char** argv) {
  static unsigned char seeds[100][48], msg[100][3300]; unsigned char e[48]; for (int i = 0; i < 48; ++i) e[i] = (unsigned char)i;
  FILE *q = fopen(argv[1], "w"), *p = fopen(argv[2], "w"); if (argc != 3 || !q || !p) return 1;
  seed_with(e);
  for (int i = 0; i < 100; ++i) {
    randombytes(seeds[i], 48); randombytes(msg[i], 33 * (i + 1));
    fprintf(q, "count=%d\n", i); hex(q, "seed", seeds[i], 48); fprintf(q, "mlen=%d\n", 33 * (i + 1)); hex(q, "msg", msg[i], 33 * (i + 1)); fprintf(q, "pk=\nsk=\nsmlen=\nsm=\n");
  }
  fprintf(p, "# %s\n", CRYPTO_ALGNAME);
  for (int i = 0; i < 100; ++i) {
    unsigned long long n = 33 * (i + 1), l = 0; static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], sm[3300 + CRYPTO_BYTES];
    seed_with(seeds[i]); if (crypto_sign_keypair(pk, sk) || crypto_sign(sm, &l, msg[i], n, sk)) return 1;
    fprintf(p, "count=%d\n", i); hex(p, "seed", seeds[i], 48); fprintf(p, "mlen=%llu\n", n); hex(p, "msg", msg[i], n); hex(p, "pk", pk, sizeof pk); hex(p, "sk", sk, sizeof sk); fprintf(p, "smlen=%llu\n", l); hex(p, "sm", sm, l);
  }
  return fclose(q) || fclose(p);
}
