/* A small stand-in for the signature scheme: lets the generators run in milliseconds. */
#ifndef STUB_API_H
#define STUB_API_H
#define CRYPTO_SECRETKEYBYTES 40
#define CRYPTO_PUBLICKEYBYTES 24
#define CRYPTO_BYTES 72
#define CRYPTO_ALGNAME "stub_algorithm"
int crypto_sign_keypair(unsigned char* pk, unsigned char* sk);
int crypto_sign(unsigned char* sm, unsigned long long* smlen, const unsigned char* m, unsigned long long mlen, const unsigned char* sk);
int crypto_sign_open(unsigned char* m, unsigned long long* mlen, const unsigned char* sm, unsigned long long smlen, const unsigned char* pk);
#endif
