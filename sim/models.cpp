// Independent models: Rijndael one-way functions (written from FIPS 197 / the Rijndael proposal, not from the library).
#include "p_common.h"
namespace {
uint8_t SB[256], X2[256], X3[256]; bool ready = false;
uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (a << 1) ^ ((a & 0x80) ? 0x1b : 0); b >>= 1; } return r; }
void init() {
  if (ready) return;
  for (int x = 0; x < 256; ++x) {
    uint8_t inv = 0;
    for (int y = 1; y < 256 && x; ++y) if (mul(x, y) == 1) { inv = y; break; }
    uint8_t r = 0x63;
    for (int i = 0; i < 5; ++i) r ^= (uint8_t)((inv << i) | (inv >> (8 - i)));
    SB[x] = r; X2[x] = mul(x, 2); X3[x] = mul(x, 3);
  }
  ready = true;
}
// S-box positions are numbered: key schedule first, then per block and round.
struct Rij {
  int Nb, Nk, Nr; uint8_t w[15 * 8 * 4]; int kspos = 0;
  void expand(const uint8_t* key, std::vector<int>* z, int& pos) {
    memcpy(w, key, 4 * Nk);
    uint8_t rc = 1;
    for (int i = Nk; i < Nb * (Nr + 1); ++i) {
      uint8_t t[4]; memcpy(t, w + 4 * (i - 1), 4);
      if (i % Nk == 0) {
        uint8_t a = t[0]; t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = a;
        for (int j = 0; j < 4; ++j, ++pos) { if (!t[j] && z) z->push_back(pos); t[j] = SB[t[j]]; }
        t[0] ^= rc; rc = mul(rc, 2);
      } else if (Nk > 6 && i % Nk == 4) {
        for (int j = 0; j < 4; ++j, ++pos) { if (!t[j] && z) z->push_back(pos); t[j] = SB[t[j]]; }
      }
      for (int j = 0; j < 4; ++j) w[4 * i + j] = w[4 * (i - Nk) + j] ^ t[j];
    }
  }
  void enc(const uint8_t* in, uint8_t* out, std::vector<int>* z, int& pos) {
    const int n = 4 * Nb; uint8_t s[32], t[32];
    static const int sh[3][4] = {{0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 3, 4}};
    const int* so = sh[(Nb - 4) / 2];
    for (int i = 0; i < n; ++i) s[i] = in[i] ^ w[i];
    for (int r = 1; r <= Nr; ++r) {
      for (int i = 0; i < n; ++i, ++pos) { if (!s[i] && z) z->push_back(pos); s[i] = SB[s[i]]; }
      for (int c = 0; c < Nb; ++c) for (int q = 0; q < 4; ++q) t[4 * c + q] = s[4 * ((c + so[q]) % Nb) + q];
      if (r < Nr) for (int c = 0; c < Nb; ++c) {
        uint8_t* a = t + 4 * c;
        for (int q = 0; q < 4; ++q) s[4 * c + q] = X2[a[q]] ^ X3[a[(q + 1) & 3]] ^ a[(q + 2) & 3] ^ a[(q + 3) & 3];
      } else memcpy(s, t, n);
      for (int i = 0; i < n; ++i) s[i] ^= w[r * n + i];
    }
    memcpy(out, s, n);
  }
};
}
bool model_owf(int set, const uint8_t* sk, uint8_t* pk, std::vector<int>* zeros) {
  init();
  const SetInfo& S = SETS[set];
  const size_t in = S.pk / 2; std::vector<int> z, ign; int pos = 0;
  const uint8_t *x = sk, *k = sk + in;
  Rij c; c.Nk = S.lambda / 32; c.Nr = c.Nk + 6;
  memcpy(pk, x, in);
  if (S.em) {
    c.Nb = S.lambda / 32; int p0 = 0; c.expand(x, nullptr, p0);
    c.enc(k, pk + in, &z, pos);
    for (size_t i = 0; i < in; ++i) pk[in + i] ^= k[i];
  } else {
    c.Nb = 4; c.expand(k, &z, pos);
    for (size_t o = 0; o < in; o += 16) c.enc(x + o, pk + in + o, &z, pos);
  }
  if (zeros) *zeros = z;
  return z.empty();
}
int model_positions(int set) {
  // number of S-box evaluations that must not see zero
  const SetInfo& S = SETS[set]; const int Nk = S.lambda / 32, Nr = Nk + 6;
  if (S.em) return Nr * 4 * Nk;
  int ks = 0; for (int i = Nk; i < 4 * (Nr + 1); ++i) if (i % Nk == 0 || (Nk > 6 && i % Nk == 4)) ks += 4;
  return ks + Nr * (int)(S.pk / 2);
}

Bytes candidate(int set, uint64_t seed, bool usable) {
  Rng r(seed ^ 0xca9d1da7e); const size_t in = SETS[set].pk / 2; Bytes pk(SETS[set].pk);
  for (;;) {
    Bytes c = r.bytes(SETS[set].sk);
    if (!usable) c[in] = c[0];
    if (model_owf(set, c.data(), pk.data()) == usable) return c;
  }
}
