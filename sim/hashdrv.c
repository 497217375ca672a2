/* Entry points into the tree's hash layer (linked with its hash back end and random_oracle.c). */
#if defined(HAVE_CONFIG_H)
#include <config.h>
#endif
#include "random_oracle.h"
#include <stddef.h>
size_t hd_size(int x4) { return x4 ? sizeof(hash_context_x4) : sizeof(hash_context); }
size_t hd_align(int x4) { return x4 ? _Alignof(hash_context_x4) : _Alignof(hash_context); }
/* one lane; kind: 0 plain hash, 1..4: H0..H3 */
void hd_init(int kind, void* c, unsigned sec) {
  switch (kind) { case 0: hash_init(c, sec); break; case 1: H0_init(c, sec); break; case 2: H1_init(c, sec); break; case 3: H2_init(c, sec); break; default: H3_init(c, sec); }
}
/* helpers nothing else in the tree calls are optional: HD_<name> says that the tree has it (see build.py) */
#ifdef HD_hash_init_prefix
void hd_init_prefix(void* c, unsigned sec, uint8_t p) { hash_init_prefix(c, sec, p); }
#else
void hd_init_prefix(void* c, unsigned sec, uint8_t p) { hash_init(c, sec); hash_update(c, &p, 1); }
#endif
void hd_update(int kind, void* c, const uint8_t* d, size_t n) {
  switch (kind) { case 0: hash_update(c, d, n); break; case 1: H0_update(c, d, n); break; case 2: H1_update(c, d, n); break; case 3: H2_update(c, d, n); break; default: H3_update(c, d, n); }
}
#ifdef HD_hash_update_uint16_le
void hd_u16(void* c, uint16_t v) { hash_update_uint16_le(c, v); }
#else
void hd_u16(void* c, uint16_t v) { uint8_t b[2] = {(uint8_t)v, (uint8_t)(v >> 8)}; hash_update(c, b, 2); }
#endif
void hd_final(void* c) { hash_final(c); }
void hd_squeeze(void* c, uint8_t* o, size_t n) { hash_squeeze(c, o, n); }
void hd_clear(void* c) { hash_clear((hash_context*)c); (void)c; }
/* output of the oracles; b only for H0 and H3 */
void hd_oracle(int kind, void* c, uint8_t* a, size_t na, uint8_t* b, size_t nb) {
  switch (kind) { case 1: H0_final(c, a, na, b, nb); break; case 2: H1_final(c, a, na); break; case 3: H2_final(c, a, na); break; default: H3_final(c, a, na, b); }
}
/* four lanes; kind: 0 plain, 1: H0_x4 */
void hd4_init(int kind, void* c, unsigned sec) { if (kind) H0_x4_init(c, sec); else hash_init_x4(c, sec); }
#ifdef HD_hash_init_prefix_x4
void hd4_init_prefix(void* c, unsigned sec, uint8_t p) { hash_init_prefix_x4(c, sec, p); }
#else
void hd4_init_prefix(void* c, unsigned sec, uint8_t p) { const uint8_t* d[4] = {&p, &p, &p, &p}; hash_init_x4(c, sec); hash_update_x4(c, d, 1); }
#endif
/* the same two bytes in all lanes, or a pair for each lane */
void hd4_u16(int each, void* c, const uint16_t v[4]) {
  uint8_t b[4][2]; const uint8_t* d[4];
  for (int i = 0; i < 4; ++i) { b[i][0] = (uint8_t)v[each ? i : 0]; b[i][1] = (uint8_t)(v[each ? i : 0] >> 8); d[i] = b[i]; }
#ifdef HD_hash_update_x4_uint16_le
  if (!each) { hash_update_x4_uint16_le(c, v[0]); return; }
#endif
#ifdef HD_hash_update_x4_uint16s_le
  if (each) { hash_update_x4_uint16s_le(c, v); return; }
#endif
  hash_update_x4(c, d, 2);
}
void hd4_update(int kind, int form, void* c, const uint8_t** d, size_t n) {
  if (kind) H0_x4_update(c, d[0], d[1], d[2], d[3], n); else
#ifdef HD_hash_update_x4_1
  if (form == 1) hash_update_x4_1(c, d[0], n); else
#endif
#ifdef HD_hash_update_x4_4
  if (form == 2) hash_update_x4_4(c, d[0], d[1], d[2], d[3], n); else
#endif
  { const uint8_t* same[4] = {d[0], d[0], d[0], d[0]}; hash_update_x4(c, form == 1 ? same : d, n); }
}
void hd4_final(void* c) { hash_final_x4(c); }
void hd4_squeeze(int form, void* c, uint8_t** o, size_t n) {
#ifdef HD_hash_squeeze_x4_4
  if (form) hash_squeeze_x4_4(c, o[0], o[1], o[2], o[3], n); else
#endif
  hash_squeeze_x4(c, o, n); (void)form;
}
void hd4_clear(void* c) { hash_clear_x4((hash_context_x4*)c); (void)c; }
void hd4_oracle(void* c, uint8_t** a, size_t na, uint8_t** b, size_t nb) { H0_x4_final(c, a[0], a[1], a[2], a[3], na, b[0], b[1], b[2], b[3], nb); }
