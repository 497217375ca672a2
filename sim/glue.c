/* Linked into every simulated build of the library: routes hash output through the simulator. */
#include <stddef.h>
extern int Keccak_HashSqueeze(void* inst, unsigned char* data, size_t bits);
extern void sim_hash_output(unsigned char* data, size_t bits);
int sim_Keccak_HashSqueeze(void* inst, unsigned char* data, size_t bits) {
  int r = Keccak_HashSqueeze(inst, data, bits);
  sim_hash_output(data, bits);
  return r;
}

/* The library's own AES inverts one field element at a time with a dozen multiplications, so a simulated
   signature takes seconds.  Builds with own AES look the inverse up in a table, which is filled by
   256 calls of the tree's own inversion when the build is loaded. */
#ifdef SIM_MEMO
#include <stdint.h>
extern uint8_t bf8_inv(uint8_t x) __attribute__((weak));
static uint8_t table[256];
__attribute__((constructor)) static void fill_table(void) {
  for (int x = 0; bf8_inv && x < 256; ++x)
    table[x] = bf8_inv((uint8_t)x);
}
uint8_t sim_memo_bf8_inv(uint8_t x) { return table[x]; }
#endif
