// State shared between a simulated generator process and its controller (kat.py knows this layout).
#pragma once
#include <stdint.h>
enum { K_OPEN, K_WRITE, K_READ, K_CLOSE, K_SEEK, K_SYNC, K_STAT, K_NAME, K_KEYPAIR, K_SIGN, K_VERIFY, K_EVP, K_ALLOC, K_CLASSES };
enum { F_ERR, F_TORN, F_SHORT, F_EOF, F_LOSE, F_RET, F_LEN, F_MSG };
struct kat_fault { uint32_t cls, nth, burst, kind; int64_t a, b; };
struct kat_file { char name[64]; uint32_t used, live; uint64_t size, lost; };
struct kat_event { uint32_t cls, kind; int64_t obj, arg, res; };
#define KAT_FILES 8
#define KAT_FILE_MAX (24u << 20)
#define KAT_FAULTS 64
#define KAT_EVENTS 4096
struct kat_shared {
  uint64_t capacity; uint32_t nfaults, armed, started, exited;
  uint64_t hash, steps, nevents, overflow, full, fired[K_CLASSES][8], calls[K_CLASSES];
  struct kat_fault fault[KAT_FAULTS];
  struct kat_file file[KAT_FILES];
  struct kat_event event[KAT_EVENTS];
};
