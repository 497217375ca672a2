// Helpers shared by the property files.
#pragma once
#include "sim.h"
#include <sys/mman.h>
#include <cerrno>
#include <memory>

// A caller-provided buffer.  Its surroundings are canaries or inaccessible pages.
struct Buf {
  enum { CANARY = 0, RIGHT = 1, LEFT = 2, EXACT = 3 };  // EXACT: a heap block of just this size (for the address sanitizer)
  uint8_t* p = nullptr; size_t n = 0; int kind; uint64_t seed; bool sealed = false; Bytes snap;
  std::vector<uint8_t> store; uint8_t* raw = nullptr; size_t rawlen = 0; const char* what;
  Buf(const char* w, size_t len, uint64_t sd, int k = CANARY, unsigned off = 0) : n(len), kind(k), seed(sd), what(w) {
    if (kind == CANARY) {
      store.resize(len + 64 * 4 + 64);
      uintptr_t u = ((uintptr_t)store.data() + 127) & ~(uintptr_t)63;
      p = (uint8_t*)u + (off & 63);
      Rng r(seed); r.fill(store.data(), store.size()); dirty(seed ^ 1);  // contents do not depend on the address
    } else if (kind == EXACT) { p = (uint8_t*)malloc(len); if (len && !p) abort(); dirty(seed ^ 1);
    } else {
      size_t body = (len + 4095) & ~(size_t)4095; if (!body) body = 4096;
      rawlen = body + 8192;
      raw = (uint8_t*)mmap(nullptr, rawlen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (raw == MAP_FAILED) abort();
      mprotect(raw, 4096, PROT_NONE); mprotect(raw + rawlen - 4096, 4096, PROT_NONE);
      p = kind == LEFT ? raw + 4096 : raw + rawlen - 4096 - len;
      if (body <= (1u << 20)) { Rng r(seed); r.fill(raw + 4096, body); }
    }
  }
  Buf(const Buf&) = delete;
  Buf& operator=(const Buf&) = delete;
  ~Buf() { if (kind == EXACT) free(p); if (raw) munmap(raw, rawlen); }
  Buf& load(const Bytes& b) { memcpy(p, b.data(), b.size() < n ? b.size() : n); return *this; }
  Buf& dirty(uint64_t sd) { Rng r(sd); r.fill(p, n); return *this; }
  // read-only from now on
  Buf& seal() { sealed = true; snap.assign(p, p + n); if (raw) mprotect(raw + 4096, rawlen - 8192, PROT_READ); return *this; }
  Bytes bytes() const { return Bytes(p, p + n); }
  bool canaries_ok() const {
    if (kind == EXACT) return true;
    if (kind == CANARY) {
      Rng r(seed); Bytes c = r.bytes(store.size()); size_t o = p - store.data();
      return !memcmp(c.data(), store.data(), o) && !memcmp(c.data() + o + n, store.data() + o + n, store.size() - o - n);
    }
    size_t body = rawlen - 8192; if (body > (1u << 20)) return true;
    Rng r(seed); Bytes c = r.bytes(body); size_t o = p - (raw + 4096);
    return !memcmp(c.data(), raw + 4096, o) && !memcmp(c.data() + o + n, raw + 4096 + o + n, body - o - n);
  }
  void check(const char* call) const {
    if (!canaries_ok()) violate("out-of-bounds-write", "%s wrote outside the %s buffer of %zu bytes", call, what, n);
    if (sealed && (snap.size() != n || memcmp(snap.data(), p, n))) violate("input-modified", "%s modified its input %s", call, what);
  }
};

// the bytes of b occur in d as one piece
inline bool occurs(const Bytes& d, const uint8_t* b, size_t n) {
  if (n > d.size()) return false;
  for (size_t i = 0; i + n <= d.size(); ++i) if (!memcmp(d.data() + i, b, n)) return true;
  return false;
}
// secret key bytes were delivered by the source during this request (input and key part each in one piece)
inline bool key_delivered(int set, const Bytes& d, const uint8_t* sk) {
  size_t in = SETS[set].pk / 2; return occurs(d, sk, in) && occurs(d, sk + in, SETS[set].sk - in);
}
inline Bytes msg(uint64_t seed, size_t len) { return seeded(seed ^ 0x6d5367, len); }

// entropy stream: prefix first, then healthy bytes determined by the seed
inline void entropy_stream(const Bytes& prefix, uint64_t seed) {
  auto pos = std::make_shared<size_t>(0); auto pre = std::make_shared<Bytes>(prefix); auto r = std::make_shared<Rng>(seed ^ 0xabcdef);
  ENT.source = [=](uint8_t* p, size_t n) { while (n--) { if (*pos < pre->size()) *p++ = (*pre)[(*pos)++]; else *p++ = (uint8_t)(r->next() >> 16); } };
}
// script text: o = ok, eN = errno N, sN = N bytes only, z = end of file
inline std::vector<EntropyStep> parse_script(const std::string& s) {
  std::vector<EntropyStep> v; size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find(',', i); if (e == std::string::npos) e = s.size();
    std::string t = s.substr(i, e - i); i = e + 1; if (t.empty()) continue;
    int n = atoi(t.c_str() + 1);
    if (t[0] == 'o') v.push_back({E_OK, 0, 0}); else if (t[0] == 'e') v.push_back({E_ERR, n, 0});
    else if (t[0] == 's') v.push_back({E_SHORT, 0, (size_t)n}); else v.push_back({E_EOF, 0, 0});
  }
  return v;
}
// a usable candidate (input || key) from a seed; an unusable one has its very first S-box input zero
Bytes candidate(int set, uint64_t seed, bool usable);
inline uint64_t tag(const char* s) { return hash_bytes(s, strlen(s)); }
std::string pick_var(Rng& r);
std::string pick_var(Rng& r, int set);
int fast_set(Rng& r, uint64_t index, bool smallest); std::string fast_var(Rng& r);
bool slow_var(const std::string& n);
