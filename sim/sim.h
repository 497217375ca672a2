// Deterministic simulator for the FAEST library: common declarations.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- PRNG: every choice of a run comes from one of these
struct Rng {
  uint64_t s[4];
  static uint64_t sm(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed = 0) { for (auto& v : s) v = sm(seed); }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  void fill(uint8_t* p, size_t n) { while (n) { uint64_t v = next(); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; } }
  Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline Bytes seeded(uint64_t seed, size_t n) { Rng r(seed ^ 0x5eedb17e5ull); return r.bytes(n); }

// ---------------------------------------------------------------- parameter sets (of the frozen release)
struct SetInfo { const char* name; int lambda, em, tau, k0, k1, t0, t1, l; size_t pk, sk, sig; };
extern const SetInfo SETS[12];
struct Segment { std::string name; size_t off, len; };
const std::vector<Segment>& sig_segments(int set);  // layout of a signature
size_t sig_off_iv(int set);

// ---------------------------------------------------------------- builds of the library
struct Api {
  int (*keygen)(uint8_t*, uint8_t*);
  int (*validate)(const uint8_t*, const uint8_t*);
  int (*sign)(const uint8_t*, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*swr)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*verify)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t);
  void (*clear)(uint8_t*);
  int (*cs_keypair)(uint8_t*, uint8_t*);
  int (*cs_sign)(uint8_t*, unsigned long long*, const uint8_t*, unsigned long long, const uint8_t*);
  int (*cs_open)(uint8_t*, unsigned long long*, const uint8_t*, unsigned long long, const uint8_t*);
};
struct Variant { std::string name, path; void* h = nullptr; Api api[12]; uintptr_t rw_lo = 0, rw_hi = 0; };
extern std::map<std::string, std::string> AUX;  // other shared objects, by name
extern std::vector<Variant> VARS;         // without "ref"
Variant& var(const std::string& name);    // by name
bool have_var(const std::string& name);
void load_variant(Variant& v);
void reload_variant(Variant& v);          // node restart: static state of the build is gone

// ---------------------------------------------------------------- plans
struct Op {
  std::string name; std::map<std::string, std::string> f;
  Op() {}
  explicit Op(const std::string& n) : name(n) {}
  Op& set(const std::string& k, int64_t v) { f[k] = std::to_string(v); return *this; }
  Op& setu(const std::string& k, uint64_t v) { f[k] = std::to_string(v); return *this; }
  Op& set(const std::string& k, const std::string& v) { f[k] = v; return *this; }
  int64_t i(const std::string& k, int64_t d = 0) const { auto it = f.find(k); return it == f.end() ? d : (int64_t)strtoull(it->second.c_str(), 0, 10) * (it->second[0] == '-' ? 1 : 1); }
  uint64_t u(const std::string& k, uint64_t d = 0) const { auto it = f.find(k); return it == f.end() ? d : strtoull(it->second.c_str(), 0, 10); }
  std::string s(const std::string& k, const std::string& d = "") const { auto it = f.find(k); return it == f.end() ? d : it->second; }
  bool has(const std::string& k) const { return f.count(k); }
  std::string str() const { std::string r = name; for (auto& p : f) r += " " + p.first + "=" + p.second; return r; }
};
typedef std::vector<Op> Plan;
Plan parse_plan(const std::string& text);
std::string plan_str(const Plan& p);

// ---------------------------------------------------------------- a run
struct Run {
  uint64_t hash = 0xcbf29ce484222325ull; uint64_t steps = 0; uint64_t now_us = 0;
  std::map<std::string, uint64_t> stats; std::set<uint64_t> cover;
  bool verbose = false;
  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void count(const std::string& k, uint64_t n = 1) { stats[k] += n; }
  void covered(uint64_t key) { cover.insert(key); }
};
extern Run* R;
struct Violation { std::string cls, msg; };
[[noreturn]] void violate(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull + b + 0x165667b19e3779f9ull; return Rng::sm(x); }
std::string hex(const uint8_t* p, size_t n);

// ---------------------------------------------------------------- seams
// entropy device
enum EFault { E_OK = 0, E_ERR, E_SHORT, E_EOF };
struct EntropyStep { int kind; int err; size_t n; };
struct Entropy {
  std::function<void(uint8_t*, size_t)> source;  // healthy byte source
  std::vector<EntropyStep> script; size_t pos = 0; // consumed one step per data call; afterwards E_OK
  bool forever = false; EntropyStep forever_step{E_OK, 0, 0};
  std::vector<EntropyStep> open_script; size_t open_pos = 0;
  std::vector<EntropyStep> ioctl_script; size_t ioctl_pos = 0;
  Bytes delivered; uint64_t calls = 0, data_calls = 0, faults = 0, limit = 200000;
  std::map<int, bool> fds; int next_fd = 1000; uint64_t bad_close = 0, bulk = 0; int close_err = 0; bool getrandom_cap = false;
  bool open_forever = false; EntropyStep open_forever_step{E_OK, 0, 0};
  std::vector<std::pair<const uint8_t*, Bytes>> writes;  // where the source wrote
  void reset_call() { delivered.clear(); writes.clear(); calls = data_calls = faults = 0; script.clear(); pos = 0; open_script.clear(); open_pos = 0; ioctl_script.clear(); ioctl_pos = 0; forever = open_forever = false; }
};
extern Entropy ENT;
void entropy_seed(uint64_t seed);  // healthy stream determined by seed

// heap
struct Heap {
  enum Mode { PASS, CHECKED, GUARD } mode = CHECKED;
  bool guard_left = false; uint64_t fill_seed = 0, align_salt = 0; int fill_kind = 0;  // 0: pattern byte from seed, 1: random bytes, 2: zero, 3: no fill
  uint64_t count = 0, fail_fired = 0; std::set<uint64_t> fail_at; uint64_t fail_from = ~0ull; size_t fail_size = ~(size_t)0; uint64_t budget = ~0ull;
  uint64_t live_blocks = 0, live_bytes = 0, peak = 0;
  void clear_faults() { fail_at.clear(); fail_from = ~0ull; fail_size = ~(size_t)0; budget = ~0ull; }
};
extern Heap HEAP;
void heap_check();                       // redzones and freed blocks
uint64_t heap_fill_byte();
// provider
struct Provider { uint64_t count = 0, fail_fired = 0; std::set<uint64_t> fail_at; uint64_t fail_from = ~0ull; int64_t live_ctx = 0;
  void clear_faults() { fail_at.clear(); fail_from = ~0ull; } };
extern Provider EVPS;
// hash outputs
extern std::function<void(uint8_t*, size_t)> HASH_HOOK;
extern void (*SCHED_HOOK)();  // called at every seam crossing (thread scheduler)
// recorded machine trace of instrumented builds (C16): basic blocks, addresses, seam crossings
struct TraceEv { uint64_t kind, value, pc; };
struct Tracer { uint64_t h = 1, n = 0; uint64_t* cp = nullptr; uint64_t win = ~0ull; TraceEv* ev = nullptr; uint64_t mask = ~0ull; };
extern Tracer* TR; static const unsigned TRACE_SHIFT = 16;
void trace_ev(uint64_t kind, uint64_t value, const void* pc);
// all seams healthy, counters zero
void seams_clean();
// runs f with every seam clean and restores the previous state afterwards (used for the reference peer)
void with_clean(const std::function<void()>& f);

// ---------------------------------------------------------------- reference peer and models
struct Key { int set; Bytes pk, sk; };
Key ref_key(int set, uint64_t seed);
Bytes ref_sign(int set, const Bytes& sk, const uint8_t* m, size_t mlen, const Bytes& rho);
int ref_verify(int set, const Bytes& pk, const uint8_t* m, size_t mlen, const Bytes& sig);
bool model_owf(int set, const uint8_t* sk, uint8_t* pk, std::vector<int>* zeros = nullptr);  // usable?; positions of zero S-box inputs
int model_positions(int set);

// ---------------------------------------------------------------- isolation
struct Outcome { bool exited = false; int sig = 0; uint64_t addr = 0; bool timeout = false; Bytes data; bool complete = false; std::string viol; };
Outcome isolated(const std::function<Bytes()>& f, unsigned cpu_s = 60);
void paint_stack(uint64_t seed, size_t n);

// ---------------------------------------------------------------- properties
struct Prop { const char* id; Plan (*gen)(uint64_t seed, uint64_t index, bool thorough); void (*exec)(const Plan&); };
extern const Prop PROPS[]; extern const int NPROPS;
int pick_set(Rng& r, unsigned s_weight);  // f sets weight 8, s sets s_weight
std::vector<std::string> var_names();
size_t pick_mlen(Rng& r);
extern bool THOROUGH;
