// Deterministic simulator: seams, run control, worker loop.
#include "sim.h"
#include <cstdarg>
#include <memory>
#include <cerrno>
#include <chrono>
#include <unordered_map>
#include <deque>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <openssl/evp.h>

const SetInfo SETS[12] = {
#include "sets.inc"
};
bool THOROUGH = false;
std::map<std::string, std::string> AUX; std::vector<Variant> VARS; static Variant REFV;
Run* R = new Run;
static int OUT_FD = -1;     // pipe to the parent of this (child) process
static bool IN_ISO = false;

// ---------------------------------------------------------------- log
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = (const uint8_t*)p;
  while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9ddfea08eb382d69ull; h ^= h >> 29; b += 8; n -= 8; }
  while (n--) { h = (h ^ *b++) * 0x100000001b3ull; }
  return h ^ (h >> 32);
}
std::string hex(const uint8_t* p, size_t n) {
  std::string s; char b[3];
  for (size_t i = 0; i < n && i < 64; ++i) { snprintf(b, 3, "%02x", p[i]); s += b; }
  if (n > 64) s += "..";
  return s;
}
static void send_str(const std::string& s) {
  size_t o = 0;
  while (o < s.size()) { ssize_t r = write(OUT_FD, s.data() + o, s.size() - o); if (r <= 0) { if (r < 0 && errno == EINTR) continue; break; } o += r; }
}
void Run::log(const char* fmt, ...) {
  char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  hash = hash_bytes(buf, strlen(buf), hash); ++steps;
  if (verbose) fprintf(stderr, "  [%llu t=%llu.%03llums] %s\n", (unsigned long long)steps, (unsigned long long)now_us / 1000, (unsigned long long)now_us % 1000, buf);
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) r += (c == '\n' || c == '\t') ? ' ' : c; return r; }
static void send_result(const char* tail) {
  std::string o;
  char b[128];
  for (auto& p : R->stats) { snprintf(b, sizeof b, "S %llu ", (unsigned long long)p.second); o += b + p.first + "\n"; }
  for (uint64_t c : R->cover) { snprintf(b, sizeof b, "K %llx\n", (unsigned long long)c); o += b; }
  snprintf(b, sizeof b, "H %llx %llu %llu\n", (unsigned long long)R->hash, (unsigned long long)R->steps, (unsigned long long)R->now_us); o += b;
  send_str(o + tail);
}
void violate(const std::string& cls, const char* fmt, ...) {
  char buf[1500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (IN_ISO) { send_str("V" + cls + "\t" + esc(buf) + "\n"); _exit(0); }
  R->log("VIOLATION %s: %s", cls.c_str(), buf);
  if (OUT_FD < 0) { fprintf(stderr, "VIOLATION outside a run: %s: %s\n", cls.c_str(), buf); _exit(2); }
  send_result(("V" + cls + "\t" + esc(buf) + "\nEND\n").c_str());
  _exit(0);
}

// ---------------------------------------------------------------- crash reporting in children
static char ALTSTACK[1 << 16];
static void on_crash(int sig, siginfo_t* si, void* uc) {
  char b[160];
  uint64_t addr = (sig == SIGSEGV || sig == SIGBUS) ? (uint64_t)si->si_addr : 0;
#if defined(__x86_64__)
  // a general-protection fault (non-canonical address) reports address 0: mark it as wild
  if (sig == SIGSEGV && si->si_code == SI_KERNEL) addr = ~0ull;
#endif
  (void)uc;
  int n;
  if (IN_ISO) n = snprintf(b, sizeof b, "C%d %llx\n", sig, (unsigned long long)addr);
  else n = snprintf(b, sizeof b, "H %llx %llu %llu\nC%d %llx\nEND\n", (unsigned long long)R->hash, (unsigned long long)R->steps, (unsigned long long)R->now_us, sig, (unsigned long long)addr);
  if (OUT_FD >= 0) (void)!write(OUT_FD, b, n);
  _exit(0);
}
static void install_crash_handlers() {
  stack_t st{}; st.ss_sp = ALTSTACK; st.ss_size = sizeof ALTSTACK; sigaltstack(&st, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGXCPU, SIGSYS, SIGTRAP}) sigaction(s, &sa, nullptr);
}
extern "C" void __asan_on_error() __attribute__((weak, visibility("default")));
extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error() {
  char b[300]; const char* d = __asan_get_report_description ? __asan_get_report_description() : "?";
  int n = snprintf(b, sizeof b, IN_ISO ? "Vsanitizer\t%s\n" : "H %llx 0 0\nVsanitizer\taddress sanitizer: %s\nEND\n", (unsigned long long)R->hash, d);
  if (IN_ISO) n = snprintf(b, sizeof b, "Vsanitizer\taddress sanitizer: %s\n", d);
  if (OUT_FD >= 0) (void)!write(OUT_FD, b, n);
  _exit(0);
}
static void limit_cpu(unsigned s) { struct rlimit rl{s, s + 5}; setrlimit(RLIMIT_CPU, &rl); struct rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c); }

// ---------------------------------------------------------------- heap seam
void (*SCHED_HOOK)() = nullptr;
Tracer* TR = nullptr;
static inline void sched_point(uint64_t what = 0) { if (SCHED_HOOK) SCHED_HOOK(); if (TR) trace_ev(4, what, nullptr); }
Heap HEAP; Provider EVPS; Entropy ENT; std::function<void(uint8_t*, size_t)> HASH_HOOK;
namespace {
struct Block { uint8_t* raw; size_t rawlen; size_t size; int mode; uint64_t serial; };
std::unordered_map<void*, Block>& blocks() { static auto* m = new std::unordered_map<void*, Block>; return *m; }
struct Freed { uint8_t* p; Block b; };
std::deque<Freed>& quarantine() { static auto* q = new std::deque<Freed>; return *q; }
size_t quarantine_bytes = 0;
Rng HRNG(1);
const size_t RZ = 32; const uint8_t RZB = 0xA7, FREEB = 0xDD;
void check_block(const uint8_t* p, const Block& b, const char* when) {
  if (b.mode == Heap::CHECKED) {
    for (size_t i = 1; i <= RZ; ++i) if (p[-(ptrdiff_t)i] != RZB) violate("heap-corruption", "write %zu bytes before a heap block of %zu bytes (%s)", i, b.size, when);
    for (size_t i = 0; i < RZ; ++i) if (p[b.size + i] != RZB) violate("heap-corruption", "write %zu bytes past the end of a heap block of %zu bytes (%s)", i, b.size, when);
  } else if (b.mode == Heap::GUARD) {
    const uint8_t* lo = b.raw + 4096; const uint8_t* hi = b.raw + b.rawlen - 4096;
    for (const uint8_t* q = (hi - p > 8192) ? hi : p + b.size; q < hi; ++q) if (*q != RZB) violate("heap-corruption", "write past the end of a heap block of %zu bytes (%s)", b.size, when);
    const uint8_t* s = p > lo + 64 ? p - 64 : lo;
    for (const uint8_t* q = s; q < p; ++q) if (*q != RZB) violate("heap-corruption", "write before a heap block of %zu bytes (%s)", b.size, when);
  }
}
void release(uint8_t*, const Block& b) { if (b.mode == Heap::GUARD) munmap(b.raw, b.rawlen); else free(b.raw); }
bool alloc_fails(size_t size) {
  uint64_t k = HEAP.count++;
  bool f = HEAP.fail_at.count(k) || k >= HEAP.fail_from || size >= HEAP.fail_size || (HEAP.budget != ~0ull && HEAP.live_bytes + size > HEAP.budget);
  if (f) { ++HEAP.fail_fired; R->log("alloc #%llu of %zu bytes fails", (unsigned long long)k, size); }
  return f;
}
void dirty(uint8_t* p, size_t n) {
  switch (HEAP.fill_kind) {
    case 0: memset(p, (int)(HEAP.fill_seed * 37 + 0x5b + HEAP.count * 11) & 0xff, n); break;
    case 1: HRNG.fill(p, n); break;
    case 2: memset(p, 0, n); break;
    default: break;
  }
}
void* do_alloc(size_t align, size_t size, bool zero) {
  sched_point(size);
  if (alloc_fails(size)) { errno = ENOMEM; return nullptr; }
#ifdef SIM_ASAN
  void* q = nullptr;
  if (align <= 16) q = malloc(size); else if (posix_memalign(&q, align, size)) q = nullptr;
  if (!q) abort();
  if (zero) memset(q, 0, size); else dirty((uint8_t*)q, size);
  blocks()[q] = Block{(uint8_t*)q, size, size, Heap::PASS, HEAP.count}; ++HEAP.live_blocks; HEAP.live_bytes += size;
  return q;
#else
  Block b; b.size = size; b.mode = HEAP.mode; b.serial = HEAP.count; uint8_t* p;
  if (align < 16) align = 16;
  if (HEAP.mode == Heap::GUARD) {
    size_t body = ((size + align - 1) & ~(align - 1)) + 4095; body &= ~(size_t)4095; if (!body) body = 4096;
    b.rawlen = body + 8192;
    b.raw = (uint8_t*)mmap(nullptr, b.rawlen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b.raw == MAP_FAILED) abort();
    mprotect(b.raw, 4096, PROT_NONE); mprotect(b.raw + b.rawlen - 4096, 4096, PROT_NONE);
    p = HEAP.guard_left ? b.raw + 4096 : (uint8_t*)(((uintptr_t)(b.raw + b.rawlen - 4096) - size) & ~(align - 1));
    uint8_t* hi = b.raw + b.rawlen - 4096; uint8_t* lo = b.raw + 4096;
    size_t before = (size_t)(p - lo) < 64 ? (size_t)(p - lo) : 64; memset(p - before, RZB, before);
    if ((size_t)(hi - p) <= 8192) memset(p + size, RZB, hi - p - size);
  } else {
    b.rawlen = size + 2 * align + 2 * RZ + 64; b.raw = (uint8_t*)malloc(b.rawlen); if (!b.raw) abort();
    uintptr_t u = ((uintptr_t)b.raw + RZ + align - 1) & ~(uintptr_t)(align - 1);
    if (!((u / align) & 1)) u += align;  // aligned to exactly `align`, never better, unless the run wants it mixed
    if (HEAP.align_salt && mix(HEAP.align_salt, HEAP.count) % 3 == 0) u = (u + 63) & ~(uintptr_t)63;
    p = (uint8_t*)u; memset(p - RZ, RZB, RZ); memset(p + size, RZB, RZ);
  }
  if (zero) memset(p, 0, size); else dirty(p, size);
  blocks()[p] = b; ++HEAP.live_blocks; HEAP.live_bytes += size; if (HEAP.live_bytes > HEAP.peak) HEAP.peak = HEAP.live_bytes;
  return p;
#endif
}
void do_free(void* v) {
  if (!v) return;
  sched_point((uint64_t)(uintptr_t)v);
  auto it = blocks().find(v);
  if (it == blocks().end()) violate("bad-free", "free of an address that is not a live heap block");
  Block b = it->second; uint8_t* p = (uint8_t*)v;
  --HEAP.live_blocks; HEAP.live_bytes -= b.size;
#ifdef SIM_ASAN
  blocks().erase(it); free(v);
#else
  check_block(p, b, "at free"); blocks().erase(it);
  if (b.mode == Heap::GUARD) { mprotect(b.raw, b.rawlen, PROT_NONE); } else memset(p, FREEB, b.size);
  quarantine().push_back({p, b}); quarantine_bytes += b.rawlen;
  while (quarantine_bytes > (24u << 20) || quarantine().size() > 600) {
    Freed f = quarantine().front(); quarantine().pop_front(); quarantine_bytes -= f.b.rawlen;
    if (f.b.mode == Heap::CHECKED) for (size_t i = 0; i < f.b.size; ++i) if (f.p[i] != FREEB) violate("use-after-free", "write to a released heap block of %zu bytes", f.b.size);
    release(f.p, f.b);
  }
#endif
}
}
void heap_check() {
#ifndef SIM_ASAN
  for (auto& kv : blocks()) check_block((uint8_t*)kv.first, kv.second, "check");
  for (auto& f : quarantine()) if (f.b.mode == Heap::CHECKED) {
    check_block(f.p, f.b, "released block");
    for (size_t i = 0; i < f.b.size; ++i) if (f.p[i] != FREEB) violate("use-after-free", "write to a released heap block of %zu bytes", f.b.size);
  }
#endif
}
#define SEAM extern "C" __attribute__((visibility("default")))
SEAM void* sim_malloc(size_t n) { return do_alloc(16, n, false); }
SEAM void* sim_valloc(size_t n) { return do_alloc(4096, n, false); }
SEAM void* sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return do_alloc(16, n, true); }
SEAM void sim_free(void* p) { do_free(p); }
SEAM void* sim_realloc(void* p, size_t n) {
  if (!p) return sim_malloc(n);
  auto it = blocks().find(p); if (it == blocks().end()) violate("bad-free", "realloc of an address that is not a live heap block");
  size_t old = it->second.size; void* q = do_alloc(16, n, false); if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n); do_free(p); return q;
}
SEAM void* sim_reallocarray(void* p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
SEAM void* sim_aligned_alloc(size_t al, size_t n) { return do_alloc(al, n, false); }
SEAM void* sim_memalign(size_t al, size_t n) { return do_alloc(al, n, false); }
SEAM int sim_posix_memalign(void** out, size_t al, size_t n) { void* p = do_alloc(al, n, false); if (!p) return ENOMEM; *out = p; return 0; }
SEAM char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }

// ---------------------------------------------------------------- entropy seam
void entropy_seed(uint64_t seed) { auto r = std::make_shared<Rng>(seed ^ 0xe47209); ENT.source = [r](uint8_t* p, size_t n) { while (n--) *p++ = (uint8_t)(r->next() >> 24); }; }
static void ent_tick() { sched_point(); if (++ENT.calls > ENT.limit) violate("unbounded", "more than %llu entropy system calls within one request", (unsigned long long)ENT.limit); }
static void give(uint8_t* p, size_t n) {
  if (!n) return;
  if (n > (1u << 26)) { ENT.bulk += n; return; }
  ENT.source(p, n); ENT.delivered.insert(ENT.delivered.end(), p, p + n); ENT.writes.push_back({p, Bytes(p, p + n)});
}
static ssize_t ent_data(const char* call, void* buf, size_t len, bool allow_eof) {
  ent_tick(); ++ENT.data_calls;
  EntropyStep st{E_OK, 0, 0};
  if (ENT.pos < ENT.script.size()) st = ENT.script[ENT.pos++]; else if (ENT.forever) st = ENT.forever_step;
  if (st.kind == E_SHORT && st.n >= len) st.kind = E_OK;
  if (st.kind == E_EOF && !allow_eof) { st.kind = E_SHORT; st.n = 0; }
  if (st.kind == E_SHORT && st.n == 0 && !allow_eof) { st.kind = E_ERR; st.err = EAGAIN; }
  if (len == 0 && st.kind != E_ERR) return 0;
  switch (st.kind) {
    case E_ERR: ++ENT.faults; R->log("%s(%zu) -> errno %d", call, len, st.err); errno = st.err; return -1;
    case E_SHORT: ++ENT.faults; if (st.n == 0) goto eof; give((uint8_t*)buf, st.n); R->log("%s(%zu) -> short %zu", call, len, st.n); return st.n;
    case E_EOF: eof: ++ENT.faults; R->log("%s(%zu) -> EOF", call, len); return 0;
    default: give((uint8_t*)buf, len); R->log("%s(%zu) ok", call, len); return len;
  }
}
SEAM ssize_t sim_getrandom(void* b, size_t n, unsigned) { return ent_data("getrandom", b, n, false); }
SEAM int sim_getentropy(void* b, size_t n) { if (n > 256) { errno = EIO; return -1; } ssize_t r = ent_data("getentropy", b, n, false); if (r == (ssize_t)n) return 0; errno = EIO; return -1; }
SEAM void sim_arc4random_buf(void* b, size_t n) { ent_tick(); give((uint8_t*)b, n); R->log("arc4random_buf(%zu)", n); }
SEAM int sim_randombytes(unsigned char* b, unsigned long long n) { ent_tick(); give(b, n); R->log("randombytes(%llu)", n); return 0; }
SEAM void sim_OQS_randombytes(uint8_t* b, size_t n) { ent_tick(); give(b, n); R->log("OQS_randombytes(%zu)", n); }
SEAM int sim_SecRandomCopyBytes(void*, size_t n, void* b) { ssize_t r = ent_data("SecRandomCopyBytes", b, n, false); return r == (ssize_t)n ? 0 : -67; }
SEAM int32_t sim_BCryptGenRandom(void*, unsigned char* b, unsigned long n, unsigned long) { ssize_t r = ent_data("BCryptGenRandom", b, n, false); return r == (ssize_t)n ? 0 : (int32_t)0xC0000001; }
static int ent_open(const char* path) {
  ent_tick(); EntropyStep st{E_OK, 0, 0};
  if (ENT.open_pos < ENT.open_script.size()) st = ENT.open_script[ENT.open_pos++]; else if (ENT.open_forever) st = ENT.open_forever_step;
  if (st.kind == E_ERR) { ++ENT.faults; R->log("open(%s) -> errno %d", path, st.err); errno = st.err; return -1; }
  if (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random") && strcmp(path, "/dev/hwrng")) { R->log("open(%s): no such file", path); errno = ENOENT; return -1; }
  int fd = ENT.next_fd++; ENT.fds[fd] = true; R->log("open(%s) = %d", path, fd); return fd;
}
SEAM int sim_open(const char* p, int, ...) { return ent_open(p); }
SEAM int sim_open64(const char* p, int, ...) { return ent_open(p); }
SEAM ssize_t sim_read(int fd, void* b, size_t n) {
  if (!ENT.fds.count(fd)) { ent_tick(); errno = EBADF; R->log("read(bad fd)"); return -1; }
  return ent_data("read", b, n, true);
}
SEAM int sim_close(int fd) { ent_tick(); if (!ENT.fds.erase(fd)) { ++ENT.bad_close; errno = EBADF; R->log("close(bad fd)"); return -1; } R->log("close(%d)", fd); if (ENT.close_err) { errno = ENT.close_err; return -1; } return 0; }
SEAM int sim_ioctl(int, unsigned long, int* out) {
  ent_tick(); EntropyStep st{E_OK, 0, 0};
  if (ENT.ioctl_pos < ENT.ioctl_script.size()) st = ENT.ioctl_script[ENT.ioctl_pos++];
  if (st.kind == E_ERR) { ++ENT.faults; R->log("ioctl -> errno %d", st.err); errno = st.err; return -1; }
  if (out) *out = 4096; return 0;
}
SEAM int sim_fcntl(int, int, ...) { ent_tick(); return 0; }
SEAM int sim_poll(struct pollfd* p, unsigned long n, int) { ent_tick(); for (unsigned long i = 0; i < n; ++i) p[i].revents = p[i].events; return (int)n; }
// stdio on the entropy device: unbuffered over the simulated descriptors
SEAM void* sim_fopen(const char* p, const char*) { int fd = ent_open(p); return fd < 0 ? nullptr : (void*)(intptr_t)(fd + 1); }
SEAM size_t sim_fread(void* b, size_t s, size_t n, void* f) {
  size_t want = s * n, got = 0; (void)f;
  while (got < want) { ssize_t r = ent_data("fread", (uint8_t*)b + got, want - got, true); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; got += r; }
  return s ? got / s : 0;
}
SEAM int sim_fclose(void* f) { return sim_close((int)(intptr_t)f - 1); }
SEAM long sim_syscall(long, ...) { ent_tick(); errno = ENOSYS; return -1; }
SEAM int sim_nanosleep(const void*, void*) { ent_tick(); R->now_us += 1000; return 0; }
SEAM int sim_usleep(unsigned us) { ent_tick(); R->now_us += us; return 0; }
SEAM unsigned sim_sleep(unsigned s) { ent_tick(); R->now_us += 1000000ull * s; return 0; }
SEAM int sim_getpid() { return 4242; }

// ---------------------------------------------------------------- provider seam
static bool evp_fails(const char* what) {
  sched_point();
  uint64_t k = EVPS.count++;
  if (EVPS.fail_at.count(k) || k >= EVPS.fail_from) { ++EVPS.fail_fired; if (EVPS.fail_fired < 100) R->log("provider call #%llu (%s) fails", (unsigned long long)k, what); return true; }
  return false;
}
SEAM EVP_CIPHER_CTX* sim_EVP_CIPHER_CTX_new() { if (evp_fails("ctx_new")) return nullptr; auto* c = EVP_CIPHER_CTX_new(); if (c) ++EVPS.live_ctx; return c; }
SEAM void sim_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { if (c) { --EVPS.live_ctx; if (EVPS.live_ctx < 0) violate("bad-free", "provider context released twice"); } EVP_CIPHER_CTX_free(c); }
SEAM int sim_EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX* c) { if (evp_fails("reset")) return 0; return EVP_CIPHER_CTX_reset(c); }
SEAM int sim_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const uint8_t* k, const uint8_t* iv) { if (evp_fails("init")) return 0; return EVP_EncryptInit_ex(c, t, e, k, iv); }
SEAM int sim_EVP_EncryptInit(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const uint8_t* k, const uint8_t* iv) { if (evp_fails("init")) return 0; return EVP_EncryptInit(c, t, k, iv); }
SEAM int sim_EVP_EncryptInit_ex2(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const uint8_t* k, const uint8_t* iv, const OSSL_PARAM* p) { if (evp_fails("init")) return 0; return EVP_EncryptInit_ex2(c, t, k, iv, p); }
SEAM int sim_EVP_CipherInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const uint8_t* k, const uint8_t* iv, int enc) { if (evp_fails("init")) return 0; return EVP_CipherInit_ex(c, t, e, k, iv, enc); }
SEAM int sim_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, uint8_t* o, int* l, const uint8_t* i, int n) { if (evp_fails("update")) return 0; return EVP_EncryptUpdate(c, o, l, i, n); }
SEAM int sim_EVP_CipherUpdate(EVP_CIPHER_CTX* c, uint8_t* o, int* l, const uint8_t* i, int n) { if (evp_fails("update")) return 0; return EVP_CipherUpdate(c, o, l, i, n); }
SEAM int sim_EVP_EncryptFinal_ex(EVP_CIPHER_CTX* c, uint8_t* o, int* l) { if (evp_fails("final")) return 0; return EVP_EncryptFinal_ex(c, o, l); }
SEAM int sim_EVP_EncryptFinal(EVP_CIPHER_CTX* c, uint8_t* o, int* l) { if (evp_fails("final")) return 0; return EVP_EncryptFinal(c, o, l); }
SEAM int sim_EVP_CipherFinal_ex(EVP_CIPHER_CTX* c, uint8_t* o, int* l) { if (evp_fails("final")) return 0; return EVP_CipherFinal_ex(c, o, l); }
SEAM int sim_EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX* c, int p) { return EVP_CIPHER_CTX_set_padding(c, p); }
SEAM const EVP_CIPHER* sim_EVP_aes_128_ctr() { return EVP_aes_128_ctr(); }
SEAM const EVP_CIPHER* sim_EVP_aes_192_ctr() { return EVP_aes_192_ctr(); }
SEAM const EVP_CIPHER* sim_EVP_aes_256_ctr() { return EVP_aes_256_ctr(); }
SEAM void sim_hash_output(uint8_t* d, size_t bits) { sched_point(); if (HASH_HOOK) HASH_HOOK(d, bits / 8); }

void seams_clean() {
  HEAP.mode = Heap::CHECKED; HEAP.guard_left = false; HEAP.align_salt = 0; HEAP.fill_kind = 2; HEAP.fill_seed = 0; HEAP.count = 0; HEAP.fail_fired = 0; HEAP.clear_faults();
  EVPS.count = 0; EVPS.fail_fired = 0; EVPS.clear_faults(); HASH_HOOK = nullptr;
  uint64_t lim = 200000; ENT.reset_call(); ENT.limit = lim; entropy_seed(7);
}
void with_clean(const std::function<void()>& f) {
  Heap h = HEAP; Provider p = EVPS; Entropy e = ENT; auto hk = HASH_HOOK;
  seams_clean();
#ifdef SIM_ASAN
  HEAP.mode = Heap::PASS;
#endif
  uint64_t hash = R->hash, steps = R->steps; bool vb = R->verbose; R->verbose = false;
  f();
  R->hash = hash; R->steps = steps; R->verbose = vb;
  h.live_blocks = HEAP.live_blocks; h.live_bytes = HEAP.live_bytes; p.live_ctx = EVPS.live_ctx;
  HEAP = h; EVPS = p; ENT = e; HASH_HOOK = hk;
}

// ---------------------------------------------------------------- variants
static void* need(void* h, const std::string& n) { void* p = dlsym(h, n.c_str()); if (!p) { fprintf(stderr, "symbol %s missing: %s\n", n.c_str(), dlerror()); exit(2); } return p; }
static int phdr_cb(struct dl_phdr_info* i, size_t, void* d) {
  auto* v = (Variant*)d;
  if (i->dlpi_name && v->path == i->dlpi_name)
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
      v->rw_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; v->rw_hi = v->rw_lo + i->dlpi_phdr[k].p_memsz;
      // exclude RELRO (constant after relocation)
      for (int q = 0; q < i->dlpi_phnum; ++q) if (i->dlpi_phdr[q].p_type == PT_GNU_RELRO) { uintptr_t e = i->dlpi_addr + i->dlpi_phdr[q].p_vaddr + i->dlpi_phdr[q].p_memsz; if (e > v->rw_lo && e <= v->rw_hi) v->rw_lo = e; }
    }
  return 0;
}
void load_variant(Variant& v) {
  v.h = dlopen(v.path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!v.h) { fprintf(stderr, "dlopen %s: %s\n", v.path.c_str(), dlerror()); exit(2); }
  for (int s = 0; s < 12; ++s) {
    std::string p = std::string("faest_") + SETS[s].name, c = std::string("_") + SETS[s].name; Api& a = v.api[s];
    *(void**)&a.keygen = need(v.h, p + "_keygen"); *(void**)&a.validate = need(v.h, p + "_validate_keypair");
    *(void**)&a.sign = need(v.h, p + "_sign"); *(void**)&a.swr = need(v.h, p + "_sign_with_randomness");
    *(void**)&a.verify = need(v.h, p + "_verify"); *(void**)&a.clear = need(v.h, p + "_clear_private_key");
    *(void**)&a.cs_keypair = need(v.h, "crypto_sign_keypair" + c); *(void**)&a.cs_sign = need(v.h, "crypto_sign" + c); *(void**)&a.cs_open = need(v.h, "crypto_sign_open" + c);
  }
  v.rw_lo = v.rw_hi = 0; dl_iterate_phdr(phdr_cb, &v);
}
void reload_variant(Variant& v) { dlclose(v.h); load_variant(v); }
Variant& var(const std::string& n) { if (n == "ref") return REFV; for (auto& v : VARS) if (v.name == n) return v; return VARS[0]; }
bool have_var(const std::string& n) { for (auto& v : VARS) if (v.name == n) return true; return false; }
std::vector<std::string> var_names() { std::vector<std::string> r; for (auto& v : VARS) r.push_back(v.name); return r; }

// ---------------------------------------------------------------- reference peer
static std::map<std::pair<int, uint64_t>, Key>& keycache() { static auto* m = new std::map<std::pair<int, uint64_t>, Key>; return *m; }
Key ref_key(int set, uint64_t seed) {
  auto it = keycache().find({set, seed}); if (it != keycache().end()) return it->second;
  Key k; k.set = set; k.pk.resize(SETS[set].pk); k.sk.resize(SETS[set].sk);
  with_clean([&] { entropy_seed(mix(seed, set)); if (REFV.api[set].keygen(k.pk.data(), k.sk.data())) { fprintf(stderr, "reference keygen failed\n"); _exit(2); } });
  return keycache()[{set, seed}] = k;
}
Bytes ref_sign(int set, const Bytes& sk, const uint8_t* m, size_t mlen, const Bytes& rho) {
  Bytes s(SETS[set].sig); int ret = 0; size_t l = s.size();
  with_clean([&] { ret = REFV.api[set].swr(sk.data(), m, mlen, rho.data(), rho.size(), s.data(), &l); });
  if (ret) s.clear();
  return s;
}
int ref_verify(int set, const Bytes& pk, const uint8_t* m, size_t mlen, const Bytes& sig) {
  int ret = 0; with_clean([&] { ret = REFV.api[set].verify(pk.data(), m, mlen, sig.data(), sig.size()); }); return ret;
}
const std::vector<Segment>& sig_segments(int set) {
  static std::vector<Segment> cache[12]; auto& v = cache[set];
  if (v.empty()) {
    const SetInfo& S = SETS[set]; size_t L = S.lambda / 8, eh = S.l / 8 + 2 * L + 2, o = 0;
    auto add = [&](std::string n, size_t l) { v.push_back({n, o, l}); o += l; };
    for (int i = 0; i < S.tau - 1; ++i) add("c" + std::to_string(i + 1), eh);
    add("u_tilde", L + 2); add("d", S.l / 8); add("a_tilde", L);
    for (int i = 0; i < S.tau; ++i) { int k = i < S.t0 ? S.k0 : S.k1; add("pdec" + std::to_string(i), k * L); add("com" + std::to_string(i), 2 * L); }
    add("chall3", L); add("iv", 16);
    if (o != S.sig) { fprintf(stderr, "layout mismatch set %d: %zu %zu\n", set, o, S.sig); exit(2); }
  }
  return v;
}
size_t sig_off_iv(int set) { return SETS[set].sig - 16; }

// ---------------------------------------------------------------- plans
Plan parse_plan(const std::string& t) {
  Plan p; size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size();
    std::string line = t.substr(i, e - i); i = e + 1;
    if (line.empty() || line[0] == '#') continue;
    Op o; size_t a = 0; bool first = true;
    while (a < line.size()) {
      size_t b = line.find(' ', a); if (b == std::string::npos) b = line.size();
      std::string tok = line.substr(a, b - a); a = b + 1; if (tok.empty()) continue;
      if (first) { o.name = tok; first = false; } else { size_t q = tok.find('='); if (q != std::string::npos) o.f[tok.substr(0, q)] = tok.substr(q + 1); }
    }
    p.push_back(o);
  }
  return p;
}
std::string plan_str(const Plan& p) { std::string s; for (auto& o : p) s += o.str() + "\n"; return s; }

// ---------------------------------------------------------------- isolation of faulty operations
Outcome isolated(const std::function<Bytes()>& f, unsigned cpu_s) {
  int fd[2]; if (pipe(fd)) { perror("pipe"); _exit(2); }
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) {
    close(fd[0]); OUT_FD = fd[1]; IN_ISO = true; limit_cpu(cpu_s); install_crash_handlers();
    Bytes d = f(); uint64_t h = R->hash, n = d.size();
    std::string o = "D"; o.append((char*)&h, 8); o.append((char*)&n, 8); o.append((char*)d.data(), n); send_str(o); _exit(0);
  }
  close(fd[1]); std::string in; char b[65536]; ssize_t r;
  while ((r = read(fd[0], b, sizeof b)) != 0) { if (r < 0) { if (errno == EINTR) continue; break; } in.append(b, r); }
  close(fd[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o; o.exited = WIFEXITED(st);
  if (in.size() >= 17 && in[0] == 'D') { uint64_t n, h; memcpy(&h, in.data() + 1, 8); memcpy(&n, in.data() + 9, 8); if (in.size() == 17 + n) { o.complete = true; o.data.assign(in.begin() + 17, in.end()); R->log("isolated hash %llx", (unsigned long long)h); return o; } }
  size_t nl = in.rfind('\n', in.size() > 1 ? in.size() - 2 : 0); size_t beg = nl == std::string::npos ? 0 : nl + 1;
  if (beg < in.size() && in[beg] == 'C') { unsigned long long a = 0; sscanf(in.c_str() + beg, "C%d %llx", &o.sig, &a); o.addr = a; o.timeout = o.sig == SIGXCPU; return o; }
  if (beg < in.size() && in[beg] == 'V') { std::string l = in.substr(beg + 1); size_t t = l.find('\t'); violate(l.substr(0, t), "%s", l.substr(t + 1).c_str()); }
  if (WIFSIGNALED(st)) { o.sig = WTERMSIG(st); o.timeout = o.sig == SIGKILL || o.sig == SIGXCPU; o.addr = ~0ull; }
  else if (WIFEXITED(st)) { o.sig = -1; o.addr = WEXITSTATUS(st); }
  return o;
}
__attribute__((noinline)) void paint_stack(uint64_t seed, size_t n) {
  volatile uint8_t* p = (volatile uint8_t*)__builtin_alloca(n);
  uint64_t x = seed | 1;
  for (size_t i = 0; i < n; i += 1) { if ((i & 7) == 0) x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = (uint8_t)(x >> (8 * (i & 7))); }
  __asm__ volatile("" ::: "memory");
}

// ---------------------------------------------------------------- generation helpers
int pick_set(Rng& r, unsigned sw) {
  unsigned tot = 0; for (auto& s : SETS) tot += s.name[strlen(s.name) - 1] == 's' ? sw : 8;
  uint64_t x = r.below(tot);
  for (int i = 0; i < 12; ++i) { unsigned w = SETS[i].name[strlen(SETS[i].name) - 1] == 's' ? sw : 8; if (x < w) return i; x -= w; }
  return 1;
}
size_t pick_mlen(Rng& r) {
  switch (r.below(10)) {
    case 0: return r.below(4);
    case 1: return r.below(64);
    case 2: { static const int rate[2] = {168, 136}; size_t k = r.range(1, 6) * rate[r.below(2)]; long d = (long)r.below(9) - 4; static const int pre[] = {0, 32, 48, 64, 1, 33, 49, 65}; long v = (long)k + d - pre[r.below(8)]; return v < 0 ? 0 : v; }
    case 3: case 6: case 7: { size_t k = (size_t)1 << (r.chance(1, 16) ? 18 + r.below(5) : 5 + r.below(13)); static const int mul[] = {1, 1, 1, 1, 2, 3, 5}; long d = (long)r.below(3) - 1; return k * mul[r.below(7)] + d; }
    case 4: return r.below(3300);
    case 5: return r.below(70000);
    default: return r.below(200);
  }
}

// ---------------------------------------------------------------- one run in a child
struct Result { bool ok = false, crash = false; uint64_t hash = 0, steps = 0, now = 0; std::map<std::string, uint64_t> stats; std::vector<uint64_t> cover; std::string vcls, vmsg; };
static const Prop* PROP;
static unsigned RUN_CPU = 60, RUN_CPU_HUGE = 200;
static Result run_plan(const Plan& plan, bool verbose) {
  bool huge = false; for (auto& o : plan) if (o.name.compare(0, 4, "huge") == 0) huge = true;
  int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
  fflush(nullptr);
  pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    close(fd[0]); OUT_FD = fd[1]; limit_cpu(huge ? RUN_CPU_HUGE : RUN_CPU); install_crash_handlers(); setpgid(0, 0);
    R->verbose = verbose; seams_clean(); HRNG = Rng(99);
    PROP->exec(plan);
    send_result("END\n"); _exit(0);
  }
  close(fd[1]); std::string in; char b[65536]; ssize_t r;
  while ((r = read(fd[0], b, sizeof b)) != 0) { if (r < 0) { if (errno == EINTR) continue; break; } in.append(b, r); }
  close(fd[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result res; bool end = false; size_t i = 0;
  while (i < in.size()) {
    size_t e = in.find('\n', i); if (e == std::string::npos) break; std::string l = in.substr(i, e - i); i = e + 1;
    if (l == "END") { end = true; break; }
    if (l[0] == 'S') { unsigned long long n; int off; sscanf(l.c_str(), "S %llu %n", &n, &off); res.stats[l.substr(off)] += n; }
    else if (l[0] == 'K') { unsigned long long n; sscanf(l.c_str(), "K %llx", &n); res.cover.push_back(n); }
    else if (l[0] == 'H') { unsigned long long h, s, t; sscanf(l.c_str(), "H %llx %llu %llu", &h, &s, &t); res.hash = h; res.steps = s; res.now = t; }
    else if (l[0] == 'V') { size_t t = l.find('\t'); res.vcls = l.substr(1, t - 1); res.vmsg = l.substr(t + 1); }
    else if (l[0] == 'C') { int s; unsigned long long a; sscanf(l.c_str(), "C%d %llx", &s, &a); res.vcls = s == SIGXCPU ? "hang" : std::string("crash-") + sigabbrev_np(s); char m[100]; snprintf(m, sizeof m, "the process was killed by SIG%s%s", sigabbrev_np(s), s == SIGXCPU ? " (used more CPU time than the bound)" : ""); res.vmsg = m; }
  }
  if (!end) {
    if (WIFSIGNALED(st)) { int s = WTERMSIG(st); res.vcls = (s == SIGKILL || s == SIGXCPU) ? "hang" : std::string("crash-") + sigabbrev_np(s); res.vmsg = "the simulated process died"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { res.vcls = "sanitizer"; res.vmsg = "sanitizer report"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 2) { fprintf(stderr, "harness error in run\n"); exit(2); }
    else { res.vcls = "crash-exit"; res.vmsg = "the simulated process exited unexpectedly"; }
  }
  res.ok = res.vcls.empty();
  return res;
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string slurp(const char* p) { FILE* f = fopen(p, "r"); if (!f) { perror(p); exit(2); } std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

int main(int argc, char** argv) {
  if (!getenv("SIM_NOREEXEC")) {
    int p = personality(0xffffffff);
    setenv("SIM_NOREEXEC", "1", 1);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string prop, replay, outpath; uint64_t base = 1, first = 0, stride = 1, maxruns = ~0ull, gen = ~0ull; double secs = 10; bool verbose = false; unsigned recheck = 16;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx();
    else if (a == "--var") { std::string s = nx(); size_t q = s.find('='); Variant v; v.name = s.substr(0, q); v.path = s.substr(q + 1); if (v.name == "ref") REFV = v; else VARS.push_back(v); }
    else if (a == "--aux") { std::string s = nx(); size_t q = s.find('='); AUX[s.substr(0, q)] = s.substr(q + 1); }
    else if (a == "--seed") base = strtoull(nx().c_str(), 0, 10);
    else if (a == "--first") first = strtoull(nx().c_str(), 0, 10);
    else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
    else if (a == "--secs") secs = atof(nx().c_str());
    else if (a == "--runs") maxruns = strtoull(nx().c_str(), 0, 10);
    else if (a == "--replay") replay = nx();
    else if (a == "--gen") gen = strtoull(nx().c_str(), 0, 10);
    else if (a == "--recheck") recheck = atoi(nx().c_str());
    else if (a == "--thorough") THOROUGH = true;
    else if (a == "-v") verbose = true;
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  for (int i = 0; i < NPROPS; ++i) if (prop == PROPS[i].id) PROP = &PROPS[i];
  if (!PROP) { fprintf(stderr, "unknown property\n"); return 2; }
  signal(SIGPIPE, SIG_IGN);
  if (REFV.path.size()) load_variant(REFV);
  for (auto& v : VARS) load_variant(v);
  // warm up the provider so that lazily created global objects exist before the first fork
  { EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); uint8_t k[32] = {0}, iv[16] = {0}, o[16]; int l; for (auto* t : {EVP_aes_128_ctr(), EVP_aes_192_ctr(), EVP_aes_256_ctr()}) { EVP_EncryptInit_ex(c, t, nullptr, k, iv); EVP_EncryptUpdate(c, o, &l, k, 16); } EVP_CIPHER_CTX_free(c); }
  seams_clean();
  auto run_seed = [&](uint64_t idx) { return mix(base, idx); };
  if (gen != ~0ull) { fputs(plan_str(PROP->gen(run_seed(gen), gen, THOROUGH)).c_str(), stdout); return 0; }
  if (replay.size()) {
    Result r = run_plan(parse_plan(slurp(replay.c_str())), verbose);
    printf("{\"hash\":\"%llx\",\"steps\":%llu,\"cls\":\"%s\",\"msg\":\"%s\"}\n", (unsigned long long)r.hash, (unsigned long long)r.steps, jesc(r.vcls).c_str(), jesc(r.vmsg).c_str());
    return r.ok ? 0 : 1;
  }
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  std::map<std::string, uint64_t> stats; std::set<uint64_t> cover, hashes; uint64_t runs = 0, steps = 0, now = 0, rechecked = 0;
  for (uint64_t idx = first; runs < maxruns && el() < secs; idx += stride) {
    Plan p = PROP->gen(run_seed(idx), idx, THOROUGH);
    Result r = run_plan(p, verbose); ++runs; steps += r.steps; now += r.now; hashes.insert(r.hash);
    for (auto& s : r.stats) stats[s.first] += s.second;
    cover.insert(r.cover.begin(), r.cover.end());
    if (!r.ok) { printf("{\"violation\":1,\"idx\":%llu,\"hash\":\"%llx\",\"cls\":\"%s\",\"msg\":\"%s\"}\n", (unsigned long long)idx, (unsigned long long)r.hash, jesc(r.vcls).c_str(), jesc(r.vmsg).c_str()); fflush(stdout); break; }
    if (recheck && (idx / stride) % recheck == 1 && el() < secs) {
      Result q = run_plan(p, false); ++rechecked;
      if (q.hash != r.hash || q.ok != r.ok) { printf("{\"nondet\":1,\"idx\":%llu,\"h1\":\"%llx\",\"h2\":\"%llx\"}\n", (unsigned long long)idx, (unsigned long long)r.hash, (unsigned long long)q.hash); fflush(stdout); return 2; }
    }
    if (runs <= 2) printf("{\"sample\":%llu,\"hash\":\"%llx\",\"plan\":\"%s\"}\n", (unsigned long long)idx, (unsigned long long)r.hash, jesc(plan_str(p)).c_str());
    else if (runs <= 5) printf("{\"hashof\":%llu,\"hash\":\"%llx\"}\n", (unsigned long long)idx, (unsigned long long)r.hash);
  }
  printf("{\"done\":1,\"runs\":%llu,\"steps\":%llu,\"sim_us\":%llu,\"rechecked\":%llu,\"wall\":%.2f,\"stats\":{", (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)now, (unsigned long long)rechecked, el());
  bool f = true; for (auto& s : stats) { printf("%s\"%s\":%llu", f ? "" : ",", jesc(s.first).c_str(), (unsigned long long)s.second); f = false; }
  printf("},\"cover\":["); f = true; for (auto c : cover) { printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)c); f = false; }
  printf("],\"hashes\":["); f = true; for (auto c : hashes) { printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)c); f = false; }
  printf("]}\n");
  return 0;
}
