// C06: concurrent calls.  Real threads, of which exactly one runs at a time; who runs, and until which basic
// block, shared access or seam crossing, is decided by the plan.
#include "p_common.h"
#include <climits>
#include <pthread.h>
#include <semaphore.h>
#include <threads.h>
#include <unistd.h>

namespace {
struct Prep { Key k; const uint8_t *pk, *sk, *m, *rho, *sig, *sm; size_t mlen, rho_len; };
struct Th { pthread_t t; sem_t sem; bool done = false; std::vector<const Op*> ops; std::vector<Bytes> res; std::vector<std::string> note; Rng ent; };
std::vector<std::unique_ptr<Th>> TH; int CUR = -1; bool ON = false;
int64_t QUANT = INT64_MAX; uint64_t SWITCHES = 0, ACCN = 0, SEAMN = 0, SPINS = 0;
uintptr_t LO = 0, SPAN = 0;
struct Sw { uint64_t n; int to; };
std::vector<Sw> SCRIPT; size_t SPOS = 0; std::map<uint64_t, Sw> ACC, SEAMS_AT;
std::map<const Op*, Prep> PREP; Rng* STREAM = nullptr; sem_t MAIN; Variant* V;

int64_t next_quantum() { if (SPOS < SCRIPT.size()) { uint64_t n = SCRIPT[SPOS].n; return n ? (int64_t)n : 1; } return INT64_MAX; }
// hand the processor to another unfinished thread
void give_to(int t, int64_t q) {
  int me = CUR; QUANT = q; if (t == me) return;
  ++SWITCHES; CUR = t; STREAM = &TH[t]->ent; sem_post(&TH[t]->sem);
  if (me >= 0 && !TH[me]->done) { while (sem_wait(&TH[me]->sem)) {} }
}
int pick(int to) { std::vector<int> c; for (size_t i = 0; i < TH.size(); ++i) if (!TH[i]->done && (int)i != CUR) c.push_back((int)i); if (c.empty()) return CUR; return c[(unsigned)to % c.size()]; }
void slow() {
  if (!ON) { QUANT = INT64_MAX; return; }
  int to = 0; if (SPOS < SCRIPT.size()) to = SCRIPT[SPOS++].to;
  give_to(pick(to), next_quantum());
}
void access_event() { ++ACCN; auto it = ACC.find(ACCN); if (it != ACC.end()) give_to(pick(it->second.to), it->second.n ? (int64_t)it->second.n : 1); }
void seam_event() { if (!ON) return; ++SEAMN; auto it = SEAMS_AT.find(SEAMN); if (it != SEAMS_AT.end()) give_to(pick(it->second.to), it->second.n ? (int64_t)it->second.n : 1); }
inline void touch(const void* p) { if ((uintptr_t)p - LO < SPAN) access_event(); }
inline bool shared(const void* p, size_t n) { return SPAN && (uintptr_t)p + n > LO && (uintptr_t)p < LO + SPAN; }
void yield_blocked() { if (++SPINS > 3000000) violate("deadlock", "no thread can make progress"); if (ON) give_to(pick((int)SPINS), 200); }
}
#define SEAM extern "C" __attribute__((visibility("default")))
#define RA __builtin_return_address(0)
#define TRACE(k, v) do { if (__builtin_expect(TR != nullptr, 0)) trace_ev(k, (uint64_t)(uintptr_t)(v), RA); } while (0)
SEAM void __sanitizer_cov_trace_pc_guard(uint32_t* g) { TRACE(0, g); if (--QUANT <= 0) slow(); }
SEAM void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
SEAM void __sanitizer_cov_trace_gep(uintptr_t i) { TRACE(6, i); }
#define LS(n) SEAM void __sanitizer_cov_load##n(void* p) { TRACE(1, p); touch(p); } SEAM void __sanitizer_cov_store##n(void* p) { TRACE(2, p); touch(p); }
LS(1) LS(2) LS(4) LS(8) LS(16)
#define TRACE3(d, s, n) do { if (TR) { trace_ev(3, (uint64_t)(uintptr_t)(d), RA); trace_ev(3, (uint64_t)(uintptr_t)(s), RA); trace_ev(3, n, RA); } } while (0)
// memcpy may copy in any order: on overlapping blocks this one takes the order that destroys the source first
static void* hostile_copy(uint8_t* d, const uint8_t* s, size_t n) {
  if (d > s) for (volatile size_t i = 0; i < n; i = i + 1) d[i] = s[i]; else for (volatile size_t i = n; i; i = i - 1) d[i - 1] = s[i - 1];
  return d;
}
SEAM void* sim_memcpy(void* d, const void* s, size_t n) { TRACE3(d, s, n);
  if (d != s && (uintptr_t)d < (uintptr_t)s + n && (uintptr_t)s < (uintptr_t)d + n) { if (R) R->count("overlapping-memcpy"); return hostile_copy((uint8_t*)d, (const uint8_t*)s, n); }
  if (!shared(d, n) && !shared(s, n)) return memcpy(d, s, n);
  access_event(); memcpy(d, s, n / 2); access_event(); memcpy((uint8_t*)d + n / 2, (const uint8_t*)s + n / 2, n - n / 2); access_event(); return d;
}
SEAM void* sim_memmove(void* d, const void* s, size_t n) { TRACE3(d, s, n); bool sh = shared(d, n) || shared(s, n); if (sh) access_event(); memmove(d, s, n); if (sh) access_event(); return d; }
SEAM void* sim_memset(void* d, int c, size_t n) { TRACE3(d, nullptr, n); if (!shared(d, n)) return memset(d, c, n); access_event(); memset(d, c, n / 2); access_event(); memset((uint8_t*)d + n / 2, c, n - n / 2); access_event(); return d; }
// a comparison stops where the operands first differ
static size_t first_difference(const void* a, const void* b, size_t n) { size_t i = 0; while (i < n && ((const uint8_t*)a)[i] == ((const uint8_t*)b)[i]) ++i; return i; }
// only whether it is zero, and its sign, mean anything: every other bit of the answer is taken away
static int hostile_sign(int r) { return r > 0 ? 0x100 : r < 0 ? INT_MIN : 0; }
SEAM int sim_bcmp(const void* a, const void* b, size_t n) { if (TR) { TRACE3(a, b, n); trace_ev(5, first_difference(a, b, n), RA); } bool sh = shared(a, n) || shared(b, n); if (sh) access_event(); int r = memcmp(a, b, n); if (sh) access_event(); return hostile_sign(r); }
SEAM int sim_memcmp(const void* a, const void* b, size_t n) { if (TR) { TRACE3(a, b, n); trace_ev(5, first_difference(a, b, n), RA); } bool sh = shared(a, n) || shared(b, n); if (sh) access_event(); int r = memcmp(a, b, n); if (sh) access_event(); return hostile_sign(r); }
SEAM void sim_explicit_bzero(void* d, size_t n) { TRACE3(d, nullptr, n); bool sh = shared(d, n); if (sh) access_event(); explicit_bzero(d, n); if (sh) access_event(); }
// blocking primitives never block the processor: the waiting thread hands over
SEAM int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return pthread_mutex_trylock(m); }
SEAM int sim_pthread_mutex_lock(pthread_mutex_t* m) { for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) { SPINS = 0; return r; } yield_blocked(); } }
SEAM int sim_pthread_mutex_unlock(pthread_mutex_t* m) { int r = pthread_mutex_unlock(m); seam_event(); return r; }
SEAM int sim_mtx_trylock(mtx_t* m) { return mtx_trylock(m); }
SEAM int sim_mtx_lock(mtx_t* m) { for (;;) { int r = mtx_trylock(m); if (r != thrd_busy) { SPINS = 0; return r; } yield_blocked(); } }
SEAM int sim_mtx_unlock(mtx_t* m) { int r = mtx_unlock(m); seam_event(); return r; }
SEAM int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m) { for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) { SPINS = 0; return r; } yield_blocked(); } }
SEAM int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) { for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) { SPINS = 0; return r; } yield_blocked(); } }
SEAM int sim_pthread_rwlock_unlock(pthread_rwlock_t* m) { int r = pthread_rwlock_unlock(m); seam_event(); return r; }
static std::map<void*, int> ONCE;
static void once(void* o, void (*f)()) { for (;;) { int& s = ONCE[o]; if (s == 2) return; if (s == 0) { s = 1; f(); ONCE[o] = 2; SPINS = 0; return; } yield_blocked(); } }
SEAM int sim_pthread_once(pthread_once_t* o, void (*f)()) { once(o, f); return 0; }
SEAM void sim_call_once(once_flag* o, void (*f)()) { once(o, f); }
SEAM int sim_sched_yield() { if (ON) give_to(pick(0), 1000); return 0; }
SEAM void sim_thrd_yield() { if (ON) give_to(pick(0), 1000); }

// ---------------------------------------------------------------- operations
static Bytes run_op(Api& a, const Op& o, std::string* note) {
  int set = (int)o.i("set"); const SetInfo& S = SETS[set]; const Prep& p = PREP.at(&o); const std::string& n = o.name; Bytes out; int r = 0;
  if (n == "swr") { out.assign(S.sig, 0x11); size_t l = S.sig; r = a.swr(p.sk, p.m, p.mlen, p.rho, p.rho_len, out.data(), &l); out.push_back((uint8_t)(l == S.sig)); }
  else if (n == "sign") { out.assign(S.sig, 0x12); size_t l = S.sig; r = a.sign(p.sk, p.m, p.mlen, out.data(), &l); out.push_back((uint8_t)(l == S.sig)); }
  else if (n == "cssign") { out.assign(S.sig + p.mlen, 0x13); unsigned long long l = 0; r = a.cs_sign(out.data(), &l, p.m, p.mlen, p.sk); out.push_back((uint8_t)(l == S.sig + p.mlen)); }
  else if (n == "verify") r = a.verify(p.pk, p.m, p.mlen, p.sig, S.sig);
  else if (n == "open") { out.assign(p.mlen + 1, 0x14); unsigned long long l = 7; r = a.cs_open(out.data(), &l, p.sm, p.mlen + S.sig, p.pk); out.push_back((uint8_t)(l == p.mlen)); }
  else if (n == "keygen" || n == "cskeygen") { out.assign(S.pk + S.sk, 0); r = n == "keygen" ? a.keygen(out.data(), out.data() + S.pk) : a.cs_keypair(out.data(), out.data() + S.pk); }
  else if (n == "validate") r = a.validate(p.pk, p.sk);
  if (note) *note = n + " " + S.name + " -> " + (r ? "error" : "ok");
  out.push_back(r ? 1 : 0);
  return out;
}
static void* thread_main(void* v) {
  int id = (int)(intptr_t)v; Th& t = *TH[id];
  while (sem_wait(&t.sem)) {}
  for (auto* o : t.ops) { std::string note; t.res.push_back(run_op(V->api[o->i("set")], *o, &note)); t.note.push_back(note); R->log("thread %d: %s %llx", id, note.c_str(), (unsigned long long)hash_bytes(t.res.back().data(), t.res.back().size())); }
  t.done = true; int nx = pick(0);
  if (nx == id) { ON = false; QUANT = INT64_MAX; sem_post(&MAIN); } else give_to(nx, next_quantum());
  return nullptr;
}
static uint64_t logu(Rng& r, int lo, int hi) { uint64_t b = r.range(lo, hi); return (1ull << b) + r.below(1ull << b); }
static Plan gen_c06(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p; std::vector<std::string> vs; for (auto& n : var_names()) if (n.compare(0, 3, "cov") == 0) vs.push_back(n);
  std::string v = index % 4 == 3 && vs.size() > 1 ? vs[1] : vs[0]; bool slow = slow_var(v); bool cheap = index % 2;
  int nt = (int)r.range(2, thorough ? 6 : 4); static const int FAST[] = {1, 1, 7, 7, 3, 9, 5, 11}; int set0 = slow ? (r.chance(1, 2) ? 1 : 7) : r.chance(1, 16) ? pick_set(r, 8) : FAST[r.below(8)];
  if (cheap) set0 = pick_set(r, 8);
  p.push_back(Op("threads").set("n", nt).set("var", v).setu("seed", r.next()));
  static const char* HEAVY[] = {"swr", "swr", "sign", "verify", "verify", "open", "cssign"}; static const char* LIGHT[] = {"keygen", "keygen", "validate", "cskeygen"};
  uint64_t m0 = r.next(); int budget = slow ? 2 : 5;
  for (int t = 0; t < nt; ++t) {
    int n = (int)r.range(1, cheap ? 8 : 3);
    for (int i = 0; i < n; ++i) {
      bool heavy = !cheap && budget > 0 && (i == 0 || r.chance(1, 2)); if (heavy) --budget; if (!heavy && !cheap && i == 0) {}
      Op o(heavy ? HEAVY[r.below(7)] : LIGHT[r.below(4)]);
      o.set("t", t).set("set", r.chance(3, 4) || heavy ? (heavy && r.chance(1, 5) && !slow ? FAST[r.below(8)] : set0) : pick_set(r, 8)).set("key", (int)r.below(2)).setu("m", r.chance(1, 2) ? m0 : r.next()).set("mlen", (int)(r.chance(1, 5) ? pick_mlen(r) % 70001 : r.below(300))).setu("rho", r.below(3)).set("bad", (int)r.chance(1, 4));
      p.push_back(o);
    }
  }
  int q = (int)r.range(5, cheap ? 120 : 60), hi = cheap ? 17 : 23;
  for (int i = 0; i < q; ++i) p.push_back(Op("run").setu("n", logu(r, 1, hi)).set("to", (int)r.below(8)));
  for (uint64_t i = 1; i <= 48; ++i) if (r.chance(1, 3)) p.push_back(Op("atshared").setu("at", i).setu("n", logu(r, 4, hi + 2)).set("to", (int)r.below(8)));
  for (int i = 0; i < 40; ++i) p.push_back(Op("atshared").setu("at", logu(r, 5, 19)).setu("n", logu(r, 4, hi + 2)).set("to", (int)r.below(8)));
  for (int i = 0; i < 16; ++i) p.push_back(Op("atseam").setu("at", logu(r, 0, 13)).setu("n", logu(r, 2, hi)).set("to", (int)r.below(8)));
  return p;
}
static void exec_c06(const Plan& p) {
  uint64_t seed = 1; std::string vn; std::vector<const Op*> ops;
  for (auto& o : p) {
    if (o.name == "threads") { seed = o.u("seed"); vn = o.s("var"); }
    else if (o.name == "run") SCRIPT.push_back({o.u("n"), (int)o.i("to")});
    else if (o.name == "atshared") ACC[o.u("at")] = {o.u("n"), (int)o.i("to")};
    else if (o.name == "atseam") SEAMS_AT[o.u("at")] = {o.u("n"), (int)o.i("to")};
    else ops.push_back(&o);
  }
  if (vn.empty()) vn = "cov";
  if (ops.empty()) return;
  V = &var(vn);
  // shared read-only inputs
  std::map<uint64_t, std::vector<std::pair<const uint8_t**, Bytes>>> todo; size_t tot = 0; std::vector<std::pair<const uint8_t**, Bytes>> in;
  auto put = [&](const uint8_t** d, const Bytes& b) { in.push_back({d, b}); tot += b.size() + 16; };
  for (auto* o : ops) {
    int set = (int)o->i("set"); Prep& q = PREP[o]; q.k = ref_key(set, o->u("key")); Bytes m = msg(o->u("m"), o->u("mlen")), rho = seeded(o->u("rho"), SETS[set].lambda / 8); bool bad = o->i("bad");
    q.mlen = m.size(); q.rho_len = rho.size(); Bytes pk = q.k.pk, sk = q.k.sk; if (o->name == "validate" && bad) pk.back() ^= 1;
    put(&q.pk, pk); put(&q.sk, sk); put(&q.m, m); put(&q.rho, rho);
    if (o->name == "verify" || o->name == "open") { Bytes s = ref_sign(set, q.k.sk, m.data(), m.size(), rho); if (bad) s[o->u("m") % s.size()] ^= 4; put(&q.sig, s); Bytes sm = m; sm.insert(sm.end(), s.begin(), s.end()); put(&q.sm, sm); }
  }
  size_t len = (tot + 8191) & ~(size_t)4095; uint8_t* arena = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (arena == MAP_FAILED) abort();
  // equal inputs are one object shared by all threads
  std::map<Bytes, uint8_t*> seen; size_t off = 0;
  for (auto& e : in) { auto it = seen.find(e.second); if (it == seen.end()) { uint8_t* d = arena + off; memcpy(d, e.second.data(), e.second.size()); off += (e.second.size() + 15) & ~(size_t)15; it = seen.emplace(e.second, d).first; } *e.first = it->second; }
  mprotect(arena, len, PROT_READ);
  int nt = 0; for (auto* o : ops) nt = std::max(nt, (int)o->i("t") + 1);
  auto stream = [&](int t) { return Rng(mix(seed, 1000 + t)); };
  ENT.reset_call(); ENT.limit = 10000000; ENT.source = [](uint8_t* d, size_t n) { while (n--) *d++ = (uint8_t)(STREAM->next() >> 24); };
  // each thread's calls alone: first with an uninstrumented build of the same sources
  auto alone = [&](Variant& v, bool reload) {
    return isolated([&] { Bytes all; for (int t = 0; t < nt; ++t) { if (reload || t) reload_variant(v); Rng s = stream(t); STREAM = &s; for (auto* o : ops) if (o->i("t") == t) { Bytes b = run_op(v.api[o->i("set")], *o, nullptr); uint64_t h = hash_bytes(b.data(), b.size()); all.insert(all.end(), (uint8_t*)&h, (uint8_t*)&h + 8); } } return all; });
  };
  Outcome want = alone(var("ossl"), false);
  for (int t = 0; t < nt; ++t) { TH.emplace_back(new Th); sem_init(&TH[t]->sem, 0, 0); TH[t]->ent = stream(t); }
  sem_init(&MAIN, 0, 0);
  for (auto* o : ops) TH[o->i("t")]->ops.push_back(o);
  LO = V->rw_lo; SPAN = V->rw_hi - V->rw_lo;
  for (int t = 0; t < nt; ++t) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20); if (pthread_create(&TH[t]->t, &at, thread_main, (void*)(intptr_t)t)) { perror("pthread_create"); _exit(2); } }
  ON = true; SCHED_HOOK = seam_event; CUR = -1; give_to(0, next_quantum());
  while (sem_wait(&MAIN)) {}
  SCHED_HOOK = nullptr; SPAN = 0;
  for (int t = 0; t < nt; ++t) pthread_join(TH[t]->t, nullptr);
  R->count("switches", SWITCHES); R->count("shared-accesses", ACCN); R->count("seam-crossings", SEAMN); R->count("calls", ops.size()); R->count("fault:thread-stall", SWITCHES);
  R->log("%llu switches, %llu accesses to static data, %llu seam crossings", (unsigned long long)SWITCHES, (unsigned long long)ACCN, (unsigned long long)SEAMN);
  R->covered(mix(R->hash, SWITCHES));
  Bytes got; std::vector<std::string> names;
  for (int t = 0; t < nt; ++t) for (size_t i = 0; i < TH[t]->res.size(); ++i) { uint64_t h = hash_bytes(TH[t]->res[i].data(), TH[t]->res[i].size()); got.insert(got.end(), (uint8_t*)&h, (uint8_t*)&h + 8); names.push_back("thread " + std::to_string(t) + ": " + TH[t]->note[i]); }
  if (want.complete && want.data == got) return;
  Outcome same = alone(*V, true);
  if (!same.complete) { R->count("alone-run-failed"); return; }
  if (same.data == got) { R->count("builds-differ"); return; }
  for (size_t i = 0; i < names.size(); ++i) if (memcmp(got.data() + 8 * i, same.data.data() + 8 * i, 8)) violate("interference", "%s: the result differs from the one the same call gives alone (build %s)", names[i].c_str(), vn.c_str());
}
extern const Prop P_C06;
const Prop P_C06 = {"C06", gen_c06, exec_c06};
