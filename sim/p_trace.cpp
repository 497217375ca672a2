// C16: what the machine does must not depend on secrets.  A call is simulated twice from the same process image, with equal public
// values (message, one-way function input, programmed IV and challenges) and different secrets (key, signing randomness, root key).
// The instrumented build records basic blocks, addresses, sizes and seam crossings; the two histories have to be the same.
#include "p_common.h"
#include "p_program.h"
#include <sys/wait.h>
#include <unistd.h>

static const uint64_t WIN = 1ull << TRACE_SHIFT, MAXCP = 1ull << 21;
void trace_ev(uint64_t kind, uint64_t v, const void* pc) {
  Tracer& t = *TR; uint64_t n = t.n++;
  t.h = (((t.h ^ v) + kind) * 0x9e3779b97f4a7c15ull); t.h ^= t.h >> 29;
  if ((n >> TRACE_SHIFT) == t.win) t.ev[n & (WIN - 1)] = {kind, v, (uint64_t)(uintptr_t)pc};
  if ((t.n & (WIN - 1)) == 0 && (t.n >> TRACE_SHIFT) < MAXCP) t.cp[t.n >> TRACE_SHIFT] = t.h;
}
namespace {
struct Shared { uint64_t n, h; int64_t ret, fired; uint8_t sig[65536]; uint64_t cp[MAXCP]; TraceEv ev[WIN]; };
Shared* shared_map() { void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return (Shared*)p; }
struct Secrets { Bytes sk, pk, rho; Op prog; };
std::string where(Variant& v, uint64_t pc) {
  uint64_t base = 0; char line[512]; FILE* f = fopen("/proc/self/maps", "r");
  while (f && fgets(line, sizeof line, f)) { unsigned long long a, b; if (sscanf(line, "%llx-%llx", &a, &b) == 2 && pc >= a && pc < b) { unsigned long long off = 0; sscanf(line, "%*s %*s %llx", &off); base = a - off; break; } }
  if (f) fclose(f);
  if (!base) return "?";
  char cmd[700], fn[256] = "?"; snprintf(cmd, sizeof cmd, "addr2line -f -e %s 0x%llx 2>/dev/null", v.path.c_str(), (unsigned long long)(pc - base));
  FILE* p = popen(cmd, "r"); if (p) { if (!fgets(fn, sizeof fn, p)) strcpy(fn, "?"); while (fgets(line, sizeof line, p)) {} pclose(p); }
  fn[strcspn(fn, "\n")] = 0; return fn;
}
// a usable key with the given one-way function input
Bytes key_style(int set, const Bytes& input, int style, uint64_t seed) {
  Rng r(seed); size_t in = SETS[set].pk / 2, kl = SETS[set].sk - in; Bytes c = input, pk(SETS[set].pk); c.resize(in + kl);
  for (int tries = 0;; ++tries) {
    uint8_t* k = c.data() + in; r.fill(k, kl);
    if (tries < 3000) switch (style) {
      case 1: for (size_t i = 0; i < kl; ++i) k[i] = r.chance(1, 3) ? k[i] : 0; break;                         // mostly zero
      case 2: for (size_t i = 0; i < kl; ++i) k[i] = r.chance(1, 3) ? k[i] : 0xff; break;                      // mostly ones
      case 3: for (size_t i = 0; i < kl; ++i) k[i] = (uint8_t)(1 << r.below(8)); break;                        // one bit per byte
      case 4: { uint8_t x = k[0]; for (size_t i = 0; i < kl; ++i) if (!r.chance(1, 6)) k[i] = x; break; }      // repeated byte
      case 5: memcpy(k, input.data(), std::min(kl, in)); for (int i = 0; i < 3; ++i) k[r.below(kl)] ^= 1 + r.below(255); break;
      default: break;
    }
    if (model_owf(set, c.data(), pk.data())) return c;
  }
}
const char* KIND[] = {"control flow", "load address", "store address", "memory block", "library or system call", "comparison length", "array index"};
}
static Plan gen_c16(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p; 
  int n = thorough ? 6 : 4; uint64_t vk = r.below(32); std::string v = vk < (thorough ? 4 : 1) ? "covp" : vk < 14 ? "cov0" : vk < 20 ? "covn" : "cov"; if (!have_var(v)) v = "cov";
  bool vslow = v == "covp" || (v == "cov0" && !thorough);
  for (int i = 0; i < n; ++i) {
    static const char* LIGHT[] = {"keygen", "validate", "cskeygen"}; static const char* HEAVY[] = {"swr", "swr", "swr", "sign", "cssign"};
    bool heavy = i == 0 || (thorough && i == 3); std::string fn = heavy ? HEAVY[r.below(5)] : LIGHT[r.below(3)];
    int set = heavy ? pick_set(r, thorough ? 4 : 1) : (int)((index + i) % 12); static const int F[] = {1, 3, 5, 7, 9, 11}; if (heavy && vslow && !(set & 1)) set = F[r.below(6)]; if (heavy && v == "covp" && SETS[set].lambda > 128) set = r.chance(1, 2) ? 1 : 7; if (heavy && v != "covp" && r.chance(1, 2)) set = F[index / 2 % 6];
    Op o(fn); o.set("var", v).set("set", set).setu("in", r.next()).set("inkind", (int)r.below(4)).setu("a", r.next()).setu("b", r.next()).set("sa", (int)r.below(6)).set("sb", (int)r.below(6));
    if (heavy) o.setu("m", r.next()).set("mlen", (int)(r.chance(1, 3) ? 0 : r.below(300))).set("vary", (int)r.below(4)).set("iv", (int)r.range(1, 11)).set("chk", (int)(7 << 4 | r.below(11))).set("roota", (int)r.range(1, 11)).set("rootb", (int)r.range(1, 11)).setu("pseed", r.next());
    if (r.chance(1, 12)) { static const char* sc[] = {"e4", "s3", "o,e4", "e4,e4,o"}; o.set("ent", std::string(sc[r.below(4)])); }
    if (fn == "validate") o.set("bad", (int)r.below(3));
    else if (!heavy) o.set("rej", (int)(r.chance(1, 2) ? r.below(3) : 0));
    o.set("heap", (int)r.below(3)); p.push_back(o);
  }
  return p;
}
static void exec_c16(const Plan& p) {
  Shared* sh[2] = {shared_map(), shared_map()};
  for (auto& o : p) {
    int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Variant& v = var(o.s("var")); Api& a = v.api[set]; const std::string& fn = o.name; size_t in = S.pk / 2;
    bool signing = fn == "swr" || fn == "sign" || fn == "cssign", keygen = fn == "keygen" || fn == "cskeygen"; int vary = signing ? (int)o.i("vary") : 0;  // 0 all, 1 key, 2 randomness, 3 root key
    Bytes input = seeded(o.u("in"), in); if (o.i("inkind") == 1) std::fill(input.begin(), input.end(), 0); else if (o.i("inkind") == 2) std::fill(input.begin(), input.end(), 0xff);
    Secrets s[2]; Bytes m = signing ? msg(o.u("m"), o.u("mlen")) : Bytes();
    for (int x = 0; x < 2; ++x) {
      bool key2 = x && vary != 2 && vary != 3, rho2 = x && vary != 1 && vary != 3, root2 = x && vary != 1 && vary != 2;
      s[x].sk = key_style(set, input, (int)o.i(key2 ? "sb" : "sa"), o.u(key2 ? "b" : "a")); s[x].pk.resize(S.pk); model_owf(set, s[x].sk.data(), s[x].pk.data());
      s[x].rho = seeded(rho2 ? o.u("b") : o.u("a"), S.lambda / 8); if (rho2 && o.i("sb") < 3) std::fill(s[x].rho.begin(), s[x].rho.end(), o.i("sb") == 1 ? 0 : o.i("sb") == 2 ? 0xff : 0x80);
      s[x].prog = o; s[x].prog.setu("root", o.u(root2 ? "rootb" : "roota"));
    }
    if (o.i("bad")) { Bytes q = s[0].pk; q[o.i("bad") == 1 ? S.pk - 1 : in + o.u("a") % in] ^= 1 << o.u("b") % 8; s[0].pk = s[1].pk = q; }  // a public key that belongs to neither, but differs from the first one's late
    std::shared_ptr<Places> at; if (signing) { at = places(have_var("ossl") && v.name != "covn" ? var("ossl") : v, set, false); if (!programmable(s[0].prog, *at, P_ROOT)) { R->count("programmed-unsupported-skipped"); continue; } }
    Bytes rejected; for (int i = 0; i < o.i("rej"); ++i) { Bytes c = candidate(set, o.u("a") + i, false); rejected.insert(rejected.end(), c.begin(), c.end()); }
    HEAP.fill_kind = (int)o.i("heap"); HEAP.fill_seed = o.u("a") & 0xff;
    // everything the two executions use lies at the same addresses
    Bytes sk(S.sk), pk(S.pk), rho(S.lambda / 8), sig(S.sig + m.size() + 1); Tracer tracer;
    auto execute = [&](int x, uint64_t win) {
      Outcome out = isolated([&] {
        sk = s[x].sk; pk = s[x].pk; rho = s[x].rho; Shared& h = *sh[x]; auto fired = std::make_shared<int>(0); size_t l = sig.size(); unsigned long long sl = 0; int r = -9;
        Bytes ent = signing ? rho : rejected; if (keygen) ent.insert(ent.end(), sk.begin(), sk.end());
        ENT.reset_call(); entropy_stream(ent, 5); ENT.script = parse_script(o.s("ent"));
        if (signing) HASH_HOOK = programmed(set, s[x].prog, fired, at, P_ROOT);
        tracer = Tracer(); tracer.cp = h.cp; tracer.ev = h.ev; tracer.win = win; paint_stack(7, 60000); TR = &tracer;
        if (fn == "swr") r = a.swr(sk.data(), m.data(), m.size(), rho.data(), rho.size(), sig.data(), &l);
        else if (fn == "sign") r = a.sign(sk.data(), m.data(), m.size(), sig.data(), &l);
        else if (fn == "cssign") r = a.cs_sign(sig.data(), &sl, m.data(), m.size(), sk.data());
        else if (fn == "keygen") r = a.keygen(pk.data(), sk.data());
        else if (fn == "cskeygen") r = a.cs_keypair(pk.data(), sk.data());
        else r = a.validate(pk.data(), sk.data());
        TR = nullptr; HASH_HOOK = nullptr; h.n = tracer.n; h.h = tracer.h; h.ret = r; h.fired = *fired; memcpy(h.sig, sig.data() + (fn == "cssign" ? m.size() : 0), S.sig); return Bytes();
      }, 200);
      if (!out.complete) violate("crash", "faest_%s %s (%s) crashes", S.name, fn.c_str(), v.name.c_str());
    };
    execute(0, ~0ull); execute(1, ~0ull); R->count("pair:" + fn);
    R->log("%s %s %s vary=%d -> %d %d fired %d %d, %llu events", v.name.c_str(), S.name, fn.c_str(), vary, (int)sh[0]->ret, (int)sh[1]->ret, (int)sh[0]->fired, (int)sh[1]->fired, (unsigned long long)sh[0]->n);
    R->covered(mix(mix(tag(fn.c_str()), set), mix(o.u("sa") * 8 + o.u("sb"), vary * 4 + o.u("iv") * 64 + o.u("chk") * 4096)));
    R->count("trace-events", sh[0]->n + sh[1]->n); R->now_us += 1000;
    if (sh[0]->ret != sh[1]->ret || (sh[0]->ret && !o.i("bad"))) { R->count("failed-call-skipped"); continue; }
    if (signing && (sh[0]->fired != P_N || sh[1]->fired != P_N)) { R->count("programmed-mismatch-skipped"); continue; }
    if (signing) {  // the public values are what they were meant to be
      bool ok = true; for (auto& g : sig_segments(set)) { int k = g.name == "iv" ? P_IV : g.name == "chall3" ? P_C3 : -1; if (k >= 0) { Bytes b = program_value(s[0].prog, set, k); for (auto* h : sh) ok &= !memcmp(h->sig + g.off, b.data(), g.len); } }
      if (!ok) { R->count("programmed-mismatch-skipped"); continue; }
    }
    if (sh[0]->n == 0) { R->count("no-trace-skipped"); continue; }
    if (sh[0]->n == sh[1]->n && sh[0]->h == sh[1]->h) continue;
    uint64_t n = std::min(sh[0]->n, sh[1]->n), w = 0; while (((w + 1) << TRACE_SHIFT) <= n && w + 1 < MAXCP && sh[0]->cp[w + 1] == sh[1]->cp[w + 1]) ++w;
    execute(0, w); execute(1, w);
    uint64_t i = 0, end = std::min(WIN, std::min(sh[0]->n, sh[1]->n) - (w << TRACE_SHIFT));
    while (i < end && sh[0]->ev[i].kind == sh[1]->ev[i].kind && sh[0]->ev[i].value == sh[1]->ev[i].value) ++i;
    TraceEv ea{}, eb{}; uint64_t last = 0; if (i < end) ea = sh[0]->ev[i], eb = sh[1]->ev[i]; if (i) last = sh[0]->ev[i - 1].pc;
    std::string f1 = where(v, last), f2 = where(v, ea.pc), f3 = where(v, eb.pc); bool same = ea.kind == eb.kind && ea.kind; const char* k = same ? KIND[ea.kind] : KIND[0];
    violate(same ? ea.kind == 4 ? "secret-dependent-call" : "secret-dependent-address" : "secret-dependent-branch", "faest_%s %s (build %s): the %s depends on the %s, at event %llu of %llu/%llu, after %s, in %s or %s", S.name, fn.c_str(), v.name.c_str(), k,
            vary == 1 || !signing ? "key" : vary == 2 ? "signing randomness" : vary == 3 ? "root key" : "secrets", (unsigned long long)((w << TRACE_SHIFT) + i), (unsigned long long)sh[0]->n, (unsigned long long)sh[1]->n, f1.c_str(), f2.c_str(), f3.c_str());
  }
  munmap(sh[0], sizeof(Shared)); munmap(sh[1], sizeof(Shared));
}
extern const Prop P_C16;
const Prop P_C16 = {"C16", gen_c16, exec_c16};
