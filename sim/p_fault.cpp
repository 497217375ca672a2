// C08 failing heap or provider, C09 leaks and out-of-bounds accesses
#include "p_common.h"
#include <algorithm>
#include <signal.h>

namespace {
// One call of the library on prepared arguments.
struct Call {
  int set; std::string op; Key k; Bytes m, rho, sig, sm, pk; uint64_t seed; int guard; unsigned off; bool bad;
};
struct Result { int ret = 0; Bytes out; unsigned long long len = 0; Bytes delivered; };
void damage(Call& c, uint64_t x) {
  const SetInfo& S = SETS[c.set]; Bytes& s = c.sig;
  switch (x % 9) {
    case 0: s[(x >> 8) % S.sig] ^= (uint8_t)(1u << (x >> 4) % 8); break;
    case 1: { const auto& g = sig_segments(c.set); const auto& q = g[(x >> 8) % g.size()]; s[q.off + (x >> 20) % q.len] ^= (uint8_t)(1 + (x >> 40) % 255); break; }
    case 2: std::fill(s.begin(), s.end(), 0); break;
    case 3: { Rng r(x); r.fill(s.data(), s.size()); break; }
    case 4: c.pk[(x >> 8) % c.pk.size()] ^= 1; break;
    case 5: if (c.m.empty()) s[0] ^= 1; else c.m[(x >> 8) % c.m.size()] ^= 1; break;
    case 6: { Key o = ref_key(c.set, 1000 + x % 3); c.pk = o.pk; break; }
    case 7: { size_t L = SETS[c.set].lambda / 8; for (size_t i = 0; i < L; ++i) s[S.sig - 16 - L + i] = (x >> 8) & 1 ? 0 : 0xff; break; }
    default: s[S.sig - 1 - (x >> 8) % 16] ^= 1;
  }
}
Call prepare(const Op& o) {
  Call c; c.set = (int)o.i("set"); c.op = o.s("op"); c.k = ref_key(c.set, o.u("key")); c.m = msg(o.u("m"), o.u("mlen")); c.rho = seeded(o.u("rho"), SETS[c.set].lambda / 8); c.seed = o.u("m"); c.guard = (int)o.i("guard"); c.off = (unsigned)o.i("off"); c.bad = o.i("bad"); c.pk = c.k.pk;
  if (c.op == "verify" || c.op == "open") {
    c.sig = ref_sign(c.set, c.k.sk, c.m.data(), c.m.size(), c.rho);
    Call orig = c; for (uint64_t x = o.u("x"); c.bad && c.sig == orig.sig && c.m == orig.m && c.pk == orig.pk; x = mix(x, 1)) damage(c, x);
    c.sm = c.m; c.sm.insert(c.sm.end(), c.sig.begin(), c.sig.end());
  } else if (c.op == "validate" && c.bad) { if (o.u("x") & 1) c.pk[(o.u("x") >> 8) % c.pk.size()] ^= 1; else c.k.sk = candidate(c.set, o.u("x"), false); }
  else if ((c.op == "swr" || c.op == "sign" || c.op == "cssign") && c.bad) c.k.sk = candidate(c.set, o.u("x"), false);
  return c;
}
Result invoke(Api& a, const Call& c) {
  const SetInfo& S = SETS[c.set]; Result r; int g = c.guard; unsigned off = c.off; uint64_t sd = c.seed; const std::string& n = c.op;
  entropy_stream(Bytes(), sd ^ 0x77); ENT.delivered.clear();
  auto in = [&](const char* w, const Bytes& b, int i) { auto p = std::make_unique<Buf>(w, b.size(), sd + i, g, off + i); p->load(b); p->seal(); return p; };
  auto sk = in("secret key", c.k.sk, 1), pk = in("public key", c.pk, 2), m = in("message", c.m, 3);
  if (n == "swr" || n == "sign") {
    auto rho = in("randomness", c.rho, 4); Buf sg("signature", S.sig, sd + 5, g, off); sg.dirty(sd + 6); size_t l = S.sig;
    r.ret = n == "swr" ? a.swr(sk->p, m->p, c.m.size(), rho->p, c.rho.size(), sg.p, &l) : a.sign(sk->p, m->p, c.m.size(), sg.p, &l); r.out = sg.bytes(); r.len = l; sg.check(n.c_str()); rho->check(n.c_str());
  } else if (n == "cssign") {
    Buf sm("signed message", c.m.size() + S.sig, sd + 7, g, off); sm.dirty(sd + 8); unsigned long long l = 0; r.ret = a.cs_sign(sm.p, &l, m->p, c.m.size(), sk->p); r.out = sm.bytes(); r.len = l; sm.check("crypto_sign");
  } else if (n == "verify") {
    auto sg = in("signature", c.sig, 9); r.ret = a.verify(pk->p, m->p, c.m.size(), sg->p, c.sig.size()); sg->check("verify");
  } else if (n == "open") {
    auto sm = in("signed message", c.sm, 10); size_t room = c.sm.size() > S.sig ? c.sm.size() - S.sig : 0; Buf o("opened message", room, sd + 11, g, off); o.dirty(sd + 12); unsigned long long l = 0;
    r.ret = a.cs_open(o.p, &l, sm->p, c.sm.size(), pk->p); r.out = o.bytes(); r.len = l; o.check("crypto_sign_open"); sm->check("crypto_sign_open");
  } else if (n == "keygen" || n == "cskeygen") {
    Buf p2("public key", S.pk, sd + 13, g, off), s2("secret key", S.sk, sd + 14, g, off); p2.dirty(sd + 15); s2.dirty(sd + 16); r.ret = n == "keygen" ? a.keygen(p2.p, s2.p) : a.cs_keypair(p2.p, s2.p);
    r.out = p2.bytes(); Bytes s = s2.bytes(); r.out.insert(r.out.end(), s.begin(), s.end()); p2.check(n.c_str()); s2.check(n.c_str());
  } else if (n == "validate") r.ret = a.validate(pk->p, sk->p);
  sk->check(n.c_str()); pk->check(n.c_str()); m->check(n.c_str()); r.delivered = ENT.delivered;
  return r;
}
// empty: fine
std::string judge(const Call& c, const Result& r) {
  const SetInfo& S = SETS[c.set]; const std::string& n = c.op; size_t L = S.lambda / 8;
  if (r.ret) return "";
  if (n == "validate") return c.bad ? "a key pair that does not belong together is accepted" : "";
  if (n == "verify") return c.bad ? "a damaged triple is accepted" : "";
  if (n == "open") { if (c.bad) return "a damaged signed message is opened"; return r.len == c.m.size() && r.out == c.m ? "" : "opening succeeded with a wrong message"; }
  if (n == "keygen" || n == "cskeygen") {
    Bytes pk(S.pk); if (!model_owf(c.set, r.out.data() + S.pk, pk.data())) return "an unusable secret key is returned"; if (memcmp(pk.data(), r.out.data(), S.pk)) return "public and secret key do not belong together";
    return key_delivered(c.set, r.delivered, r.out.data() + S.pk) ? "" : "the secret key does not consist of delivered random bytes";
  }
  if (c.bad) return "signing with an unusable key succeeded";
  Bytes rho = c.rho; if (n != "swr") { if (r.delivered.size() < L) return "signing succeeded without randomness"; rho.assign(r.delivered.end() - L, r.delivered.end()); }
  Bytes w = ref_sign(c.set, c.k.sk, c.m.data(), c.m.size(), rho);
  if (n == "cssign") { Bytes e = c.m; e.insert(e.end(), w.begin(), w.end()); return r.len == e.size() && r.out == e ? "" : "signing succeeded with a wrong signed message"; }
  return r.len == S.sig && r.out == w ? "" : "signing succeeded with a wrong signature";
}
const char* OPS[] = {"swr", "swr", "sign", "cssign", "verify", "verify", "verify", "open", "open", "keygen", "keygen", "cskeygen", "validate", "validate"};
Op target(Rng& r, int set, const std::string& v) {
  Op o("target"); std::string n = OPS[r.below(14)]; bool verify = n == "verify" || n == "open" || n == "validate";
  o.set("set", set).set("var", v).set("op", n).set("key", (int)r.below(3)).setu("m", r.next() >> 1).set("mlen", r.chance(1, 6) ? (r.chance(1, 4) ? pick_mlen(r) % 140000 : pick_mlen(r) % 5000) : r.below(120)).setu("rho", r.next() >> 1).set("guard", (int)r.below(3)).set("off", (int)r.below(64)).set("bad", (int)r.chance(verify ? 3 : 0, 4)).setu("x", r.next() >> 1);
  return o;
}
void arm(const Op& f, uint64_t allocs, uint64_t evps) {
  const std::string k = f.s("kind"); uint64_t n = f.u("n", 1); bool evp = k.compare(0, 3, "evp") == 0; uint64_t tot = evp ? evps : allocs; if (!tot) return;
  uint64_t at = f.u("at"); at = f.i("end") ? tot - 1 - std::min(tot - 1, at) : at % tot;
  HEAP.count = HEAP.fail_fired = 0; EVPS.count = EVPS.fail_fired = 0;
  if (k == "heap") for (uint64_t i = 0; i < n; ++i) HEAP.fail_at.insert(at + i);
  else if (k == "heapfrom") HEAP.fail_from = at;
  else if (k == "heapsize") HEAP.fail_size = f.u("size");
  else if (k == "heapbudget") HEAP.budget = HEAP.live_bytes + f.u("size");
  else if (k == "evp") for (uint64_t i = 0; i < n; ++i) EVPS.fail_at.insert(at + i);
  else if (k == "evpfrom") EVPS.fail_from = at;
  else if (k == "evpevery") for (uint64_t i = at % n; i < tot; i += n) EVPS.fail_at.insert(i);
}
void disarm() { HEAP.clear_faults(); EVPS.clear_faults(); }
Op random_fault(Rng& r, bool evp_ok) {
  static const char* K[] = {"heap", "heap", "heap", "heap", "heapfrom", "heapsize", "heapbudget", "evp", "evp", "evp", "evp", "evpfrom", "evpevery"};
  Op f("fault"); f.set("kind", K[r.below(evp_ok ? 13 : 7)]);
  uint64_t at; bool end = false;
  switch (r.below(4)) { case 0: at = r.below(12); break; case 1: at = r.below(12); end = true; break; case 2: at = (1ull << r.below(16)) + r.below(1ull << r.below(16)); break; default: at = r.next() >> 20; }
  f.setu("at", at).set("end", (int)end).setu("n", r.chance(2, 3) ? 1 : r.chance(1, 2) ? r.range(2, 6) : r.range(2, 2000)).setu("size", r.chance(1, 2) ? 1ull << r.below(21) : r.below(300000));
  return f;
}
bool has_evp(const std::string& v) { return v != "port" && v != "mini" && v != "asanp"; }
}

// ================================================================ C08
static Plan gen_c08(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p; int set = (int)(index % 12); if (SETS[set].name[strlen(SETS[set].name) - 1] == 's' && !r.chance(1, 8)) set = pick_set(r, 0);
  std::string v = pick_var(r, set); bool slow = slow_var(v); int groups = slow ? 1 : (int)r.range(1, 3);
  for (int g = 0; g < groups; ++g) {
    p.push_back(target(r, set, v));
    int n = (int)r.range(4, slow ? 6 : thorough ? 40 : 14);
    for (int i = 0; i < n; ++i) { Op f = random_fault(r, has_evp(v)); f.set("heap", (int)r.below(3)).setu("fill", r.next() >> 1).set("gheap", (int)r.chance(1, 6)).set("again", (int)r.chance(1, 3)); p.push_back(f); }
  }
  return p;
}
static Bytes pack(const Result& r) { Bytes b; auto put = [&](const void* p, size_t n) { b.insert(b.end(), (const uint8_t*)p, (const uint8_t*)p + n); }; uint64_t a = r.ret, l = r.len, n = r.out.size(), d = r.delivered.size(); put(&a, 8); put(&l, 8); put(&n, 8); put(&d, 8); put(r.out.data(), n); put(r.delivered.data(), d); return b; }
static Result unpack(const Bytes& b) { uint64_t h[4]; memcpy(h, b.data(), 32); Result r; r.ret = (int)h[0]; r.len = h[1]; r.out.assign(b.begin() + 32, b.begin() + 32 + h[2]); r.delivered.assign(b.begin() + 32 + h[2], b.begin() + 32 + h[2] + h[3]); return r; }
static void exec_c08(const Plan& p) {
  Call c; bool have = false; Api* a = nullptr; std::string vn; uint64_t na = 0, ne = 0;
  for (auto& o : p) {
    if (o.name == "target") {
      c = prepare(o); vn = o.s("var"); a = &var(vn).api[c.set]; have = true;
      HEAP.mode = Heap::CHECKED; HEAP.count = EVPS.count = 0; Result r = invoke(*a, c); na = HEAP.count; ne = EVPS.count;
      R->log("%s %s %s: %d, %llu allocations, %llu provider calls", vn.c_str(), SETS[c.set].name, c.op.c_str(), r.ret ? -1 : 0, (unsigned long long)na, (unsigned long long)ne); R->count("calls-without-fault");
      std::string w = judge(c, r); if (!w.empty()) violate("wrong-without-fault", "%s faest_%s %s: %s", vn.c_str(), SETS[c.set].name, c.op.c_str(), w.c_str());
      if (r.ret && !c.bad) violate("wrong-without-fault", "%s faest_%s %s: failed without a fault", vn.c_str(), SETS[c.set].name, c.op.c_str());
      continue;
    }
    if (!have) continue;
    std::string kind = o.s("kind"); std::string what = vn + " faest_" + SETS[c.set].name + " " + c.op + " (" + o.str() + ")"; bool again = o.i("again");
    uint64_t fired = 0;
    Outcome out = isolated([&] {
      HEAP.fill_kind = (int)o.i("heap"); HEAP.fill_seed = o.u("fill"); if (o.i("gheap")) HEAP.mode = Heap::GUARD;
      arm(o, na, ne); Result r = invoke(*a, c); uint64_t f = HEAP.fail_fired + EVPS.fail_fired; disarm(); heap_check(); Bytes b((uint8_t*)&f, (uint8_t*)&f + 8);
      std::string w = judge(c, r); if (!w.empty() && f == 0) violate("wrong-without-fault", "%s: %s", what.c_str(), w.c_str());
      Bytes e = pack(r); b.insert(b.end(), e.begin(), e.end());
      if (again) {  // the same call once more, now without a fault
        Result q = invoke(*a, c); std::string w2 = judge(c, q); if (!w2.empty() || (q.ret && !c.bad)) violate("after-failure", "%s: the next call, without a fault, gives a wrong result (%s)", what.c_str(), q.ret ? "failure" : w2.c_str());
        heap_check();
      }
      return b;
    }, 30);
    R->count("faulty-calls"); std::string res;
    if (out.complete) {
      memcpy(&fired, out.data.data(), 8); Result r = unpack(Bytes(out.data.begin() + 8, out.data.end())); std::string w = judge(c, r);
      if (!w.empty()) violate("wrong-success", "%s: %s", what.c_str(), w.c_str());
      if (!fired && r.ret && !c.bad) violate("spurious-failure", "%s: failed although no fault was injected", what.c_str());
      res = r.ret ? "error" : "correct"; R->count(fired ? "result:" + res : "fault-not-reached");
    } else if (out.timeout) violate("hang", "%s: does not finish", what.c_str());
    else if (out.sig == SIGABRT || out.sig == SIGILL || out.sig == SIGTRAP || out.sig == SIGFPE || out.sig == SIGTERM || out.sig == SIGKILL || out.sig == -1) { if (out.sig == -1 && out.addr == 77) violate("sanitizer", "%s: sanitizer report", what.c_str()); res = "stopped"; fired = 1; R->count("result:stopped"); }
    else if (out.sig == SIGSEGV && out.addr < (16u << 20)) { res = "stopped"; fired = 1; R->count("result:stopped-null"); }
    else violate("wild-access", "%s: signal %d at address %llx", what.c_str(), out.sig, (unsigned long long)out.addr);
    R->log("%s -> %s", what.c_str(), res.c_str());
    if (fired) { R->count("fault:" + kind); R->covered(mix(mix(tag(vn.c_str()), c.set), mix(tag(c.op.c_str()) + c.bad, mix(tag(kind.c_str()), mix(tag(res.c_str()), o.u("at") % (kind.compare(0, 3, "evp") ? std::max<uint64_t>(na, 1) : std::max<uint64_t>(ne, 1)) + 7 * o.u("end")))))); }
  }
}
extern const Prop P_C08;
const Prop P_C08 = {"C08", gen_c08, exec_c08};

// ================================================================ C09
static Plan gen_c09(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p; int set0 = (int)(index % 12); if (SETS[set0].name[strlen(SETS[set0].name) - 1] == 's' && !r.chance(1, 8)) set0 = pick_set(r, 0);
  if (index % 6 == 5) {  // many undisturbed calls with inputs that differ: what only some values leave behind
    std::string v = pick_var(r, 1); for (int i = 0; slow_var(v) && i < 40; ++i) v = pick_var(r, 1);
    int n = v == "asan" || slow_var(v) ? 20 : thorough ? 300 : 80, set = fast_set(r, index / 6, v == "asan" || slow_var(v)); p.push_back(Op("memory").set("mode", 0).set("heap", (int)r.below(3)).setu("fill", r.next() >> 1));
    for (int i = 0; i < n; ++i) { Op o = target(r, set, v); o.name = "call"; o.set("mlen", (int)r.below(90)).set("guard", 0).set("key", (int)r.below(1 << 20)); static const char* Q[] = {"swr", "sign", "verify", "open", "validate"}; if (r.chance(2, 3)) o.set("op", Q[r.below(5)]); p.push_back(o); }
    return p;
  }
  if (index % 12 == 1 && (index < 144 || r.chance(1, 4))) {  // every parameter family at every slow build, early on
    std::vector<std::string> c; for (const char* q : {"mini", "port"}) if (have_var(q)) c.push_back(q);
    if (!c.empty()) {
      static const int FS[] = {5, 11, 3, 1, 9, 7}; uint64_t j = index / 12; std::string v = c[j % c.size()]; int set = FS[j / c.size() % 6]; p.push_back(Op("memory").set("mode", (int)r.below(3)).set("heap", (int)r.below(3)).setu("fill", r.next() >> 1));
      Op o = target(r, set, v); o.name = "call"; static const char* Q[] = {"swr", "sign", "verify", "open"}; p.push_back(o.set("op", Q[r.below(4)]).set("mlen", (int)r.below(90)));
      return p;
    }
  }
  std::string v = pick_var(r, set0); bool slow = slow_var(v); int n = slow ? (int)r.range(1, 3) : (int)r.range(2, thorough ? 16 : 7);
  p.push_back(Op("memory").set("mode", (int)r.below(3)).set("heap", (int)r.below(3)).setu("fill", r.next() >> 1));
  for (int i = 0; i < n; ++i) {
    Op o = target(r, set0, v); o.name = "call"; static const char* H[] = {"", "", "", "", "", "key", "random", "sig", "shortsm", "entropy", "badarg", "fault", "fault", "fault"};
    std::string h = H[r.below(14)];
    if (!h.empty()) o.set("hostile", h);
    if (h == "fault") { Op f = random_fault(r, has_evp(v)); for (auto& e : f.f) o.f[e.first == "n" ? "fn" : e.first] = e.second; }
    if (h == "entropy") { static const char* T[] = {"e5", "s3,e5", "e4,e11,e5", "s1,s1,s1,e14", "o,e5", "o,o,e5"}; o.set("script", T[r.below(6)]); }
    p.push_back(o);
  }
  return p;
}
// what is done to the arguments of a call
static void make_hostile(Call& c, const std::string& h, uint64_t x) {
  Rng r(x); const SetInfo& S = SETS[c.set];
  if (h == "key") { r.fill(c.k.sk.data(), c.k.sk.size()); r.fill(c.pk.data(), c.pk.size()); if (x & 1) std::fill(c.k.sk.begin(), c.k.sk.end(), (uint8_t)(x >> 8)); if (x & 2) std::fill(c.pk.begin(), c.pk.end(), (uint8_t)(x >> 16)); }
  else if (h == "random" || h == "sig") {
    c.sig.resize(S.sig); if (h == "random") r.fill(c.sig.data(), c.sig.size()); else { const auto& g = sig_segments(c.set); int n = (int)r.range(1, 6); for (int i = 0; i < n; ++i) { const auto& q = g[r.below(g.size())]; uint8_t b = r.chance(1, 2) ? (r.chance(1, 2) ? 0xff : 0) : (uint8_t)r.next(); for (size_t k = 0; k < q.len; ++k) c.sig[q.off + k] = b; } }
    c.sm = c.m; c.sm.insert(c.sm.end(), c.sig.begin(), c.sig.end());
  } else if (h == "shortsm") { size_t n = r.chance(1, 2) ? r.below(S.sig + 1) : S.sig - r.below(4); c.sm = r.bytes(n); c.m.clear(); c.sig = r.bytes(r.chance(1, 2) ? r.below(S.sig) : S.sig + r.below(40)); }
}
static void exec_c09(const Plan& p) {
  struct Item { const Op* o; Call c; Api* a; std::string h, vn; };
  std::vector<Item> items;
  for (auto& o : p) {
    if (o.name == "memory") {
#ifdef SIM_ASAN
      HEAP.mode = Heap::PASS;
#else
      HEAP.mode = o.i("mode") ? Heap::GUARD : Heap::CHECKED; HEAP.guard_left = o.i("mode") == 2;
#endif
      HEAP.fill_kind = (int)o.i("heap"); HEAP.fill_seed = HEAP.align_salt = o.u("fill"); continue;
    }
    Item it; it.o = &o; it.c = prepare(o); it.h = o.s("hostile"); it.vn = o.s("var"); it.a = &var(it.vn).api[it.c.set];
    if (!it.h.empty()) make_hostile(it.c, it.h, o.u("x"));
#ifdef SIM_ASAN
    if (it.c.guard == Buf::CANARY) it.c.guard = Buf::EXACT;
#endif
    items.push_back(std::move(it));
  }
  auto run = [&](Item& it) {
    ENT.reset_call(); if (it.h == "entropy") { ENT.script = parse_script(it.o->s("script")); ENT.forever = true; ENT.forever_step = {E_ERR, EIO, 0}; }
    Result r;
    if (it.h == "badarg") {
      const SetInfo& S = SETS[it.c.set]; Bytes out(S.sig); size_t l = S.sig; Api& a = *it.a; const uint8_t* m = it.c.m.data();
      switch (it.o->u("x") % 6) { case 0: r.ret = a.swr(nullptr, m, it.c.m.size(), it.c.rho.data(), it.c.rho.size(), out.data(), &l); break; case 1: r.ret = a.swr(it.c.k.sk.data(), m, it.c.m.size(), it.c.rho.data(), it.c.rho.size(), nullptr, &l); break;
        case 2: l = it.o->u("x") % S.sig; r.ret = a.sign(it.c.k.sk.data(), m, it.c.m.size(), out.data(), &l); break; case 3: r.ret = a.verify(nullptr, m, it.c.m.size(), out.data(), S.sig); break; case 4: r.ret = a.verify(it.c.pk.data(), m, it.c.m.size(), out.data(), S.sig - 1); break; default: r.ret = a.validate(nullptr, it.c.k.sk.data()); }
    } else r = invoke(*it.a, it.c);
    ENT.reset_call(); return r;
  };
  std::vector<uint64_t> na(items.size()), ne(items.size());
  for (int pass = 0; pass < 2; ++pass) {
    for (size_t i = 0; i < items.size(); ++i) {
      Item& it = items[i]; if (it.h == "fault" && pass) continue;
      HEAP.count = EVPS.count = 0; int64_t b = (int64_t)HEAP.live_blocks, y = (int64_t)HEAP.live_bytes, e = EVPS.live_ctx; Result r = run(it); na[i] = HEAP.count; ne[i] = EVPS.count;
      if ((int64_t)HEAP.live_blocks > b || (int64_t)HEAP.live_bytes > y || EVPS.live_ctx > e)
        violate("leak", "%s faest_%s %s %s (returned %d) left %lld heap blocks, %lld bytes and %lld provider contexts behind", it.vn.c_str(), SETS[it.c.set].name, it.c.op.c_str(), it.h.c_str(), r.ret, (long long)HEAP.live_blocks - b, (long long)HEAP.live_bytes - y, (long long)EVPS.live_ctx - e);
      if (!pass) { R->log("%s %s %s %s -> %d", it.vn.c_str(), SETS[it.c.set].name, it.c.op.c_str(), it.h.c_str(), r.ret ? -1 : 0); R->count("calls"); if (!it.h.empty() && it.h != "fault") R->count("fault:" + (it.h == "entropy" ? std::string("entropy-error") : "hostile-" + it.h));
        R->covered(mix(mix(tag(it.vn.c_str()), it.c.set), mix(tag(it.c.op.c_str()), mix(tag(it.h.c_str()), mix(HEAP.mode * 4 + it.c.guard, r.ret != 0))))); }
    }
    heap_check();
  }
  // calls that fail for want of memory or provider, and return
  for (size_t i = 0; i < items.size(); ++i) {
    Item& it = items[i]; if (it.h != "fault") continue; Op f = *it.o; f.f["n"] = it.o->s("fn", "1");
    std::string what = it.vn + " faest_" + SETS[it.c.set].name + " " + it.c.op + " (" + f.s("kind") + " at=" + f.s("at") + ")";
    Outcome out = isolated([&] {
      uint64_t fired = 0; int ret = 0;
      for (int k = 0; k < 2; ++k) {
        int64_t b = (int64_t)HEAP.live_blocks, e = EVPS.live_ctx;
        arm(f, na[i], ne[i]); Result r = run(it); fired = HEAP.fail_fired + EVPS.fail_fired; disarm(); heap_check(); ret = r.ret;
        if ((int64_t)HEAP.live_blocks > b || EVPS.live_ctx > e) violate("leak", "%s: the call returned %d and left %lld heap blocks and %lld provider contexts behind", what.c_str(), ret, (long long)HEAP.live_blocks - b, (long long)EVPS.live_ctx - e);
      }
      return Bytes{(uint8_t)(fired != 0), (uint8_t)(ret != 0)};
    }, 60);
    R->log("%s -> %s", what.c_str(), out.complete ? (out.data[1] ? "error" : "ok") : "stopped"); R->count("fault:" + f.s("kind"));
    if (out.complete) R->count(out.data[1] ? "result:error" : "result:ok"); else R->count("result:stopped");  // an undefined null-pointer offset ends the sanitizer build (exit 77) where others stop at address zero; reports on memory accesses arrive as violations
  }
}
extern const Prop P_C09;
const Prop P_C09 = {"C09", gen_c09, exec_c09};
