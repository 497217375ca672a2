// C04 interoperability of a fleet of builds, C05 damaged traffic
#include "p_common.h"
#include "p_program.h"
#include <algorithm>
#include <queue>
#include <unistd.h>

// ---------------------------------------------------------------- huge messages: zero pages that are never written
// Only the head and the last pages are backed by their own pages, everything between is one 16 MiB chunk mapped again and again.
struct Huge { uint8_t* p; size_t n, cap; static constexpr size_t C = 16 << 20, PG = 4096; Huge(size_t len, const Bytes& head, size_t tail = PG) : n(len), cap((len + C) / C * C) {
    int fd = memfd_create("huge", 0); if (fd < 0 || ftruncate(fd, C)) abort();
    p = (uint8_t*)mmap(nullptr, cap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort();
    for (size_t o = 0; o < cap; o += C) if (mmap(p + o, C, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
    ::close(fd); size_t hp = (head.size() + PG - 1) / PG * PG, last = n / PG * PG; if (!hp) hp = PG;
    if (mmap(p, hp, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
    for (size_t o = last > tail ? (last - tail) / PG * PG : 0; o <= last; o += PG) if (o >= hp && mmap(p + o, PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
    memcpy(p, head.data(), head.size()); }
  ~Huge() { munmap(p, cap); } };

// ================================================================ C04
static Plan gen_c04(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p;
  if (index == 3 || (thorough && index % 512 == 3)) { p.push_back(Op("huge").set("set", 1).set("var", std::string("ossl")).setu("len", (1ull << 29) + r.range(1, 300)).setu("seed", r.next())); return p; }
  if (index == 6 || index == 12 || index == 13 || (thorough && (index % 512 == 6 || index % 512 == 12 || index % 512 == 13))) {  // just below, at, just above 2^32
    int k = index % 512 == 6 ? 0 : index % 512 == 12 ? 1 : 2; static const int st[] = {7, 1, 3}; static const char* vr[] = {"nist", "novec", "avx2"};
    p.push_back(Op("huge").set("cs", k == 2 || (thorough && r.chance(1, 2))).set("set", st[k]).set("var", std::string(vr[k])).setu("len", k == 0 ? (1ull << 32) - r.range(1, 31) : k == 1 ? 1ull << 32 : (1ull << 32) + r.range(1, 100)).setu("seed", r.next())); return p;
  }
  if (index % 6 == 4) {  // very many small messages under as many keys
    int set = fast_set(r, index / 6, false), n = (thorough ? 300 : 72) * 128 / (int)SETS[set].lambda; std::string v = fast_var(r);
    for (int i = 0; i < n; ++i) p.push_back(Op("round").set("set", set).set("var", v).set("to", fast_var(r)).set("key", (int)r.below(1 << 24)).setu("m", r.next() >> 1).set("mlen", (int)r.below(80)).setu("rho", r.next() >> 1));
    return p;
  }
  int set0 = (int)(index % 12); if (SETS[set0].tau < 15 || SETS[set0].name[strlen(SETS[set0].name) - 1] == 's') if (!r.chance(1, 3)) set0 = pick_set(r, 0);
  int n = (int)r.range(2, 4); uint64_t t = 0; auto names = var_names(); int keys = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    int set = r.chance(2, 3) ? set0 : pick_set(r, 0);
    t += r.below(300);
    std::string sv = r.chance(1, 12) ? "ref" : pick_var(r, set);
    Op o("send"); o.set("var", sv).set("set", set).set("key", (int)r.below(keys)).setu("m", r.below(6)).set("mlen", pick_mlen(r)).setu("t", t).set("cs", (int)r.below(3) ? 0 : 1);
    static const int rl[] = {-1, -1, -1, -1, -1, 0, 1, 8, 24, 64, 200, 15, 16, 17, 32, 48, 1000}; int k = r.chance(1, 12) ? (int)r.below(300) : rl[r.below(17)]; o.set("rho_len", k < 0 ? SETS[set].lambda / 8 : k); if (o.i("cs")) o.set("rho_len", SETS[set].lambda / 8);
    o.setu("rho", r.next());
    if (r.chance(2, 5)) o.set("iv", (int)r.range(1, 10));
    if (r.chance(1, 5)) o.set("chk", (int)(r.range(1, 10) | (r.range(1, 7) << 4)));
    if (r.chance(1, 8)) o.set("root", (int)r.range(1, 4));
    if (programmed_any(o)) o.setu("pseed", r.next());
    // deliveries: delay, duplicates; dropped = no delivery
    std::string to; int d = (int)r.range(1, 3);
    for (int j = 0; j < d; ++j) { std::string rv = pick_var(r, set); if (r.chance(1, 10)) rv = "ref"; uint64_t delay = r.chance(1, 3) ? r.below(5000) : r.below(50); to += (to.empty() ? "" : ",") + rv + ":" + std::to_string(delay); if (r.chance(1, 6)) to += "," + rv + ":" + std::to_string(delay + r.below(2000)); }
    if (r.chance(1, 12)) to = "";
    o.set("to", to); p.push_back(o);
    if (r.chance(1, 4)) p.push_back(Op("restart").set("var", names[r.below(names.size())]).setu("t", t + r.below(1500)));
  }
  return p;
}
static void exec_huge(const Op& o) {
  int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Variant& v = var(have_var(o.s("var")) ? o.s("var") : var_names()[0]); Api& a = v.api[set];
  Key k = ref_key(set, o.u("seed") & 3); Bytes head = seeded(o.u("seed"), 4096); Bytes rho = seeded(o.u("seed") + 1, S.lambda / 8), sig(S.sig); size_t l = S.sig;
  R->count("huge-message"); R->now_us += 1000;
  if (o.i("cs")) {  // combined interface, in place
    size_t n = o.u("len"); Huge h(n + S.sig, head, S.sig + 8192); h.p[n - 1] = 0x5a; unsigned long long sl = 0, ol = 0;
    entropy_stream(rho, 1); int r = a.cs_sign(h.p, &sl, h.p, n, k.sk.data());
    memcpy(sig.data(), h.p + n, S.sig); Bytes want = ref_sign(set, k.sk, h.p, n, rho);
    R->log("huge message of %zu bytes signed in place: %d %llx", n, r, (unsigned long long)hash_bytes(sig.data(), sig.size()));
    if (r || sig != want || sl != n + S.sig) violate("different-bytes", "crypto_sign %s (%s): signature of a message of %zu bytes differs from the release's (length %llu)", S.name, v.name.c_str(), n, sl);
    if (a.cs_open(h.p, &ol, h.p, n + S.sig, k.pk.data()) || ol != n) violate("rejected", "crypto_sign_open %s (%s) rejects a valid signed message of %zu bytes (length %llu)", S.name, v.name.c_str(), n, ol);
    return;
  }
  Huge h(o.u("len"), head); h.p[h.n - 1] = 0x5a;
  int r = a.swr(k.sk.data(), h.p, h.n, rho.data(), rho.size(), sig.data(), &l);
  Bytes want = ref_sign(set, k.sk, h.p, h.n, rho);
  R->log("huge message of %zu bytes signed: %d %llx", h.n, r, (unsigned long long)hash_bytes(sig.data(), sig.size()));
  if (r || sig != want) violate("different-bytes", "faest_%s (%s): signature of a message of %zu bytes differs from the release's", S.name, v.name.c_str(), h.n);
  if (a.verify(k.pk.data(), h.p, h.n, sig.data(), sig.size())) violate("rejected", "faest_%s (%s) rejects a valid signature of a message of %zu bytes", S.name, v.name.c_str(), h.n);
}
static void exec_round(const Op& o) {
  int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Key k = ref_key(set, o.u("key")); Bytes m = msg(o.u("m"), o.u("mlen")), rho = seeded(o.u("rho"), S.lambda / 8), sig(S.sig); size_t l = S.sig;
  Variant &v = var(o.s("var")), &w = var(o.s("to")); int r = v.api[set].swr(k.sk.data(), m.data(), m.size(), rho.data(), rho.size(), sig.data(), &l);
  Bytes want = ref_sign(set, k.sk, m.data(), m.size(), rho); R->count("sign"); R->now_us += 20;
  if (r || l != S.sig || sig != want) violate(r ? "sign-failed" : "different-bytes", "faest_%s: build %s and release 1.0.1 sign the same input differently (returned %d)", S.name, v.name.c_str(), r);
  int q = w.api[set].verify(k.pk.data(), m.data(), m.size(), sig.data(), sig.size()); R->count("verify");
  R->log("round %s %s -> %s %llx %d", S.name, v.name.c_str(), w.name.c_str(), (unsigned long long)hash_bytes(sig.data(), sig.size()), q);
  if (q) violate("rejected", "faest_%s: build %s rejects an undamaged signature made by build %s", S.name, w.name.c_str(), v.name.c_str());
  R->covered(mix(mix(tag(v.name.c_str()), tag(w.name.c_str())), mix(set, sig[S.sig - 20])));
}
static void exec_c04(const Plan& p) {
  struct Ev { uint64_t t, seq; int kind; const Op* o; std::string to; std::shared_ptr<Bytes> pkt; bool operator<(const Ev& e) const { return t != e.t ? t > e.t : seq > e.seq; } };
  std::priority_queue<Ev> q; uint64_t seq = 0;
  for (auto& o : p) { if (o.name == "huge") exec_huge(o); else if (o.name == "round") exec_round(o); else q.push({o.u("t") * 1000, seq++, o.name == "send" ? 0 : 2, &o, "", nullptr}); }
  std::map<std::string, Bytes> by_input;
  while (!q.empty()) {
    Ev e = q.top(); q.pop(); if (e.t > R->now_us) R->now_us = e.t; const Op& o = *e.o;
    if (e.kind == 2) { R->log("node %s crashes and restarts", o.s("var").c_str()); reload_variant(var(o.s("var"))); R->count("fault:restart"); continue; }
    int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Key k = ref_key(set, o.u("key")); Bytes m = msg(o.u("m"), o.u("mlen")); bool cs = o.i("cs");
    if (e.kind == 0) {
      Variant& v = var(o.s("var")); Api& a = v.api[set]; Bytes rho = seeded(o.u("rho"), o.u("rho_len"));
      Bytes sig(S.sig), sm; size_t l = S.sig; int r; unsigned long long sl = 0; auto fired = std::make_shared<int>(0), rfired = std::make_shared<int>(0);
      std::shared_ptr<Places> at; if (programmed_any(o)) { at = places(v, set, false); if (!programmable(o, *at, P_ROOT)) { R->count("programmed-unsupported-skipped"); continue; } }
      ENT.reset_call(); HASH_HOOK = at ? programmed(set, o, fired, at, P_ROOT) : nullptr;
      if (cs) { entropy_stream(rho, 1); sm.resize(m.size() + S.sig); r = a.cs_sign(sm.data(), &sl, m.data(), m.size(), k.sk.data()); memcpy(sig.data(), sm.data() + m.size(), S.sig); }
      else r = a.swr(k.sk.data(), m.data(), m.size(), rho.empty() ? nullptr : rho.data(), rho.size(), sig.data(), &l);
      HASH_HOOK = nullptr; R->count("sign");
      Bytes want(S.sig); size_t wl = S.sig; int wr = 0; std::function<void(uint8_t*, size_t)> hook = programmed_any(o) ? programmed_ref(set, o, rfired, nullptr) : nullptr;
      with_clean([&] { HASH_HOOK = hook; wr = var("ref").api[set].swr(k.sk.data(), m.data(), m.size(), rho.empty() ? nullptr : rho.data(), rho.size(), want.data(), &wl); });
      R->log("%s signs %s key=%d mlen=%zu rho=%zu programmed=%d -> %d %llx", v.name.c_str(), S.name, (int)o.i("key"), m.size(), rho.size(), *fired, r, (unsigned long long)hash_bytes(sig.data(), sig.size()));
      R->covered(mix(mix(tag(v.name.c_str()), set), mix(o.u("iv") * 256 + o.u("chk"), rho.size())));
      if (at && (r || sig != want || *fired != *rfired) && !places_hold(v, set, false, k, m, rho)) continue;
      if (*fired != *rfired) { R->count("programmed-mismatch-skipped"); continue; }
      if (*fired) R->count("fault:programmed-hash-output", *fired);
      if (r) violate("sign-failed", "faest_%s (%s): signing an honest message failed", S.name, v.name.c_str());
      if (cs && (sl != sm.size() || (m.size() && memcmp(sm.data(), m.data(), m.size())))) violate("bad-signed-message", "crypto_sign %s (%s): wrong length or message", S.name, v.name.c_str());
      if (!cs && l != S.sig) violate("wrong-length", "faest_%s (%s): wrong signature length %zu", S.name, v.name.c_str(), l);
      if (wr || sig != want) { size_t i = 0; while (i < S.sig && sig[i] == want[i]) ++i; std::string seg = "?"; for (auto& g : sig_segments(set)) if (i >= g.off && i < g.off + g.len) seg = g.name;
        violate("different-bytes", "faest_%s: build %s and release 1.0.1 sign the same input differently from byte %zu (%s)", S.name, v.name.c_str(), i, seg.c_str()); }
      std::string to = o.s("to"); size_t i = 0; std::set<std::string> dup;
      if (to.empty()) R->count("fault:loss");
      while (i < to.size()) { size_t c = to.find(',', i); if (c == std::string::npos) c = to.size(); std::string t = to.substr(i, c - i); i = c + 1; size_t b = t.find(':'); uint64_t dl = strtoull(t.c_str() + b + 1, 0, 10);
        if (!dup.insert(t.substr(0, b)).second) R->count("fault:duplicate");
        if (dl > 100) R->count("fault:delay");
        q.push({R->now_us + dl * 1000, seq++, 1, &o, t.substr(0, b), std::make_shared<Bytes>(sig)}); }
    } else {
      Variant& v = var(e.to); Api& a = v.api[set]; int r; auto fired = std::make_shared<int>(0);
      HASH_HOOK = nullptr;
      if (o.u("chk")) { auto at = places(v, set, true); if (!programmable(o, *at, P_C1)) { R->count("programmed-unsupported-skipped"); continue; } HASH_HOOK = programmed(set, o, fired, at, P_C1); }
      if (cs) {
        Bytes sm = m; sm.insert(sm.end(), e.pkt->begin(), e.pkt->end()); Bytes out(m.size() + 1, 0xee); unsigned long long ol = 1;
        r = a.cs_open(out.data(), &ol, sm.data(), sm.size(), k.pk.data());
        if (!r && (ol != m.size() || (m.size() && memcmp(out.data(), m.data(), m.size())))) violate("bad-opened-message", "crypto_sign_open %s (%s): wrong message or length", S.name, v.name.c_str());
      } else r = a.verify(k.pk.data(), m.data(), m.size(), e.pkt->data(), e.pkt->size());
      HASH_HOOK = nullptr; R->count("verify");
      R->log("%s receives %s from %s -> %d", e.to.c_str(), S.name, o.s("var").c_str(), r);
      R->covered(mix(mix(tag(e.to.c_str()), tag(o.s("var").c_str())), set));
      unsigned want = o.u("chk") ? __builtin_popcount((unsigned)o.u("chk") >> 4) : 0;
      if (o.u("chk") && (unsigned)*fired != want) { R->count("programmed-mismatch-skipped"); continue; }
      if (r && o.u("chk") && !places_hold(v, set, true, k, m, seeded(o.u("rho"), o.u("rho_len")))) continue;
      if (r) violate("rejected", "faest_%s: build %s rejects an undamaged signature made by build %s", S.name, e.to.c_str(), o.s("var").c_str());
    }
  }
  for (auto& v : VARS) (void)v;
}

// ================================================================ C05
static const char* DMG[] = {"flip", "flip", "flip", "flip", "byte", "zero", "swapseg", "splice", "splice", "pair", "siglen", "msgflip", "msglen", "pkflip", "pkflip", "otherkey", "crossset", "opentrunc", "faultchal", "faultchal", "replaceall", "ivmsg", "xorall", "shift"};
static Plan gen_c05(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p;
  if (index == 2 || (thorough && index % 512 == 2)) { p.push_back(Op("hugetrunc").set("set", 1).set("var", std::string("ossl")).setu("len", (1ull << 32)).set("mlen", (int)r.range(1, 300)).setu("seed", r.next())); return p; }
  if (index == 5 || (thorough && index % 512 == 5)) { p.push_back(Op("hugetrunc").set("set", 7).set("var", std::string("avx2")).setu("len", (1ull << 29)).set("mlen", (int)r.range(1, 300)).setu("seed", r.next())); return p; }
  if (index == 8 || (thorough && index % 512 == 8)) { p.push_back(Op("hugetrunc").set("set", 1).set("open", 1).set("var", std::string("nist")).setu("len", (1ull << 32)).set("mlen", (int)r.range(1, 300)).setu("seed", r.next())); return p; }
  int set = (int)(index % 12); bool slow = SETS[set].name[strlen(SETS[set].name) - 1] == 's'; if (slow && !r.chance(1, 3)) { set = pick_set(r, 0); slow = false; }
  if (index % 12 == 1 || index % 12 == 7) {  // messages of lengths around block sizes, damaged in the message only
    set = fast_set(r, index / 6, r.chance(1, 2)); int n = (thorough ? 120 : 40) * 128 / (int)SETS[set].lambda;
    for (int i = 0; i < n; ++i) {
      static const int B[] = {32, 64, 128, 136, 168, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}; int b = B[r.below(14)];
      long len = (long)b * (long)r.range(1, b >= 16384 ? 2 : 4) + (r.chance(1, 2) ? 0 : (long)r.range(0, 2) - 1);
      p.push_back(Op("base").set("set", set).set("key", (int)r.below(3)).setu("m", r.next()).set("mlen", (int)len).setu("rho", r.next()).set("by", r.chance(2, 3) ? fast_var(r) : std::string("ref")));
      for (int j = 0; j < 4; ++j) {
        Op o(r.chance(1, 4) ? "msglen" : "msgflip"); uint64_t at = r.next() & 0xffffff; if (r.chance(1, 3)) at = (uint64_t)(len - 1 - (long)r.below((uint64_t)std::min<long>(len, 300)));
        p.push_back(o.set("var", fast_var(r)).set("cs", (int)r.chance(1, 4)).set("seg", 0).setu("which", j == 0 ? 2 : r.next() & 0xffffff).setu("at", at).set("bit", (int)r.below(8)).set("inplace", (int)r.below(2)));
      }
    }
    return p;
  }
  int n = thorough ? 60 : slow ? 12 : 30; bool many = index % 6 == 3;  // very many damaged ones at quick builds
  if (many) { set = fast_set(r, index / 6, false); slow = false; n = (thorough ? 600 : 200) * 128 / (int)SETS[set].lambda; }
  p.push_back(Op("base").set("set", set).set("key", (int)r.below(3)).setu("m", r.next()).set("mlen", r.chance(1, 8) ? 0 : (int)(r.chance(1, 2) ? pick_mlen(r) : pick_mlen(r) % 5000)).setu("rho", r.next()).set("by", r.chance(1, 2) ? fast_var(r) : std::string("ref")));
  for (int i = 0; i < n; ++i) {
    Op o(DMG[r.below(sizeof(DMG) / sizeof(*DMG))]);
    o.set("var", many ? fast_var(r) : pick_var(r, set)).set("cs", (int)r.chance(1, 3)).set("seg", (int)r.below(9)).setu("which", r.next() & 0xffffff).setu("at", r.next() & 0xffffff).set("bit", (int)r.below(8)).set("inplace", (int)r.below(2));
    if (r.chance(1, slow ? 12 : 5)) o.set("prime", (int)r.range(1, 3));
    p.push_back(o);
  }
  return p;
}
static Segment pick_seg(int set, int cls, uint64_t which, size_t* ord = nullptr) {
  static const char* names[] = {"c", "u_tilde", "d", "a_tilde", "pdec", "com", "chall3", "iv", "c"};
  std::vector<Segment> v; std::string want = names[cls % 9];
  for (auto& s : sig_segments(set)) { std::string b = s.name; while (!b.empty() && isdigit((unsigned char)b.back()) && want != "chall3") b.pop_back(); if (b == want) v.push_back(s); }
  if (ord) *ord = which % v.size();
  return v[which % v.size()];
}
static void exec_c05(const Plan& p) {
  int set = 0; Key k, k2; Bytes m, sig, rho, alt[3]; bool have = false; std::string by;
  // who made the undamaged ones: the reference, or a build of the tree itself (a fault common to signer and verifier must not make them blind)
  auto honest = [&](const Bytes& sk, const Bytes& mm, const Bytes& rh) -> Bytes {
    if (by.empty() || !have_var(by)) return ref_sign(set, sk, mm.data(), mm.size(), rh);
    Bytes s(SETS[set].sig); size_t l = s.size(); if (var(by).api[set].swr(sk.data(), mm.data(), mm.size(), rh.data(), rh.size(), s.data(), &l)) violate("no-signature", "faest_%s %s: signing fails with an honest key", SETS[set].name, by.c_str());
    return s;
  };
  for (auto& o : p) {
    if (o.name == "hugetrunc") {
      int s = (int)o.i("set"); const SetInfo& S = SETS[s]; Variant& v = var(have_var(o.s("var")) ? o.s("var") : var_names()[0]); Key kk = ref_key(s, 1); Bytes head = msg(o.u("seed"), o.u("mlen"));
      Bytes sg = ref_sign(s, kk.sk, head.data(), head.size(), seeded(3, S.lambda / 8)); 
      R->count("fault:message-longer-by-2^k");
      if (o.i("open")) {
        Bytes sm = head; sm.insert(sm.end(), sg.begin(), sg.end()); Huge h(o.u("len") + sm.size(), sm); unsigned long long ol = 77;
        int r = v.api[s].cs_open(h.p, &ol, h.p, h.n, kk.pk.data()); R->log("huge open %zu -> %d", h.n, r);
        if (!r || ol != 77) violate("accepted", "crypto_sign_open %s (%s) opens a signed message of %zu bytes whose length is given as %zu bytes", S.name, v.name.c_str(), sm.size(), h.n);
        continue;
      }
      Huge h(o.u("len") + head.size(), head);
      int r = v.api[s].verify(kk.pk.data(), h.p, h.n, sg.data(), sg.size()); R->log("huge %zu -> %d", h.n, r);
      if (!r) violate("accepted", "faest_%s verify (%s) accepts a signature of %zu bytes for a message of %zu bytes", S.name, v.name.c_str(), head.size(), h.n);
      continue;
    }
    if (o.name == "base") {
      set = (int)o.i("set"); k = ref_key(set, o.u("key")); k2 = ref_key(set, o.u("key") + 17); m = msg(o.u("m"), o.u("mlen")); rho = seeded(o.u("rho"), SETS[set].lambda / 8);
      by = o.s("by"); if (by == "ref") by.clear(); sig = honest(k.sk, m, rho); for (auto& x : alt) x.clear(); have = true; R->log("base %s mlen=%zu", SETS[set].name, m.size()); continue;
    }
    if (!have) continue;
    const SetInfo& S = SETS[set]; Variant& v = var(o.s("var")); size_t L = S.lambda / 8;
    int vset = set; Bytes s = sig, mm = m, pk = k.pk; size_t slen = S.sig; bool cs = o.i("cs"), fault = false; uint64_t at = o.u("at"), w = o.u("which"); const std::string& d = o.name;
    auto other = [&](int i) -> Bytes& {
      if (alt[i].empty()) { Bytes m2 = m; if (i == 0) { if (m2.empty()) m2.push_back(1); else m2[m2.size() / 2] ^= 4; } Bytes rh = rho; if (i == 2) rh[0] ^= 1; alt[i] = honest(i == 1 ? k2.sk : k.sk, m2, rh); }
      return alt[i];
    };
    Segment g = pick_seg(set, (int)o.i("seg"), w);
    if (d == "flip") s[g.off + at % g.len] ^= 1 << (at / 7 % 8 ^ o.u("bit"));
    else if (d == "byte") s[g.off + at % g.len] = (uint8_t)(w >> 3);
    else if (d == "zero") std::fill(s.begin() + g.off, s.begin() + g.off + g.len, (at & 1) ? 0 : 0xff);
    else if (d == "swapseg") { Segment h = pick_seg(set, (int)o.i("seg"), w + 1 + at % 7); if (h.len == g.len) std::swap_ranges(s.begin() + g.off, s.begin() + g.off + g.len, s.begin() + h.off); }
    else if (d == "splice") { Bytes& a = other(at % 3); if (at & 64) { for (auto& q : sig_segments(set)) if ((q.off >= g.off)) memcpy(&s[q.off], &a[q.off], q.len); if (s == a && at % 3 == 2) s = sig; } else memcpy(&s[g.off], &a[g.off], g.len); }
    else if (d == "pair") { Segment h = pick_seg(set, (int)(o.i("seg") + (at & 1)), w + 1); size_t x = at % std::min(g.len, h.len); uint8_t b = 1 << o.u("bit"); s[g.off + x] ^= b; s[h.off + x] ^= b; }
    else if (d == "siglen") { static const long dl[] = {-1, 1, -16, 16, -32, 32, 8, -8}; switch (at % 6) { case 0: slen = 0; break; case 1: slen = S.sig + dl[w % 8]; break; case 2: slen = S.sig * 2; break; case 3: slen = SETS[w % 12].sig; break; case 4: slen = w % (2 * S.sig); break; default: slen = S.sig - 1 - w % 100; } if (slen == S.sig) ++slen; s.resize(slen, 0); }
    else if (d == "msgflip") { if (mm.empty()) mm.push_back(0); else { size_t x = (w & 1) ? at % mm.size() : (w & 2) ? mm.size() - 1 : 0; mm[x] ^= 1 << o.u("bit"); } }
    else if (d == "msglen") { switch (w % 6) { case 0: mm.push_back(0); break; case 1: if (!mm.empty()) mm.pop_back(); else mm.push_back(0x80); break; case 2: mm.resize(mm.size() + 1 + at % 300, 0); break; case 3: mm.resize(mm.size() / 2); break; case 4: mm.insert(mm.begin(), 0); break; default: if (!mm.empty()) mm.erase(mm.begin()); else mm.push_back(1); } }
    else if (d == "pkflip") { size_t x = at % pk.size(); if (w & 1) x = (w & 2) ? pk.size() - 1 : pk.size() / 2 + (at % (pk.size() / 2)); pk[x] ^= 1 << o.u("bit"); }
    else if (d == "otherkey") { if (w & 1) pk = k2.pk; else if (w & 2) std::rotate(pk.begin(), pk.begin() + pk.size() / 2, pk.end()); else memcpy(pk.data(), k2.pk.data(), pk.size() / 2); }
    else if (d == "crossset") { vset = (set + 1 + (int)(w % 11)) % 12; if (SETS[vset].name[strlen(SETS[vset].name) - 1] == 's' && SETS[vset].lambda > 128) vset = set; if (vset != set) { s.resize(SETS[vset].sig, 0); slen = s.size(); pk.resize(SETS[vset].pk, 0x11); if (slow_var(v.name) && SETS[vset].lambda > 128) vset = set; } if (vset == set) { s = sig; slen = S.sig; pk = k.pk; s[at % s.size()] ^= 1; } }
    else if (d == "opentrunc") { cs = true; }
    else if (d == "faultchal") { fault = true; }
    else if (d == "replaceall") { switch (w % 4) { case 0: std::fill(s.begin(), s.end(), 0); break; case 1: std::fill(s.begin(), s.end(), 0xff); break; case 2: { Rng r(at); r.fill(s.data(), s.size()); break; } default: { Bytes& a = other(at & 1); s = a; } } }
    else if (d == "ivmsg") { std::swap_ranges(s.end() - 16, s.end(), s.end() - 16 - (long)L); }
    else if (d == "xorall") { for (size_t x = g.off; x < g.off + g.len; ++x) s[x] ^= (uint8_t)(1 << o.u("bit")); }
    else if (d == "shift") { size_t x = g.off + at % g.len; if (w & 1) { s.erase(s.begin() + x); s.push_back(0); } else { s.insert(s.begin() + x, (uint8_t)w); s.pop_back(); } }
    if (cs && slen != S.sig && d == "siglen") cs = false;
    bool same = vset == set && s == sig && slen == S.sig && mm == m && pk == k.pk && !fault && d != "opentrunc";
    // run
    auto hits = std::make_shared<int>(0); Bytes c3(sig.begin() + sig_segments(set)[sig_segments(set).size() - 2].off, sig.end() - 16);
    if (fault) { uint64_t a2 = at; int bt = (int)o.u("bit"); int kind = (int)(w % 8), edge = (int)(w / 8 % 3); HASH_HOOK = [=](uint8_t* q, size_t n) { if (n == c3.size() && !memcmp(q, c3.data(), n)) { size_t x = a2 % n, y = (a2 / 31) % n; if (edge) x = edge == 1 ? n - 1 : 0;
        switch (kind) {
          case 1: q[x] ^= 1 << bt; q[y] ^= 0x10 << (bt & 3); break;
          case 2: q[x] = 0; break;                                          // one byte cleared
          case 3: q[x] = (uint8_t)(a2 >> 15); break;                        // one byte replaced
          case 4: { Rng z(a2); z.fill(q + x, n - x); break; }               // only a prefix agrees
          case 5: { Rng z(a2); z.fill(q, x + 1); break; }                   // only a suffix agrees
          case 6: q[x] ^= 1 << bt; q[y] ^= 1 << bt; break;                  // differences cancel
          case 7: std::swap(q[x], q[y]); break;
          default: q[x] ^= 1 << bt;
        } if (memcmp(q, c3.data(), n) == 0) q[0] ^= 1; ++*hits; } }; }
    int r; Api& a = v.api[vset];
    if (int prime = (int)o.i("prime")) {  // the receiver has just made or accepted the undamaged one itself
      auto hook = HASH_HOOK; HASH_HOOK = nullptr; Bytes own(S.sig); size_t l = S.sig; R->count("receiver-knows-the-undamaged-one");
      if (prime & 1) { int x = v.api[set].swr(k.sk.data(), m.data(), m.size(), rho.data(), rho.size(), own.data(), &l); R->log("receiver signs -> %d %d", x, own == sig); }
      if (prime & 2) R->log("receiver verifies the undamaged one -> %d", v.api[set].verify(k.pk.data(), m.data(), m.size(), sig.data(), sig.size()));
      HASH_HOOK = hook;
    }
    if (!cs) {
      Buf sb("signature", slen, 5 + at, (w & 8) ? Buf::RIGHT : Buf::CANARY); sb.load(s).seal();
      r = a.verify(pk.data(), mm.data(), mm.size(), sb.p, slen); sb.check("verify");
    } else {
      Bytes sm = mm; sm.insert(sm.end(), s.begin(), s.end());
      if (d == "opentrunc") { switch (at % 6) { case 0: sm.resize(w % S.sig); break; case 1: sm.pop_back(); break; case 2: sm.push_back(0); break; case 3: sm.resize(S.sig - 1); break; case 4: sm.erase(sm.begin()); break; default: sm.insert(sm.begin() + w % (sm.size() + 1), (uint8_t)at); } if (sm.size() == m.size() + S.sig && std::equal(m.begin(), m.end(), sm.begin()) && std::equal(sig.begin(), sig.end(), sm.begin() + m.size())) { sm[0] ^= 1; } }
      bool inplace = o.i("inplace"); Buf smb("signed message", sm.size(), 9 + at); smb.load(sm);
      Buf out("message", sm.size() + 16, 11 + at); out.dirty(77 + at); Bytes before = out.bytes(); unsigned long long ol = 0x1122334455667788ull;
      r = a.cs_open(inplace ? smb.p : out.p, &ol, smb.p, sm.size(), pk.data());
      smb.check("open"); out.check("open");
      if (r) {
        if (ol != 0x1122334455667788ull) violate("length-released", "crypto_sign_open %s (%s) rejects but sets the message length (%llu)", S.name, v.name.c_str(), ol);
        if (out.bytes() != before) violate("message-released", "crypto_sign_open %s (%s) rejects but writes the message buffer", S.name, v.name.c_str());
        if (smb.bytes() != sm) violate("message-released", "crypto_sign_open %s (%s) rejects but changes the buffer", S.name, v.name.c_str());
      }
    }
    HASH_HOOK = nullptr;
    if (fault && !*hits) { R->count("fault-missed"); same = true; if (mm == m && vset == set) {} }
    R->log("%s %s %s cs=%d seg=%s -> %d", v.name.c_str(), SETS[vset].name, d.c_str(), cs, g.name.c_str(), r);
    R->count("verify"); if (!same) R->count("fault:" + (fault ? std::string("challenge-bit-flip") : "traffic-" + d)); else R->count("undamaged");
    R->covered(mix(mix(tag(d.c_str()), mix(set, tag(g.name.c_str()))), mix(tag(v.name.c_str()), cs)));
    if (!same && r == 0) violate("accepted", "faest_%s %s (%s) accepts a damaged triple: %s%s", SETS[vset].name, cs ? "open" : "verify", v.name.c_str(), d.c_str(), d == "flip" || d == "byte" || d == "zero" || d == "splice" || d == "pair" ? (" in " + g.name).c_str() : "");
    if (same && r != 0) violate("rejected", "faest_%s %s (%s) rejects an undamaged triple", SETS[vset].name, cs ? "open" : "verify", v.name.c_str());
  }
}
extern const Prop P_C04, P_C05;
const Prop P_C04 = {"C04", gen_c04, exec_c04}, P_C05 = {"C05", gen_c05, exec_c05};
