// C07 history independence, C10 outputs and aliasing, C13 damaged stored keys
#include "p_common.h"
#include <algorithm>

// a key related to a base key: key (1, 2, 3, 7) or one-way-function input (4, 5, 6) differing in one byte
static Key related_key(int set, uint64_t base, int rel) {
  Key k = ref_key(set, base); if (!rel) return k;
  const SetInfo& S = SETS[set]; size_t in = S.pk / 2; Bytes pk(S.pk);
  for (int t = 0;; ++t) { Bytes sk = k.sk; size_t pos = rel == 1 ? S.sk - 1 : rel == 2 ? in : rel == 3 ? in + 16 % (S.sk - in) : rel == 5 ? in - 1 : rel == 6 ? in / 2 : rel == 7 ? S.sk - 2 - t / 200 : 0; sk[pos] ^= (uint8_t)(1 + t + (rel > 3 ? 1 : 0)); if (model_owf(set, sk.data(), pk.data())) { k.sk = sk; k.pk = pk; return k; } }
}
// ================================================================ C07
static Plan gen_c07(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p; int set0 = (int)(index % 12);
  bool slow = SETS[set0].name[strlen(SETS[set0].name) - 1] == 's'; if (slow && !r.chance(1, 4)) { set0 = pick_set(r, 0); slow = false; }
  std::string v0 = pick_var(r, set0); int n = (int)r.range(4, slow ? 6 : thorough ? 24 : 12); uint64_t m0 = r.next(); size_t ml0 = r.chance(1, 3) ? pick_mlen(r) % 70001 : pick_mlen(r) % 4000;
  if (slow_var(v0) && n > 5) n = 5;
  for (int i = 0; i < n; ++i) {
    int set = r.chance(3, 4) ? set0 : pick_set(r, 0); std::string v = r.chance(5, 6) && !(slow_var(v0) && set != set0) ? v0 : pick_var(r, set);
    if (r.chance(1, 3)) p.push_back(Op("memory").set("heap", (int)r.below(3)).setu("fill", r.next()).setu("stack", r.next()));
    static const char* K[] = {"swr", "swr", "swr", "verify", "verify", "badverify", "open", "validate", "validate", "badkey", "fail", "keygen", "sign"};
    Op o(K[r.below(13)]);
    o.set("set", set).set("var", v).set("key", (int)r.below(2)).set("rel", r.chance(1, 2) ? 0 : (int)r.range(1, 7)).setu("m", r.chance(3, 4) ? m0 : r.next()).set("mlen", r.chance(3, 4) ? ml0 : r.chance(1, 3) ? pick_mlen(r) % 70001 : pick_mlen(r) % 4000)
        .set("medit", (int)r.below(4)).setu("rho", r.below(3)).set("rho_len", r.chance(5, 6) ? SETS[set].lambda / 8 : (int)r.below(80)).set("off", (int)r.below(64)).set("pool", (int)r.below(2)).setu("junk", r.next());
    // the same arguments again, now for another operation or with other damage
    if (!p.empty() && p.back().name != "memory" && r.chance(1, 3)) { Op q = p.back(); q.name = o.name; q.setu("junk", r.next()); if (r.chance(1, 3)) q.set("medit", (int)r.below(4)); o = q; }
    p.push_back(o);
  }
  return p;
}
struct Pool { Bytes pk = Bytes(256), sk = Bytes(256), m = Bytes(80000), sig = Bytes(60000), sm = Bytes(150000), rho = Bytes(256); };
static void exec_c07(const Plan& p) {
  auto pool = std::make_unique<Pool>(); uint64_t stack = 1; std::map<uint64_t, Bytes> memo;
  auto expected = [&](int set, const Bytes& sk, const Bytes& m, const Bytes& rho) -> const Bytes& {
    uint64_t h = mix(mix(hash_bytes(sk.data(), sk.size()), hash_bytes(m.data(), m.size())), mix(hash_bytes(rho.data(), rho.size()) + m.size(), set * 1000 + rho.size()));
    auto it = memo.find(h); if (it == memo.end()) it = memo.emplace(h, ref_sign(set, sk, m.data(), m.size(), rho)).first; return it->second; };
  for (auto& o : p) {
    if (o.name == "memory") { HEAP.fill_kind = (int)o.i("heap"); HEAP.fill_seed = o.u("fill"); stack = o.u("stack"); R->count(HEAP.fill_kind == 2 ? "heap-zeroed" : "fault:dirty-heap"); continue; }
    int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Variant& v = var(o.s("var")); Api& a = v.api[set]; Key k = related_key(set, o.u("key"), (int)o.i("rel"));
    Bytes m = msg(o.u("m"), o.u("mlen")); if (!m.empty()) { switch (o.i("medit")) { case 1: m.back() ^= 1; break; case 2: m[0] ^= 1; break; case 3: m[m.size() / 2] ^= 0x40; break; default: break; } }
    Bytes rho = seeded(o.u("rho") + 1000, o.u("rho_len")); unsigned off = (unsigned)o.i("off"); bool pooled = o.i("pool"); uint64_t junk = o.u("junk");
    // argument placement: the pool keeps all arguments at the same addresses from call to call
    Buf bsk("secret key", S.sk, junk + 1, Buf::CANARY, off), bpk("public key", S.pk, junk + 2, Buf::CANARY, off + 1), bm("message", m.size(), junk + 3, Buf::CANARY, off + 3), bs("signature", S.sig, junk + 4, Buf::CANARY, off + 5), br("randomness", rho.size(), junk + 5, Buf::CANARY, off + 7);
    uint8_t *sk = bsk.p, *pk = bpk.p, *mp = bm.p, *sg = bs.p, *rp = br.p;
    if (pooled && m.size() <= pool->m.size()) { sk = pool->sk.data() + off % 16; pk = pool->pk.data() + off % 16; mp = pool->m.data(); sg = pool->sig.data(); rp = pool->rho.data(); sk -= off % 16; pk -= off % 16; }
    memcpy(sk, k.sk.data(), S.sk); memcpy(pk, k.pk.data(), S.pk); if (!m.empty()) memcpy(mp, m.data(), m.size()); if (!rho.empty()) memcpy(rp, rho.data(), rho.size());
    { Rng j(junk); j.fill(sg, S.sig); }
    paint_stack(stack + junk, 300000); R->count(o.name);
    { static const int E[] = {0, EINTR, EAGAIN, ENOMEM, ENOSYS, EIO, ERANGE}; errno = E[junk / 64 % 7]; }  // left behind by whatever ran before
    R->covered(mix(mix(tag(o.name.c_str()), set), mix(tag(v.name.c_str()), mix(pooled, HEAP.fill_kind * 64 + off))));
    if (o.name == "swr") {
      size_t l = S.sig; int r = a.swr(sk, mp, m.size(), rho.empty() ? nullptr : rp, rho.size(), sg, &l);
      R->log("%s swr %s -> %d %llx", v.name.c_str(), S.name, r, (unsigned long long)hash_bytes(sg, S.sig));
      if (r) violate("history-dependent", "faest_%s (%s) deterministic signing failed", S.name, v.name.c_str());
      if (memcmp(sg, expected(set, k.sk, m, rho).data(), S.sig)) violate("history-dependent", "faest_%s (%s) deterministic signing gave different bytes than for the same arguments elsewhere", S.name, v.name.c_str());
      memo.size();
    } else if (o.name == "sign") {
      entropy_stream(rho, junk); ENT.reset_call(); size_t l = S.sig; int r = a.sign(sk, mp, m.size(), sg, &l); Bytes d = ENT.delivered; size_t L = S.lambda / 8;
      R->log("%s sign %s -> %d", v.name.c_str(), S.name, r);
      if (r || d.size() < L || memcmp(sg, expected(set, k.sk, m, Bytes(d.end() - L, d.end())).data(), S.sig)) violate("history-dependent", "faest_%s (%s) signing depends on more than its arguments and the delivered randomness", S.name, v.name.c_str());
    } else if (o.name == "verify" || o.name == "badverify") {
      Bytes s = expected(set, k.sk, m, rho); bool bad = o.name == "badverify";
      memcpy(sg, s.data(), S.sig); Key other = related_key(set, o.u("key"), o.i("rel") ? 0 : 1);
      if (bad) { switch (junk % 4) { case 0: sg[junk % S.sig] ^= 1; break; case 1: memcpy(pk, other.pk.data(), S.pk); break; case 2: if (!m.empty()) mp[m.size() - 1] ^= 2; else sg[0] ^= 1; break; default: sg[S.sig - 1] ^= 1; } }
      int r = a.verify(pk, mp, m.size(), sg, S.sig); R->log("%s %s %s -> %d", v.name.c_str(), o.name.c_str(), S.name, r);
      if (bad ? r == 0 : r != 0) violate("history-dependent", "faest_%s verify (%s) %s", S.name, v.name.c_str(), bad ? "accepts a damaged triple" : "rejects a valid triple");
    } else if (o.name == "open") {
      Bytes s = expected(set, k.sk, m, rho), sm = m; sm.insert(sm.end(), s.begin(), s.end()); bool bad = junk % 3 == 0; if (bad) sm[sm.size() - 1 - junk % S.sig] ^= 8;
      Bytes out(m.size() + 8, 0x33); unsigned long long ol = 5; uint8_t* sp = sm.data(); if (pooled) { memcpy(pool->sm.data(), sm.data(), sm.size()); sp = pool->sm.data(); }
      int r = a.cs_open(out.data(), &ol, sp, sm.size(), pk); R->log("%s open %s bad=%d -> %d", v.name.c_str(), S.name, bad, r);
      if (bad ? r == 0 : (r != 0 || ol != m.size() || (m.size() && memcmp(out.data(), m.data(), m.size())))) violate("history-dependent", "crypto_sign_open %s (%s) gave a wrong result", S.name, v.name.c_str());
    } else if (o.name == "validate" || o.name == "badkey") {
      bool bad = o.name == "badkey"; if (bad) { Key other = related_key(set, o.u("key"), o.i("rel") ? 0 : 1); if (junk & 1) memcpy(sk, other.sk.data(), S.sk); else pk[S.pk - 1 - junk % S.pk] ^= 1; }
      int r = a.validate(pk, sk); R->log("%s %s %s -> %d", v.name.c_str(), o.name.c_str(), S.name, r);
      if (bad ? r == 0 : r != 0) violate("history-dependent", "faest_%s validate_keypair (%s) gave a wrong result", S.name, v.name.c_str());
      if (bad && (junk & 2)) { Bytes c = candidate(set, junk, false); memcpy(sk, c.data(), S.sk); size_t l = S.sig; if (!a.swr(sk, mp, m.size(), rp, rho.size(), sg, &l)) violate("unusable-key-signs", "faest_%s (%s) signs with an unusable key", S.name, v.name.c_str()); }
    } else if (o.name == "fail") {
      size_t l = junk % S.sig; ENT.reset_call(); int r = 0;
      switch (junk % 5) {
        case 0: r = a.swr(sk, mp, m.size(), rp, rho.size(), sg, &l); break;
        case 1: l = S.sig; r = a.swr(nullptr, mp, m.size(), rp, rho.size(), sg, &l); break;
        case 2: r = a.verify(pk, mp, m.size(), sg, S.sig - 1); break;
        case 3: l = S.sig; ENT.forever = true; ENT.forever_step = {E_ERR, EIO, 0}; r = a.sign(sk, mp, m.size(), sg, &l); R->count("fault:entropy-error"); break;
        default: ENT.forever = true; ENT.forever_step = {E_ERR, EIO, 0}; r = a.keygen(pk, sk); R->count("fault:entropy-error");
      }
      ENT.reset_call(); R->log("%s failing call %d -> %d", v.name.c_str(), (int)(junk % 5), r);
      if (!r) violate("history-dependent", "%s: a call that must fail (%d) succeeded", v.name.c_str(), (int)(junk % 5));
    } else if (o.name == "keygen") {
      ENT.reset_call(); entropy_seed(junk); int r = a.keygen(pk, sk); Bytes m2(S.pk); R->log("%s keygen %s -> %d", v.name.c_str(), S.name, r);
      if (r || !key_delivered(set, ENT.delivered, sk) || !model_owf(set, sk, m2.data()) || memcmp(m2.data(), pk, S.pk)) violate("history-dependent", "faest_%s keygen (%s) gave a wrong pair", S.name, v.name.c_str());
    }
    if (!pooled) { bsk.check("call"); bpk.check("call"); bm.check("call"); bs.check("call"); br.check("call"); }
  }
}

// ================================================================ C10
static Plan gen_c10(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p; int set0 = (int)(index % 12); bool slow = SETS[set0].name[strlen(SETS[set0].name) - 1] == 's'; if (slow && !r.chance(1, 4)) { set0 = pick_set(r, 0); slow = false; }
  int n = (int)r.range(4, slow ? 6 : thorough ? 20 : 12);
  for (int i = 0; i < n; ++i) {
    static const char* K[] = {"swr", "sign", "cs", "cs", "csopen", "csopen", "small", "small", "badarg", "badkey", "entropy", "verify", "keygen", "clear", "validate", "csbad"};
    Op o(K[r.below(16)]); int set = r.chance(4, 5) ? set0 : pick_set(r, 0);
    size_t ml = r.chance(1, 6) ? r.below(3) : r.chance(1, 2) ? r.below(400) : r.range(0, 3) * SETS[set].sig / 2 + r.below(300);
    o.set("set", set).set("var", pick_var(r, set)).set("key", (int)r.below(3)).setu("m", r.next()).set("mlen", ml).setu("rho", r.next()).set("guard", (int)r.below(3)).set("off", (int)r.below(64)).setu("x", r.next() & 0xffffffff)
        .set("dist", (int64_t)r.below(2 * (ml + SETS[set].sig) + 2)).set("overlap", (int)r.below(5));
    p.push_back(o);
  }
  return p;
}
static void exec_c10(const Plan& p) {
  for (auto& o : p) {
    int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Variant& v = var(o.s("var")); Api& a = v.api[set]; Key k = ref_key(set, o.u("key")); Bytes m = msg(o.u("m"), o.u("mlen")); size_t L = S.lambda / 8;
    int g = (int)o.i("guard"); unsigned off = (unsigned)o.i("off"); uint64_t x = o.u("x"), sd = o.u("m"); Bytes rho = seeded(o.u("rho"), L);
    Buf sk("secret key", S.sk, sd + 1, g, off), pk("public key", S.pk, sd + 2, g, off), mb("message", m.size(), sd + 3, g, off), rb("randomness", L, sd + 4, g, off), sg("signature", S.sig, sd + 5, g, off);
    sk.load(k.sk); pk.load(k.pk); mb.load(m); rb.load(rho); sg.dirty(sd + 6); Bytes sg0 = sg.bytes(); auto seal = [&] { sk.seal(); pk.seal(); mb.seal(); rb.seal(); };
    ENT.reset_call(); entropy_stream(rho, 3); const std::string& n = o.name; auto chk = [&](const char* c) { sk.check(c); pk.check(c); mb.check(c); rb.check(c); sg.check(c); };
    std::string id = "faest_" + std::string(S.name) + " (" + v.name + ")"; R->count(n);
    R->covered(mix(mix(tag(n.c_str()), set), mix(tag(v.name.c_str()), mix(g, o.u("overlap")))));
    if (n == "swr" || n == "sign") {
      seal(); size_t cap = S.sig; switch (x % 4) { case 1: cap += 1; break; case 2: cap += 1000 + x % 5000; break; case 3: cap = ~(size_t)0; break; default: break; }
      size_t l = cap; int r = n == "swr" ? a.swr(sk.p, mb.p, m.size(), rb.p, L, sg.p, &l) : a.sign(sk.p, mb.p, m.size(), sg.p, &l);
      R->log("%s %s cap=%zu -> %d len=%zu %llx", id.c_str(), n.c_str(), cap, r, l, (unsigned long long)hash_bytes(sg.p, S.sig)); chk(n.c_str());
      if (r) violate("refused", "%s: signing with capacity %zu refused", id.c_str(), cap);
      if (l != S.sig) violate("wrong-length", "%s: signature length reported as %zu", id.c_str(), l);
      Bytes w = ref_sign(set, k.sk, m.data(), m.size(), n == "swr" ? rho : Bytes(ENT.delivered.end() - L, ENT.delivered.end()));
      if (memcmp(w.data(), sg.p, S.sig)) violate("wrong-output", "%s: wrong signature bytes", id.c_str());
    } else if (n == "small") {
      seal(); size_t cap = x % 3 == 0 ? S.sig - 1 : x % 3 == 1 ? 0 : (x >> 4) % S.sig; Buf sb("too small signature", cap, sd + 9, g, off); sb.dirty(sd); Bytes b0 = sb.bytes(); size_t l = cap;
      int r = (x & 64) ? a.swr(sk.p, mb.p, m.size(), rb.p, L, sb.p, &l) : a.sign(sk.p, mb.p, m.size(), sb.p, &l); R->log("%s capacity %zu -> %d", id.c_str(), cap, r); chk("sign"); sb.check("sign");
      R->count("fault:small-capacity");
      if (!r) violate("small-accepted", "%s: signing accepted a capacity of %zu", id.c_str(), cap); if (l != cap) violate("length-on-failure", "%s: refused signing changed the length", id.c_str()); if (sb.bytes() != b0) violate("write-on-failure", "%s: refused signing wrote to the buffer", id.c_str());
    } else if (n == "badarg") {
      seal(); size_t l = S.sig; int r; R->count("fault:bad-argument");
      switch (x % 8) { case 0: r = a.swr(nullptr, mb.p, m.size(), rb.p, L, sg.p, &l); break; case 1: r = a.swr(sk.p, mb.p, m.size(), nullptr, L, sg.p, &l); break; case 2: r = a.swr(sk.p, mb.p, m.size(), rb.p, L, nullptr, &l); break;
        case 3: r = a.swr(sk.p, mb.p, m.size(), rb.p, L, sg.p, nullptr); break; case 4: r = a.sign(nullptr, mb.p, m.size(), sg.p, &l); break; case 5: r = a.sign(sk.p, mb.p, m.size(), nullptr, &l); break; case 6: r = a.verify(nullptr, mb.p, m.size(), sg.p, S.sig); break; default: r = a.validate(pk.p, nullptr); }
      R->log("%s bad argument %d -> %d", id.c_str(), (int)(x % 8), r ? -1 : 0); chk("call with bad argument");
      if (!r) violate("badarg-accepted", "%s: bad argument %d accepted", id.c_str(), (int)(x % 8)); if (l != S.sig) violate("length-on-failure", "%s: failing call changed the length", id.c_str()); if (sg.bytes() != sg0) violate("write-on-failure", "%s: failing call wrote to the signature", id.c_str());
    } else if (n == "badkey" || n == "entropy") {
      if (n == "badkey") { sk.load(candidate(set, x, false)); R->count("fault:unusable-key"); } else { if (x & 1) { ENT.forever = true; ENT.forever_step = {E_ERR, EIO, 0}; } else { ENT.script.push_back({E_SHORT, 0, (size_t)(x >> 3) % L}); ENT.forever = true; ENT.forever_step = {E_ERR, EIO, 0}; } R->count("fault:entropy-error"); }
      if (x & 8) {   // the combined interface has to report it, too
        size_t smn = m.size() + S.sig; Buf sm("signed message", smn, sd + 10, g, off); sm.dirty(sd + 6); unsigned long long sl = 9; seal(); int r = a.cs_sign(sm.p, &sl, mb.p, m.size(), sk.p); R->log("%s %s crypto_sign -> %d", id.c_str(), n.c_str(), r); chk("failing crypto_sign"); sm.check("failing crypto_sign");
        if (!r) violate("failure-accepted", "%s: crypto_sign with %s succeeded", id.c_str(), n.c_str()); continue;
      }
      seal(); size_t l = S.sig + (x & 2 ? 0 : 77), l0 = l; int r = n == "badkey" && (x & 4) ? a.swr(sk.p, mb.p, m.size(), rb.p, L, sg.p, &l) : a.sign(sk.p, mb.p, m.size(), sg.p, &l);
      R->log("%s %s -> %d", id.c_str(), n.c_str(), r); chk("failing sign");
      if (!r) violate("failure-accepted", "%s: signing with %s succeeded", id.c_str(), n.c_str()); if (l != l0) violate("length-on-failure", "%s: failing sign changed the length to %zu", id.c_str(), l);
    } else if (n == "verify" || n == "validate") {
      Bytes s; if (n == "verify") { s = ref_sign(set, k.sk, m.data(), m.size(), rho); if (x & 1) s[x % S.sig] ^= 4; sg.load(s); }
      else if (x & 1) pk.p[x % S.pk] ^= 1;
      seal(); sg.seal(); int r = n == "verify" ? a.verify(pk.p, mb.p, m.size(), sg.p, S.sig) : a.validate(pk.p, sk.p); R->log("%s %s %d -> %d", id.c_str(), n.c_str(), (int)(x & 1), r); chk(n.c_str());
      if ((r == 0) == !!(x & 1)) violate("wrong-output", "%s: %s gave %d", id.c_str(), n.c_str(), r);
    } else if (n == "keygen") {
      Buf p2("public key", S.pk, sd + 11, g, off), s2("secret key", S.sk, sd + 12, g, off + 7); int r = (x & 1) ? a.cs_keypair(p2.p, s2.p) : a.keygen(p2.p, s2.p); R->log("%s keygen -> %d", id.c_str(), r); p2.check("keygen"); s2.check("keygen");
      Bytes mo(S.pk); if (r || !model_owf(set, s2.p, mo.data()) || memcmp(mo.data(), p2.p, S.pk)) violate("wrong-output", "%s: keygen gave a wrong pair", id.c_str());
    } else if (n == "clear") {
      a.clear(sk.p); sk.check("clear_private_key"); R->log("%s clear", id.c_str()); for (size_t i = 0; i < S.sk; ++i) if (sk.p[i]) violate("not-cleared", "%s: byte %zu of the private key survives clear_private_key", id.c_str(), i);
    } else if (n == "cs") {
      // message and signed message somewhere in one arena
      size_t smn = m.size() + S.sig, ar = 3 * smn + 64; Bytes arena(ar, 0x6b); size_t smo = smn + 13, mo;
      switch (o.i("overlap")) { case 0: mo = smo; break; case 1: mo = smo + o.u("dist") % (smn + 1); break; case 2: mo = smo - o.u("dist") % (m.size() + 1); break; case 3: mo = smo + o.u("dist") % 40; break; default: mo = smo - std::min<size_t>(o.u("dist") % 40, smo); }
      if (mo + m.size() > ar) mo = ar - m.size();
      if (!m.empty()) memcpy(&arena[mo], m.data(), m.size()); Bytes a0 = arena; unsigned long long sl = 9; seal(); R->count("fault:overlap");
      int r = a.cs_sign(&arena[smo], &sl, arena.data() + mo, m.size(), sk.p); chk("crypto_sign"); R->log("%s crypto_sign overlap %ld -> %d", id.c_str(), (long)mo - (long)smo, r);
      if (r || sl != smn) violate("refused", "%s: crypto_sign at distance %ld: result %d length %llu", id.c_str(), (long)mo - (long)smo, r, sl);
      Bytes w = m, s = ref_sign(set, k.sk, m.data(), m.size(), Bytes(ENT.delivered.end() - L, ENT.delivered.end())); w.insert(w.end(), s.begin(), s.end());
      if (memcmp(w.data(), &arena[smo], smn)) violate("alias", "%s: crypto_sign gives a wrong signed message if the message lies at distance %ld", id.c_str(), (long)mo - (long)smo);
      for (size_t i = 0; i < ar; ++i) if ((i < smo || i >= smo + smn) && arena[i] != a0[i]) violate("out-of-bounds-write", "%s: crypto_sign wrote outside the signed message", id.c_str());
    } else if (n == "csopen" || n == "csbad") {
      Bytes s = ref_sign(set, k.sk, m.data(), m.size(), rho), sm = m; sm.insert(sm.end(), s.begin(), s.end()); bool bad = n == "csbad"; if (bad) { if (x & 1) sm[x % sm.size()] ^= 2; else sm.resize(x % S.sig); R->count("fault:damaged-signed-message"); }
      size_t smn = sm.size(), ar = 3 * (m.size() + S.sig) + 64; Bytes arena(ar, 0x6b); size_t smo = m.size() + 13, mo;
      switch (o.i("overlap")) { case 0: mo = smo; break; case 1: mo = smo + o.u("dist") % (smn + 1); break; case 2: mo = smo - o.u("dist") % (m.size() + 1); break; case 3: mo = smo + o.u("dist") % 40; break; default: mo = smo - std::min<size_t>(o.u("dist") % 40, smo); }
      if (mo + m.size() > ar) mo = ar - m.size();
      if (smn) memcpy(&arena[smo], sm.data(), smn);
      Bytes a0 = arena; unsigned long long ol = 0xabcdef; seal();
      int r = a.cs_open(&arena[mo], &ol, arena.data() + smo, smn, pk.p); chk("crypto_sign_open"); R->log("%s crypto_sign_open overlap %ld bad=%d -> %d", id.c_str(), (long)mo - (long)smo, bad, r);
      if (bad) { if (!r) violate("accepted", "%s: crypto_sign_open accepts a damaged signed message", id.c_str()); if (ol != 0xabcdef) violate("length-on-failure", "%s: failing crypto_sign_open sets the message length", id.c_str()); if (arena != a0) violate("write-on-failure", "%s: failing crypto_sign_open writes to memory", id.c_str()); }
      else {
        if (r || ol != m.size()) violate("refused", "%s: crypto_sign_open at distance %ld: result %d length %llu", id.c_str(), (long)mo - (long)smo, r, ol);
        if (m.size() && memcmp(&arena[mo], m.data(), m.size())) violate("alias", "%s: crypto_sign_open gives a wrong message if it lies at distance %ld", id.c_str(), (long)mo - (long)smo);
        for (size_t i = 0; i < ar; ++i) if ((i < mo || i >= mo + m.size()) && arena[i] != a0[i]) violate("out-of-bounds-write", "%s: crypto_sign_open wrote outside the message", id.c_str());
      }
    }
  }
}

// ================================================================ C13
// A key store with two files (public, secret) of small sectors.  Histories of key generations being stored, with
// crashes, torn/lost/misdirected/stale sectors, bit rot and swapped files; then the pair is read back.
static Plan gen_c13(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p; int n = thorough ? 200 : 80;
  for (int i = 0; i < n; ++i) {
    int set = (int)((index + i) % 12); static const char* K[] = {"rot", "rot", "rot", "torn", "lost", "misdirected", "stale", "swap", "unusable", "unusable", "intact", "clear", "sector", "multi"};
    Op o(K[r.below(14)]);
    o.set("set", set).set("var", pick_var(r)).set("gen0", (int)r.below(4)).set("gen1", (int)r.below(4) + 4).setu("x", r.next() & 0xffffffff).set("sector", 1 << r.range(2, 5));
    // bit rot walks over every bit of both files
    if (o.name == "rot") o.setu("bit", (index * 37 + i) % ((SETS[set].pk + SETS[set].sk) * 8));
    if (o.name == "unusable") o.setu("pos", (index * 29 + i) % model_positions(set));
    p.push_back(o);
  }
  return p;
}
static void exec_c13(const Plan& p) {
  for (auto& o : p) {
    int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Variant& v = var(o.s("var")); Api& a = v.api[set]; const std::string& n = o.name; uint64_t x = o.u("x"); size_t sec = o.u("sector", 8);
    Key k0 = ref_key(set, o.u("gen0")), k1 = ref_key(set, o.u("gen1")); Bytes disk = k1.pk, old = k0.pk; disk.insert(disk.end(), k1.sk.begin(), k1.sk.end()); old.insert(old.end(), k0.sk.begin(), k0.sk.end());
    size_t N = disk.size(), ns = (N + sec - 1) / sec; auto copy = [&](size_t s, const Bytes& from, size_t fs, size_t len) { size_t d = s * sec, f = fs * sec; for (size_t i = 0; i < len && d + i < N && f + i < N; ++i) disk[d + i] = from[f + i]; };
    Rng r(x);
    if (n == "rot") disk[o.u("bit") / 8 % N] ^= 1 << (o.u("bit") & 7);
    else if (n == "torn") { size_t c = r.below(N); std::copy(old.begin() + c, old.end(), disk.begin() + c); }                // crash in the middle of a sequential write
    else if (n == "lost") { size_t c = r.below(ns); copy(c, (x & 1) ? old : Bytes(N, 0), c, sec); }                              // one sector was never written
    else if (n == "misdirected") copy(r.below(ns), disk, r.below(ns), sec);
    else if (n == "stale") { if (x & 1) std::copy(old.begin(), old.begin() + S.pk, disk.begin()); else std::copy(old.begin() + S.pk, old.end(), disk.begin() + S.pk); }
    else if (n == "swap") { Bytes t = disk; for (size_t i = 0; i < N; ++i) disk[i] = t[(i + S.pk) % N]; }
    else if (n == "sector") { size_t c = r.below(ns); for (size_t i = c * sec; i < std::min(N, (c + 1) * sec); ++i) disk[i] = (x & 1) ? 0 : (uint8_t)r.next(); }
    else if (n == "multi") { for (uint64_t i = 0, q = 1 + r.below(4); i < q; ++i) disk[r.below(N)] ^= 1 << r.below(8); }
    else if (n == "unusable") {
      // a pair that belongs together but is unusable: exactly one S-box input is zero
      Bytes c, pkm(S.pk); std::vector<int> z; Bytes t(S.sk); for (int i = 0; i < 30000 && c.empty(); ++i) { r.fill(t.data(), t.size()); model_owf(set, t.data(), pkm.data(), &z); if (z.size() == 1 && (z[0] == (int)o.u("pos") || i > 6000)) c = t; }
      if (c.empty()) continue; model_owf(set, c.data(), pkm.data(), &z); disk = pkm; disk.insert(disk.end(), c.begin(), c.end()); R->covered(mix(set * 1000 + z[0], 77));
    }
    Bytes pk(disk.begin(), disk.begin() + S.pk), sk(disk.begin() + S.pk, disk.end()), want(S.pk); bool usable = model_owf(set, sk.data(), want.data()), ok = usable && want == pk;
    Buf bp("public key", S.pk, x + 1, Buf::CANARY, x & 15), bs("secret key", S.sk, x + 2, Buf::CANARY, (x >> 4) & 15); bp.load(pk).seal(); bs.load(sk); if (n != "clear") bs.seal();
    R->count(n == "intact" || n == "clear" ? n : "fault:disk-" + n); R->covered(mix(mix(tag(n.c_str()), set), tag(v.name.c_str())));
    int q = a.validate(bp.p, bs.p); bp.check("validate_keypair"); bs.check("validate_keypair");
    R->log("%s %s %s usable=%d belongs=%d -> %d", v.name.c_str(), S.name, n.c_str(), usable, want == pk, q ? 1 : 0);
    if (ok && q) violate("valid-rejected", "faest_%s validate_keypair (%s) rejects an intact pair (%s)", S.name, v.name.c_str(), n.c_str());
    if (!ok && !q) violate("damage-accepted", "faest_%s validate_keypair (%s) accepts a damaged pair (%s)", S.name, v.name.c_str(), n.c_str());
    if (!usable && (n == "unusable" || (x & 15) == 0)) { Bytes sg(S.sig, 0x21), rho = seeded(x, S.lambda / 8); size_t l = S.sig; ENT.reset_call(); entropy_seed(x);
      int w = (x & 16) ? a.sign(bs.p, rho.data(), 5, sg.data(), &l) : a.swr(bs.p, rho.data(), 5, rho.data(), rho.size(), sg.data(), &l); R->count("sign-unusable");
      if (!w) violate("unusable-key-signs", "faest_%s sign (%s) succeeds with an unusable key", S.name, v.name.c_str()); }
    if (n == "clear") { a.clear(bs.p); bs.check("clear_private_key"); for (size_t i = 0; i < S.sk; ++i) if (bs.p[i]) violate("not-cleared", "faest_%s clear_private_key (%s) leaves byte %zu", S.name, v.name.c_str(), i); }
  }
}
extern const Prop P_C07, P_C10, P_C13;
const Prop P_C07 = {"C07", gen_c07, exec_c07}, P_C10 = {"C10", gen_c10, exec_c10}, P_C13 = {"C13", gen_c13, exec_c13};
