// C01 entropy failures, C03 key generation, C14 hedged signing
#include "p_common.h"
#include <algorithm>

std::string pick_var(Rng& r) { auto n = var_names(); return n[r.below(n.size())]; }
bool slow_var(const std::string& n) { return n == "port" || n == "mini" || n == "covp" || n == "asanp"; }
// for runs of very many calls: the quick parameter sets, one or two of each degree; or a build that does not drag
int fast_set(Rng& r, uint64_t index, bool smallest) { std::vector<int> v; for (int s = 0; s < 12; ++s) if (SETS[s].name[strlen(SETS[s].name) - 1] == 'f' && (!smallest || SETS[s].lambda == 128)) v.push_back(s); return index < v.size() ? v[index] : v[r.below(v.size())]; }
std::string fast_var(Rng& r) { for (int i = 0; i < 60; ++i) { std::string n = pick_var(r); if (!slow_var(n) && n != "asan" && n.compare(0, 3, "cov")) return n; } return pick_var(r); }
// for operations that sign or verify: builds with own AES are slow, use them less and mostly with small sets
std::string pick_var(Rng& r, int set) {
  for (;;) {
    std::string n = pick_var(r); if (!slow_var(n)) return n;
    const SetInfo& S = SETS[set]; bool s = S.tau < 15 && S.lambda == 128 ? true : S.name[strlen(S.name) - 1] == 's';
    unsigned den = s ? 200 : S.lambda == 128 ? 2 : S.lambda == 192 ? 10 : 24;
    if (r.chance(1, den)) return n;
  }
}

// ================================================================ C01
static const int ERRS[] = {EINTR, EAGAIN, EIO, ENOSYS, EFAULT, EPERM, EINVAL, ENOMEM};
static std::string make_script(Rng& r, int at, size_t req) {
  std::string s; for (int i = 0; i < at; ++i) s += "o,";
  int n = r.chance(3, 4) ? 1 : (int)r.range(2, 6);
  for (int i = 0; i < n; ++i) {
    switch (r.below(8)) {
      case 0: case 1: case 2: s += "e" + std::to_string(ERRS[r.below(8)]) + ","; break;
      case 3: s += "z,"; break;
      default: { static const size_t special[] = {0, 1, 8, 15, 16, 24, 31, 32, 47, 48, 63}; size_t k = r.chance(1, 2) ? special[r.below(11)] : r.chance(1, 2) ? req - 1 : r.below(req); if (k >= req) k = req - 1; s += "s" + std::to_string(k) + ","; }
    }
    if (r.chance(1, 4)) s += "o,";
  }
  s.pop_back(); return s;
}
static Plan gen_c01(uint64_t seed, uint64_t, bool thorough) {
  Rng r(seed); Plan p; int n = (int)r.range(2, thorough ? 10 : 6);
  for (int i = 0; i < n; ++i) {
    bool sign = r.chance(2, 5); int set = pick_set(r, sign ? 1 : 8);
    Op o(sign ? "sign" : "keygen");
    o.set("var", sign ? pick_var(r, set) : pick_var(r)).set("set", set).set("cs", (int)r.below(2)).setu("seed", r.next());
    int bad = sign ? 0 : (r.chance(1, 2) ? 0 : (int)r.range(1, 5));
    if (!sign) o.set("bad", bad);
    else o.set("mlen", pick_mlen(r) % 2000);
    size_t req = sign ? SETS[set].lambda / 8 : SETS[set].sk;
    switch (r.below(9)) {
      case 0: break;  // no fault at all: must succeed
      case 8: {  // a long outage that ends: the same transient failure many times in a row
        static const std::vector<int> lens{8, 10, 16, 20, 32, 50, 64, 100, 128, 255, 256, 500, 1000, 1024, 3000};
        o.set("outage", lens[r.below(lens.size())] + (int)r.below(3) - 1).set("after", (int)r.range(0, bad)).set("ostep", std::vector<std::string>{"e" + std::to_string(EAGAIN), "e" + std::to_string(EINTR), "z", "s0", "s1", "e" + std::to_string(EIO)}[r.below(6)]);
        break;
      }
      case 1: o.set("forever", std::vector<int>{EIO, ENOSYS, EFAULT, EPERM}[r.below(4)]).set("script", std::string(bad ? "o" : "o").substr(0, bad ? 1 : 0)); break;
      default: o.set("script", make_script(r, (int)r.range(0, bad), req));
    }
    if (r.chance(1, 6)) o.set("openfail", std::vector<int>{EINTR, EMFILE, ENFILE, ENOENT, EACCES}[r.below(5)]);
    if (r.chance(1, 10)) o.set("ioctlfail", EINVAL);
    p.push_back(o);
  }
  return p;
}
static void arm(const Op& o) {
  ENT.reset_call(); ENT.limit = 20000;
  ENT.script = parse_script(o.s("script"));
  if (o.has("outage")) {
    std::string t; for (int i = 0; i < o.i("after"); ++i) t += "o,";
    for (int i = 0; i < o.i("outage"); ++i) t += o.s("ostep") + ",";
    t.pop_back(); ENT.script = parse_script(t); R->count("fault:entropy-outage");
  }
  if (o.has("forever")) { ENT.forever = true; ENT.forever_step = {E_ERR, (int)o.i("forever"), 0}; }
  if (o.has("openfail")) ENT.open_script.push_back({E_ERR, (int)o.i("openfail"), 0});
  if (o.has("ioctlfail")) ENT.ioctl_script.push_back({E_ERR, (int)o.i("ioctlfail"), 0});
}
static void count_faults(const Op& o) {
  for (auto& st : std::vector<EntropyStep>(ENT.script.begin(), ENT.script.begin() + std::min(ENT.pos, ENT.script.size()))) {
    if (st.kind == E_ERR) R->count(st.err == EINTR ? "fault:entropy-EINTR" : st.err == EAGAIN ? "fault:entropy-EAGAIN" : "fault:entropy-error");
    else if (st.kind == E_SHORT) R->count("fault:entropy-short"); else if (st.kind == E_EOF) R->count("fault:entropy-eof");
  }
  if (o.has("forever") && ENT.data_calls > ENT.script.size()) R->count("fault:entropy-permanent");
  if (ENT.open_pos) R->count("fault:entropy-open");
  if (ENT.ioctl_pos && o.has("ioctlfail")) R->count("fault:entropy-ioctl");
}
static void check_fds(const char* call) {
  if (!ENT.fds.empty()) violate("fd-leak", "%s left %zu descriptors of the entropy device open", call, ENT.fds.size());
  if (ENT.bad_close) violate("bad-close", "%s closed a descriptor it does not own", call);
}
static void keygen_checked(const Op& o, bool faulty) {
  int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Api& a = var(o.s("var")).api[set];
  Bytes pre; for (int b = 0; b < o.i("bad"); ++b) { Bytes c = candidate(set, o.u("seed") + b, false); pre.insert(pre.end(), c.begin(), c.end()); }
  entropy_stream(pre, o.u("seed") ^ (faulty ? 0 : 0x77));
  if (faulty) arm(o); else { ENT.reset_call(); ENT.limit = 20000; }
  Buf pk("public key", S.pk, o.u("seed") + 1), sk("secret key", S.sk, o.u("seed") + 2);
  paint_stack(o.u("seed"), 20000);
  int r = o.i("cs") ? a.cs_keypair(pk.p, sk.p) : a.keygen(pk.p, sk.p);
  R->log("%s keygen %s cs=%d -> %d (%llu data calls, %llu faults, %zu bytes) %s", o.s("var").c_str(), S.name, (int)o.i("cs"), r ? -1 : 0, (unsigned long long)ENT.data_calls, (unsigned long long)ENT.faults, ENT.delivered.size(), r ? "" : hex(pk.p, 8).c_str());
  pk.check("keygen"); sk.check("keygen"); check_fds("keygen");
  if (faulty) count_faults(o);
  R->count("keygen"); if (r) R->count("keygen-refused");
  R->covered(mix(tag(o.s("var").c_str()), mix(set, mix(ENT.faults ? 1 + ENT.pos : 0, mix(r ? 1 : 0, o.i("bad"))))));
  if (r == 0) {
    if (!key_delivered(set, ENT.delivered, sk.p)) violate("key-without-entropy", "faest_%s keygen (%s) reported success with a secret key that the entropy source did not deliver", S.name, o.s("var").c_str());
    Bytes m(S.pk); if (!model_owf(set, sk.p, m.data())) violate("unusable-key", "faest_%s keygen (%s) returned an unusable key", S.name, o.s("var").c_str());
    if (memcmp(m.data(), pk.p, S.pk)) violate("wrong-public-key", "faest_%s keygen (%s) returned a public key that does not belong to the secret key", S.name, o.s("var").c_str());
  } else if (!ENT.faults) violate("spurious-failure", "faest_%s keygen (%s) failed although the entropy source never did", S.name, o.s("var").c_str());
}
static void sign_checked(const Op& o, bool faulty) {
  int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Api& a = var(o.s("var")).api[set]; bool cs = o.i("cs");
  Key k = ref_key(set, o.u("seed") & 3); Bytes m = msg(o.u("seed"), o.u("mlen")); size_t L = S.lambda / 8;
  entropy_seed(o.u("seed") ^ (faulty ? 0 : 0x77));
  if (faulty) arm(o); else { ENT.reset_call(); ENT.limit = 20000; }
  Buf out("signature", S.sig + (cs ? m.size() : 0), o.u("seed") + 3); unsigned long long cl = 77; size_t sl = S.sig, before = sl;
  paint_stack(o.u("seed") + 5, 20000);
  int r = cs ? a.cs_sign(out.p, &cl, m.data(), m.size(), k.sk.data()) : a.sign(k.sk.data(), m.data(), m.size(), out.p, &sl);
  R->log("%s sign %s cs=%d -> %d (%llu data calls, %llu faults, %zu bytes)", o.s("var").c_str(), S.name, cs, r ? -1 : 0, (unsigned long long)ENT.data_calls, (unsigned long long)ENT.faults, ENT.delivered.size());
  out.check("sign"); check_fds("sign"); if (faulty) count_faults(o); R->count("sign"); if (r) R->count("sign-refused");
  R->covered(mix(tag(o.s("var").c_str()), mix(set + 100, mix(ENT.faults ? 1 + ENT.pos : 0, mix(r ? 1 : 0, cs)))));
  Bytes del = ENT.delivered; uint64_t fl = ENT.faults;
  if (r == 0) {
    if (del.size() < L) violate("signature-without-entropy", "faest_%s sign (%s) reported success after %zu of %zu random bytes", S.name, o.s("var").c_str(), del.size(), L);
    const uint8_t* sig = out.p + (cs ? m.size() : 0);
    bool match = false; std::vector<size_t> offs{del.size() - L, 0};
    for (size_t x : offs) { Bytes w = ref_sign(set, k.sk, m.data(), m.size(), Bytes(del.begin() + x, del.begin() + x + L)); if (!memcmp(w.data(), sig, S.sig)) { match = true; break; } }
    if (!match) violate("signature-not-from-entropy", "faest_%s sign (%s) reported success with a signature not made from the delivered random bytes", S.name, o.s("var").c_str());
    if (cs ? cl != S.sig + m.size() : sl != S.sig) violate("wrong-length", "sign reported a wrong length");
  } else {
    if (!fl) violate("spurious-failure", "faest_%s sign (%s) failed although the entropy source never did", S.name, o.s("var").c_str());
    if (!cs && sl != before) violate("length-on-failure", "failing sign changed the signature length");
  }
}
static void exec_c01(const Plan& p) {
  for (auto& o : p) {
    if (o.name == "keygen") { keygen_checked(o, true); if (ENT.faults) keygen_checked(o, false); }
    else { sign_checked(o, true); if (ENT.faults && SETS[o.i("set")].tau > 14) sign_checked(o, false); }
    ENT.fds.clear(); ENT.bad_close = 0;
  }
}

// ================================================================ C03
// index enumerates (set, S-box position); every position gets a candidate whose only zero S-box input is there
static int total_positions() { int n = 0; for (int s = 0; s < 12; ++s) n += model_positions(s); return n; }
static Plan gen_c03(uint64_t seed, uint64_t index, bool) {
  Rng r(seed); Plan p; auto names = var_names();
  int tot = total_positions(); uint64_t g = (index * 24) % tot;
  for (int i = 0; i < 24; ++i, g = (g + 1) % tot) {
    int set = 0; int pos = (int)g; while (pos >= model_positions(set)) pos -= model_positions(set++);
    p.push_back(Op("zero").set("set", set).set("pos", pos).setu("seed", r.next()).set("var", names[(index * 24 / tot + i + g) % names.size()]).set("reps", (int)r.range(1, 3)));
    // the source may fail once while a replacement candidate (or the first one) is drawn
    if (r.chance(1, 5)) p.back().set("fail", (int)r.range(0, p.back().i("reps"))).set("err", r.chance(1, 3) ? 0 : ERRS[r.below(8)]);
  }
  int n = (int)r.range(3, 8);
  for (int i = 0; i < n; ++i) p.push_back(Op("gen").set("set", pick_set(r, 8)).set("var", pick_var(r)).set("bias", (int)r.below(9)).setu("seed", r.next()).set("cs", (int)r.below(2)));
  if (index % 2 == 0) { int us = pick_set(r, 0); p.push_back(Op("use").set("set", us).set("var", pick_var(r, us)).set("bias", (int)r.below(3)).setu("seed", r.next())); }
  for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
  return p;
}
static Bytes craft_zero(int set, int pos, uint64_t seed) {
  Rng r(seed); Bytes pk(SETS[set].pk); std::vector<int> z; Bytes c(SETS[set].sk);
  for (int i = 0; i < 400000; ++i) { r.fill(c.data(), c.size()); model_owf(set, c.data(), pk.data(), &z); if (z.size() == 1 && z[0] == pos) return c; }
  return Bytes();
}
static void exec_c03(const Plan& p) {
  std::map<Bytes, Bytes> seen;  // pair -> entropy that made it
  for (auto& o : p) {
    int set = (int)o.i("set"); const SetInfo& S = SETS[set]; Variant& v = var(o.s("var")); Api& a = v.api[set]; uint64_t sd = o.u("seed");
    ENT.reset_call(); ENT.limit = 100000;
    Bytes bad;
    if (o.name == "zero") {
      bad = craft_zero(set, (int)o.i("pos"), sd); if (bad.empty()) { R->count("uncrafted"); continue; }
      Bytes pre; for (int i = 0; i < o.i("reps", 1); ++i) pre.insert(pre.end(), bad.begin(), bad.end());
      if (o.has("fail")) {
        std::string t; for (int i = 0; i < o.i("fail"); ++i) t += "o,";
        ENT.script = parse_script(t + (o.i("err") ? "e" + std::to_string(o.i("err")) : "s" + std::to_string(sd % S.sk)));
      }
      entropy_stream(pre, sd); R->count("fault:entropy-unusable-candidate", o.i("reps", 1)); R->covered(mix(set * 1000 + o.i("pos"), tag(v.name.c_str())));
    } else {
      auto rr = std::make_shared<Rng>(sd); auto cnt = std::make_shared<uint64_t>(0); int b = (int)o.i("bias"); if (b > 2) R->count("fault:entropy-biased");
      Bytes cand = rr->bytes(S.sk);
      ENT.source = [=](uint8_t* q, size_t n) {
        while (n--) {
          uint64_t c = (*cnt)++; uint8_t x = (uint8_t)(rr->next() >> 20);
          switch (b) {
            case 3: x = c < 3 * S.sk ? 0 : x; break;                        // stuck at zero, recovers
            case 4: x = c < 2 * S.sk ? 0xff : x; break;                     // stuck at ones, recovers
            case 5: if (c < 60 * S.sk) x &= 0x0f; break;                                        // biased: zero high nibble
            case 6: x = c < 40 * S.sk && (c % S.sk < S.sk - 4 || c < 5 * S.sk) ? cand[(c * 7 + c / S.sk) % S.sk] : x; break;  // repeating with small variation
            case 7: x = (c & 1) || c > 6 * S.sk ? x : 0; break;                              // every second byte zero, recovers
            case 8: x = c < 4 * S.sk ? (uint8_t)(c / S.sk) : x; break;       // constant per request
            default: break;
          }
          *q++ = x;
        }
      };
    }
    Buf pk("public key", S.pk, sd + 1), sk("secret key", S.sk, sd + 2);
    int r = o.i("cs") ? a.cs_keypair(pk.p, sk.p) : a.keygen(pk.p, sk.p);
    Bytes pkb = pk.bytes(), skb = sk.bytes(), del = ENT.delivered;
    R->log("%s %s keygen %s -> %d %s (%zu bytes)", o.name.c_str(), v.name.c_str(), S.name, r ? -1 : 0, r ? "" : hex(pk.p, 8).c_str(), del.size());
    R->count("keygen"); pk.check("keygen"); sk.check("keygen");
    if (ENT.faults) { R->count("fault:entropy-during-retry"); R->covered(mix(set * 7 + o.i("fail"), tag(v.name.c_str()) + r)); check_fds("keygen"); }
    if (r && ENT.faults) continue;  // refused: nothing is claimed about the buffers
    if (r) violate("spurious-failure", "faest_%s keygen (%s) failed with a working entropy source", S.name, v.name.c_str());
    if (!key_delivered(set, del, skb.data())) violate("key-not-from-entropy", "faest_%s keygen (%s) returned key material the source did not deliver in this call", S.name, v.name.c_str());
    Bytes m(S.pk); std::vector<int> z; bool ok = model_owf(set, skb.data(), m.data(), &z);
    if (!ok) violate("unusable-key", "faest_%s keygen (%s) returned a key with a zero S-box input at position %d of %d", S.name, v.name.c_str(), z[0], model_positions(set));
    if (m != pkb) violate("wrong-public-key", "faest_%s keygen (%s) returned a public key that is not the image of the secret key", S.name, v.name.c_str());
    Bytes pair = skb; auto it = seen.find(pair);
    if (it != seen.end() && it->second != del) violate("repeated-key", "two generations fed different entropy returned the same pair");
    seen[pair] = del;
    if (a.validate(pkb.data(), skb.data())) violate("validate-rejects", "validate_keypair (%s) rejects a generated pair of faest_%s", v.name.c_str(), S.name);
    if (o.name == "use") {
      Bytes msgb = msg(sd, 40), sig(S.sig); size_t sl = S.sig; ENT.reset_call(); entropy_seed(sd);
      if (a.sign(skb.data(), msgb.data(), msgb.size(), sig.data(), &sl)) violate("sign-refuses", "faest_%s sign (%s) refuses a generated key", S.name, v.name.c_str());
      if (a.verify(pkb.data(), msgb.data(), msgb.size(), sig.data(), sl)) violate("verify-rejects", "faest_%s verify (%s) rejects a signature of a generated key", S.name, v.name.c_str());
      R->count("use");
    }
  }
}

// ================================================================ C14
// device behaviours: 0 healthy 1 stuck at constant 2 snapshot rollback after every call 3 fork-style duplicate per pair 4 biased 5 short period
static Plan gen_c14(uint64_t seed, uint64_t index, bool) {
  Rng r(seed); Plan p; int set = (int)(index % 12);
  if (SETS[set].name[strlen(SETS[set].name) - 1] == 's' && !r.chance(1, 4)) set = pick_set(r, 0);
  int dev = (int)r.below(6); int n = (int)r.range(3, SETS[set].tau > 14 ? 7 : 4); uint64_t m0 = r.next(); int keys = (int)r.range(1, 3);
  p.push_back(Op("device").set("kind", dev).setu("seed", r.next()));
  size_t mlen = r.chance(1, 6) ? r.range(8, 70000) : r.chance(3, 4) ? std::max<size_t>(8, pick_mlen(r)) : r.range(8, 400);
  for (int i = 0; i < n; ++i) {
    Op o("sign"); o.set("set", set).set("var", pick_var(r, set)).set("key", (int)r.below(keys)).setu("m", m0).set("mlen", mlen).set("cs", (int)r.below(2));
    // variants of one message: same, last/first/middle byte changed, extended, shortened
    o.set("edit", (int)r.below(6)).set("at", (int64_t)r.below(mlen));
    if (r.chance(1, 4)) o.set("trouble", (int)r.range(1, 4)).set("after", (int)r.below(3));
    p.push_back(o);
    if (r.chance(1, 6)) p.push_back(Op("restart").set("var", o.s("var")));
  }
  return p;
}
static void exec_c14(const Plan& p) {
  int dev = 0; uint64_t dseed = 1; struct Sig { Bytes key, msg, rho, sig; int set; }; std::vector<Sig> all; uint64_t call = 0;
  for (auto& o : p) {
    if (o.name == "device") { dev = (int)o.i("kind"); dseed = o.u("seed"); static const char* nm[] = {"device:healthy", "fault:entropy-stuck", "fault:entropy-rollback", "fault:entropy-fork-duplicate", "fault:entropy-biased", "fault:entropy-period"}; R->count(nm[dev]); continue; }
    if (o.name == "restart") { reload_variant(var(o.s("var"))); R->count("fault:restart"); R->log("restart %s", o.s("var").c_str()); continue; }
    int set = (int)o.i("set"); const SetInfo& S = SETS[set]; size_t L = S.lambda / 8; Variant& v = var(o.s("var")); Api& a = v.api[set]; bool cs = o.i("cs");
    Key k = ref_key(set, o.i("key")); Bytes m = msg(o.u("m"), o.u("mlen")); size_t at = o.u("at");
    switch (o.i("edit")) { case 1: m.back() ^= 1; break; case 2: m[0] ^= 0x80; break; case 3: m[at % m.size()] ^= 1 << (at & 7); break; case 4: m.push_back(0); break; case 5: m.pop_back(); break; default: break; }
    ENT.reset_call();
    uint64_t sd = dev == 0 ? mix(dseed, call) : dev == 3 ? mix(dseed, call / 2) : dseed; ++call;
    auto rr = std::make_shared<Rng>(sd); auto c = std::make_shared<uint64_t>(0);
    ENT.source = [=](uint8_t* q, size_t n) { while (n--) { uint64_t i = (*c)++; uint8_t x = (uint8_t)(rr->next() >> 24); *q++ = dev == 1 ? (uint8_t)dseed : dev == 4 ? (x & 1) : dev == 5 ? (uint8_t)(dseed >> (8 * (i & 3))) : x; } };
    int trouble = (int)o.i("trouble");
    if (trouble) {   // the device also fails, once or for good, at the first or a later request
        ENT.script.assign((size_t)o.i("after"), {E_OK, 0, 0}); R->count("fault:entropy-error");
        switch (trouble) { case 1: ENT.script.push_back({E_ERR, EIO, 0}); break; case 2: ENT.script.push_back({E_SHORT, 0, 1 + at % (L - 1)}); break; case 3: ENT.script.push_back({E_ERR, at & 1 ? EINTR : EAGAIN, 0}); break;
            default: ENT.forever = true; ENT.forever_step = {E_ERR, EIO, 0}; }
    }
    Buf out("signature", S.sig + (cs ? m.size() : 0), o.u("m") + call); unsigned long long cl = 0; size_t sl = S.sig;
    int r = cs ? a.cs_sign(out.p, &cl, m.data(), m.size(), k.sk.data()) : a.sign(k.sk.data(), m.data(), m.size(), out.p, &sl);
    Bytes del = ENT.delivered;
    if (r && ENT.faults) { R->count("refused"); R->log("%s %s sign refused", v.name.c_str(), S.name); continue; }
    if (r) violate("spurious-failure", "faest_%s sign (%s) failed although the source delivers", S.name, v.name.c_str());
    if (del.size() < L) violate("no-fresh-entropy", "faest_%s sign (%s) took only %zu bytes from the source in this call, %zu needed", S.name, v.name.c_str(), del.size(), L);
    Sig s; s.key = k.sk; s.msg = m; s.set = set; s.sig.assign(out.p + (cs ? m.size() : 0), out.p + out.n); s.rho.assign(del.end() - L, del.end());
    Bytes want = ref_sign(set, k.sk, m.data(), m.size(), s.rho); R->count("sign");
    R->log("%s %s sign key=%d edit=%d -> %llx", v.name.c_str(), S.name, (int)o.i("key"), (int)o.i("edit"), (unsigned long long)hash_bytes(s.sig.data(), s.sig.size()));
    R->covered(mix(mix(set, dev), mix(o.i("edit"), tag(v.name.c_str()))));
    if (s.sig != want) {
      bool other = false; Bytes rho0(del.begin(), del.begin() + L); if (del.size() > L) { other = ref_sign(set, k.sk, m.data(), m.size(), rho0) == s.sig; s.rho = rho0; }
      if (!other) violate("not-hedged", "faest_%s sign (%s) differs from deterministic signing with the bytes delivered in this call", S.name, v.name.c_str());
    }
    for (auto& q : all) {
      if (q.set != set) continue;
      if (q.key == s.key && q.msg == s.msg && q.rho == s.rho) { if (q.sig != s.sig) violate("not-function", "same key, message and randomness, different signatures"); continue; }
      for (auto& g : sig_segments(set)) {
        bool piece = g.name == "iv" || g.name.compare(0, 4, "pdec") == 0 || g.name.compare(0, 3, "com") == 0;
        if (piece && !memcmp(q.sig.data() + g.off, s.sig.data() + g.off, g.len)) violate("shared-randomness", "two faest_%s signatures on different inputs share %s", S.name, g.name.c_str());
      }
    }
    all.push_back(s);
  }
}

extern const Prop P_C01, P_C03, P_C14;
const Prop P_C01 = {"C01", gen_c01, exec_c01}, P_C03 = {"C03", gen_c03, exec_c03}, P_C14 = {"C14", gen_c14, exec_c14};
