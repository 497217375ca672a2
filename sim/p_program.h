// Programmed hash outputs (C04, C05, C16).
#pragma once
#include "p_common.h"
#include <algorithm>
// ---------------------------------------------------------------- programmed hash outputs
// Hash outputs of signing: root key and IV (16 bytes after lambda/8 after 2*lambda/8),
// challenges 1 (5*lambda/8+8), 2 (3*lambda/8+8), 3 (first lambda/8 after challenge 2).
struct Program { std::vector<size_t> lens; bool iv_done = false, c1 = false, c2 = false, c3 = false; };
[[maybe_unused]] static Bytes corner(uint64_t kind, size_t n, uint64_t seed) {
  Bytes b(n);
  switch (kind) {
    case 1: break;                                                         // zeros
    case 2: std::fill(b.begin(), b.end(), 0xff); break;                    // ones
    case 3: b[n - 1] = 0x01; break;                                        // single bits
    case 4: b[0] = 0x80; break;
    case 5: std::fill(b.begin(), b.end(), 0xff); b[n - 1] = (uint8_t)(0x100 - (seed % 40) - 1); break;   // wraps soon (big endian)
    case 6: std::fill(b.begin(), b.end(), 0xff); b[0] = (uint8_t)(0x100 - (seed % 40) - 1); break;       // wraps soon (little endian)
    case 7: { Rng r(seed); r.fill(b.data(), n); for (size_t i = n > 4 ? n - 4 : 0; i < n; ++i) b[i] = 0xff; if (n) b[n - 1] -= seed % 40; break; }  // carry out of the low 32 bits
    case 8: { Rng r(seed); r.fill(b.data(), n); for (size_t i = n > 8 ? n - 8 : 0; i < n; ++i) b[i] = 0xff; if (n) b[n - 1] -= seed % 40; break; }
    case 9: { Rng r(seed); r.fill(b.data(), n); for (size_t i = n > 2 ? n - 2 : 0; i < n; ++i) b[i] = 0xff; if (n) b[n - 1] -= seed % 20; break; }
    case 10: { for (size_t i = 0; i < n; ++i) b[i] = (i & 1) ? 0xff : 0; break; }
    default: { Rng r(seed); r.fill(b.data(), n); }
  }
  return b;
}
// The values to program, in the order in which they are computed.
enum { P_ROOT, P_IV, P_C1, P_C2, P_C3, P_N };
struct Values { Bytes v[P_N]; };
[[maybe_unused]] static bool wanted(const Op& o, int k) { switch (k) { case P_ROOT: return o.u("root"); case P_IV: return o.u("iv"); case P_C1: return o.u("chk") & 16; case P_C2: return o.u("chk") & 32; default: return o.u("chk") & 64; } }
[[maybe_unused]] static Bytes program_value(const Op& o, int set, int k) {
  size_t L = SETS[set].lambda / 8; uint64_t sd = o.u("pseed"), c = o.u("chk") & 15;
  switch (k) { case P_ROOT: return corner(o.u("root"), L, sd + 9); case P_IV: return corner(o.u("iv"), 16, sd); case P_C1: return corner(c, 5 * L + 8, sd + 1); case P_C2: return corner(c, 3 * L + 8, sd + 2); default: return corner(c, L, sd + 3); }
}
// In the frozen release the values are recognised by the lengths of the outputs.
[[maybe_unused]] static std::function<void(uint8_t*, size_t)> programmed_ref(int set, const Op& o, std::shared_ptr<int> fired, std::shared_ptr<Values> vals) {
  size_t L = SETS[set].lambda / 8; auto st = std::make_shared<Program>();
  return [=](uint8_t* d, size_t n) {
    auto& l = st->lens; size_t c = l.size(); int k = -1;
    if (!st->iv_done && c >= 2 && n == 16 && l[c - 1] == L && l[c - 2] == 2 * L) { st->iv_done = true; k = P_IV; }
    else if (!st->iv_done && c == 1 && n == L && l[0] == 2 * L) k = P_ROOT;
    else if (n == 5 * L + 8 && !st->c1) { st->c1 = true; k = P_C1; }
    else if (n == 3 * L + 8 && !st->c2) { st->c2 = true; k = P_C2; }
    else if (st->c2 && !st->c3 && n == L) { st->c3 = true; k = P_C3; }
    if (k >= 0) { if (vals) vals->v[k].assign(d, d + n); if (wanted(o, k)) { Bytes b = program_value(o, set, k); memcpy(d, b.data(), n); ++*fired; } }
    if (l.size() < 4) l.push_back(n);
  };
}
// Where the build under test outputs them is measured: an ordinary signature (and its verification) is recorded, and each
// value of the release is looked up in the sequence of all output bytes.  Place: so many bytes after the end of the place before.
struct Place { bool ok = false; size_t skip = 0, n = 0; };
struct Places { Place p[P_N]; };
static const size_t OUT_MAX = 4096;  // longer outputs are not looked at
[[maybe_unused]] static std::function<void(uint8_t*, size_t)> record_outputs(std::shared_ptr<Bytes> all) { return [=](uint8_t* d, size_t n) { if (n <= OUT_MAX) all->insert(all->end(), d, d + n); }; }
[[maybe_unused]] static void find_places(const Bytes& all, const Values& want, int first, Places& out) {
  size_t from = 0;
  for (int k = first; k < P_N; ++k) {
    const Bytes& b = want.v[k]; const void* q = b.empty() ? nullptr : memmem(all.data() + from, all.size() - from, b.data(), b.size()); if (!q) return;
    size_t at = (const uint8_t*)q - all.data(); out.p[k].ok = true; out.p[k].skip = at - from; out.p[k].n = b.size(); from = at + b.size();
  }
}
[[maybe_unused]] static std::function<void(uint8_t*, size_t)> programmed(int set, const Op& o, std::shared_ptr<int> fired, std::shared_ptr<Places> at, int first) {
  struct St { int k; size_t skip = 0, done = 0; Bytes val; }; auto st = std::make_shared<St>(); st->k = first; if (first < P_N) st->skip = at->p[first].skip; Op op = o;
  return [=](uint8_t* d, size_t n) {
    if (n > OUT_MAX) return;
    St& s = *st;
    while (n && s.k < P_N && at->p[s.k].ok) {
      if (s.skip) { size_t x = std::min(s.skip, n); s.skip -= x; d += x; n -= x; continue; }
      const Place& p = at->p[s.k]; bool w = wanted(op, s.k); if (w && !s.done) s.val = program_value(op, set, s.k);
      size_t x = std::min(p.n - s.done, n); if (w) memcpy(d, s.val.data() + s.done, x);
      s.done += x; d += x; n -= x;
      if (s.done == p.n) { if (w) ++*fired; s.done = 0; if (++s.k < P_N) s.skip = at->p[s.k].skip; }
    }
  };
}
[[maybe_unused]] static std::shared_ptr<Places> measure_places(Variant& v, int set, bool verify, const Key& k, const Bytes& m, const Bytes& rho) {
  const SetInfo& S = SETS[set]; Bytes want(S.sig), sig(S.sig); size_t wl = S.sig, l = S.sig; int wr = 0, r = 0; const uint8_t* rp = rho.empty() ? nullptr : rho.data();
  auto vals = std::make_shared<Values>(); auto out = std::make_shared<Places>(); auto f = std::make_shared<int>(0); auto all = std::make_shared<Bytes>();
  with_clean([&] { HASH_HOOK = programmed_ref(set, Op("none"), f, vals); wr = var("ref").api[set].swr(k.sk.data(), m.data(), m.size(), rp, rho.size(), want.data(), &wl); });
  HASH_HOOK = record_outputs(all);
  if (verify) r = v.api[set].verify(k.pk.data(), m.data(), m.size(), want.data(), want.size());
  else r = v.api[set].swr(k.sk.data(), m.data(), m.size(), rp, rho.size(), sig.data(), &l);
  HASH_HOOK = nullptr; R->count("calibrate"); find_places(*all, *vals, verify ? P_C1 : P_ROOT, *out);
  if (verify && r) violate("rejected", "faest_%s: build %s rejects an undamaged signature made by release 1.0.1", S.name, v.name.c_str());
  if (!verify && (r || wr || sig != want)) violate("different-bytes", "faest_%s: build %s and release 1.0.1 sign the same input differently", S.name, v.name.c_str());
  return out;
}
static std::map<std::string, std::shared_ptr<Places>> PLACES;
[[maybe_unused]] static std::shared_ptr<Places> places(Variant& v, int set, bool verify) {
  std::string id = v.name + ":" + std::to_string(set) + (verify ? "v" : "s"); auto it = PLACES.find(id); if (it != PLACES.end()) return it->second;
  return PLACES[id] = measure_places(v, set, verify, ref_key(set, 0), seeded(17, 40), seeded(18, SETS[set].lambda / 8));
}
// before a programmed call is held against a build: do the places hold for this key and message, too?
[[maybe_unused]] static bool places_hold(Variant& v, int set, bool verify, const Key& k, const Bytes& m, const Bytes& rho) {
  auto a = places(v, set, verify), b = measure_places(v, set, verify, k, m, rho);
  for (int i = verify ? P_C1 : P_ROOT; i < P_N; ++i) if (a->p[i].ok != b->p[i].ok || a->p[i].skip != b->p[i].skip || a->p[i].n != b->p[i].n) { R->count("programmed-mismatch-skipped"); return false; }
  return true;
}
[[maybe_unused]] static bool programmable(const Op& o, const Places& p, int first) { for (int k = first; k < P_N; ++k) { bool later = false; for (int j = k; j < P_N; ++j) later |= wanted(o, j); if (later && !p.p[k].ok) return false; } return true; }
[[maybe_unused]] static bool programmed_any(const Op& o) { return o.u("iv") || o.u("chk") || o.u("root"); }

