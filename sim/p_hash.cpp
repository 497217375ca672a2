// C12: hash streams fed and drained in arbitrary pieces, interleaved, against a textbook SHAKE.
#include "p_common.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>

namespace {
// FIPS 202, written down literally
struct Shake {
  uint64_t a[5][5]; unsigned rate, pos = 0; bool squeezing = false;
  static unsigned rc_bit(unsigned t) { unsigned r = 1; for (unsigned i = 0; i < t % 255; ++i) { r <<= 1; if (r & 256) r ^= 0x171; } return r & 1; }
  static const uint64_t* consts() {
    static uint64_t c[24]; static bool done = false;
    if (!done) { for (int ir = 0; ir < 24; ++ir) { c[ir] = 0; for (int j = 0; j <= 6; ++j) if (rc_bit(j + 7 * ir)) c[ir] |= 1ull << ((1 << j) - 1); } done = true; }
    return c;
  }
  static uint64_t rot(uint64_t v, unsigned n) { n &= 63; return n ? (v << n) | (v >> (64 - n)) : v; }
  bool same(const Shake& o) const { return !memcmp(a, o.a, sizeof a) && pos == o.pos && rate == o.rate; }
  explicit Shake(unsigned sec) : rate(sec == 128 ? 168 : 136) { memset(a, 0, sizeof a); }
  // the same, unrolled; used for very long streams and compared with the literal one at start
  __attribute__((optimize("O3", "unroll-loops"))) void permute_fast() {
    const uint64_t* rc = consts(); uint64_t s[25]; for (int y = 0; y < 5; ++y) for (int x = 0; x < 5; ++x) s[x + 5 * y] = a[x][y];
    static constexpr int ro[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}, pl[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
    for (int r = 0; r < 24; ++r) {
      uint64_t c[5], t;
#pragma GCC unroll 5
      for (int x = 0; x < 5; ++x) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
#pragma GCC unroll 5
      for (int x = 0; x < 5; ++x) { t = c[(x + 4) % 5] ^ (c[(x + 1) % 5] << 1 | c[(x + 1) % 5] >> 63); s[x] ^= t; s[x + 5] ^= t; s[x + 10] ^= t; s[x + 15] ^= t; s[x + 20] ^= t; }
      t = s[1];
#pragma GCC unroll 24
      for (int i = 0; i < 24; ++i) { uint64_t u = s[pl[i]]; s[pl[i]] = t << ro[i] | t >> (64 - ro[i]); t = u; }
#pragma GCC unroll 5
      for (int y = 0; y < 25; y += 5) { uint64_t b0 = s[y], b1 = s[y + 1], b2 = s[y + 2], b3 = s[y + 3], b4 = s[y + 4]; s[y] = b0 ^ (~b1 & b2); s[y + 1] = b1 ^ (~b2 & b3); s[y + 2] = b2 ^ (~b3 & b4); s[y + 3] = b3 ^ (~b4 & b0); s[y + 4] = b4 ^ (~b0 & b1); }
      s[0] ^= rc[r];
    }
    for (int y = 0; y < 5; ++y) for (int x = 0; x < 5; ++x) a[x][y] = s[x + 5 * y];
  }
  void permute() {
    static unsigned off[5][5]; static bool init = false;
    if (!init) { int x = 1, y = 0; for (int t = 0; t < 24; ++t) { off[x][y] = ((t + 1) * (t + 2) / 2) & 63; int n = (2 * x + 3 * y) % 5; x = y; y = n; } off[0][0] = 0; init = true; }
    const uint64_t* rc = consts();
    for (int r = 0; r < 24; ++r) {
      uint64_t c[5], d[5], b[5][5];
      for (int x = 0; x < 5; ++x) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
      for (int x = 0; x < 5; ++x) d[x] = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1);
      for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) b[y][(2 * x + 3 * y) % 5] = rot(a[x][y] ^ d[x], off[x][y]);
      for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) a[x][y] = b[x][y] ^ (~b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
      a[0][0] ^= rc[r];
    }
  }
  void xor_byte(unsigned i, uint8_t v) { unsigned w = i / 8; a[w % 5][w / 5] ^= (uint64_t)v << (8 * (i % 8)); }
  uint8_t byte(unsigned i) const { unsigned w = i / 8; return (uint8_t)(a[w % 5][w / 5] >> (8 * (i % 8))); }
  void absorb(const uint8_t* p, size_t n) { while (n--) { xor_byte(pos++, *p++); if (pos == rate) { permute(); pos = 0; } } }
  void zeros(size_t n) { while (n) { size_t k = rate - pos; if (n < k) { pos += n; return; } n -= k; permute_fast(); pos = 0; } }
  void finish() { xor_byte(pos, 0x1f); xor_byte(rate - 1, 0x80); permute(); pos = 0; squeezing = true; }
  void squeeze(uint8_t* p, size_t n) { while (n--) { if (pos == rate) { permute(); pos = 0; } *p++ = byte(pos++); } }
  void skip(size_t n) { while (n) { if (pos == rate) { permute_fast(); pos = 0; } size_t k = rate - pos; if (k > n) k = n; pos += k; n -= k; } }
};
struct Drv {
  size_t (*size)(int); size_t (*align)(int); void (*init)(int, void*, unsigned); void (*init_prefix)(void*, unsigned, uint8_t); void (*update)(int, void*, const uint8_t*, size_t); void (*u16)(void*, uint16_t); void (*final)(void*); void (*squeeze)(void*, uint8_t*, size_t); void (*clear)(void*);
  void (*oracle)(int, void*, uint8_t*, size_t, uint8_t*, size_t); void (*init4)(int, void*, unsigned); void (*init_prefix4)(void*, unsigned, uint8_t); void (*update4)(int, int, void*, const uint8_t**, size_t); void (*u16x4)(int, void*, const uint16_t*); void (*final4)(void*); void (*squeeze4)(int, void*, uint8_t**, size_t); void (*clear4)(void*); void (*oracle4)(void*, uint8_t**, size_t, uint8_t**, size_t);
};
Drv& driver(const std::string& n) {
  static std::map<std::string, Drv> m; auto it = m.find(n); if (it != m.end()) return it->second;
  void* h = dlopen(AUX[n].c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "dlopen %s: %s\n", n.c_str(), dlerror()); exit(2); }
  Drv d; auto g = [&](const char* s) { void* p = dlsym(h, s); if (!p) { fprintf(stderr, "no %s\n", s); exit(2); } return p; };
  *(void**)&d.size = g("hd_size"); *(void**)&d.align = g("hd_align"); *(void**)&d.init = g("hd_init"); *(void**)&d.init_prefix = g("hd_init_prefix"); *(void**)&d.update = g("hd_update"); *(void**)&d.u16 = g("hd_u16"); *(void**)&d.final = g("hd_final"); *(void**)&d.squeeze = g("hd_squeeze"); *(void**)&d.clear = g("hd_clear"); *(void**)&d.oracle = g("hd_oracle");
  *(void**)&d.init4 = g("hd4_init"); *(void**)&d.init_prefix4 = g("hd4_init_prefix"); *(void**)&d.update4 = g("hd4_update"); *(void**)&d.u16x4 = g("hd4_u16"); *(void**)&d.final4 = g("hd4_final"); *(void**)&d.squeeze4 = g("hd4_squeeze"); *(void**)&d.clear4 = g("hd4_clear"); *(void**)&d.oracle4 = g("hd4_oracle");
  return m[n] = d;
}
// a huge address range backed by the same few pages again and again
struct Wide { uint8_t* p; size_t n; static constexpr size_t C = 16 << 20; explicit Wide(size_t len) : n((len + C) / C * C) {
    int fd = memfd_create("wide", 0); if (fd < 0 || ftruncate(fd, C)) abort(); p = (uint8_t*)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort();
    for (size_t o = 0; o < n; o += C) if (mmap(p + o, C, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
    ::close(fd); }
  ~Wide() { munmap(p, n); } };
struct Stream { std::string impl; int kind, x4; unsigned sec; int prefix; std::unique_ptr<Buf> ctx; std::vector<Shake> model; int stage = 0; uint64_t in = 0, out = 0, pieces = 0; };
void selftest() {
  Shake s(128); s.finish(); uint8_t o[8]; s.squeeze(o, 8); static const uint8_t w[8] = {0x7f, 0x9c, 0x2b, 0xa4, 0xe8, 0x8f, 0x82, 0x7d};
  Shake t(256); t.absorb((const uint8_t*)"abc", 3); t.finish(); uint8_t q[4]; t.squeeze(q, 4); static const uint8_t v[4] = {0x48, 0x33, 0x66, 0x60};
  Shake f1 = t, f2 = t; for (int i = 0; i < 3; ++i) { f1.permute(); f2.permute_fast(); }
  if (memcmp(f1.a, f2.a, sizeof f1.a) || memcmp(o, w, 8) || memcmp(q, v, 4)) { fprintf(stderr, "the SHAKE model is wrong\n"); _exit(2); }
}
size_t piece(Rng& r, unsigned rate, unsigned pos, bool thorough) {
  switch (r.below(10)) {
    case 0: return 0; case 1: return 1; case 2: return rate - pos; case 3: return rate - pos + r.below(3) - (rate - pos > 1 ? 1 : 0); case 4: return rate * r.range(1, 6); case 5: return rate - pos + rate * r.range(1, 5) + r.below(3) - 1;
    case 6: return r.below(thorough ? 60000 : 6000); case 7: return r.below(16); case 8: return 8 * r.below(24); default: return r.below(400);
  }
}
Plan gen_c12(uint64_t seed, uint64_t index, bool thorough) {
  Rng r(seed); Plan p; std::vector<std::string> names; for (auto& a : AUX) names.push_back(a.first);
  if (index < 6 || (thorough && index % 256 < 6)) {  // one piece of about 2^29 or 2^32 bytes, from every position in the block
    auto pick = [&](std::initializer_list<const char*> l) { for (auto n : l) if (AUX.count(n)) return std::string(n); return names[0]; };
    static const int cls[6] = {0, 0, 0, 2, 3, 1}; int k = (int)(index % 6), c = index < 6 ? cls[k] : (int)r.below(4), x4 = k == 2 || k == 3; bool in = k != 1 && k != 3 && (k != 4 || r.chance(1, 2));
    std::string n = x4 ? pick({"avx2x4", "opt64x4"}) : k == 5 ? pick({"avx2gcc", "opt64x1"}) : pick({"opt64x4"}); if (k == 4 || (thorough && index >= 6)) n = names[r.below(names.size())];
    unsigned sec = r.chance(1, 2) ? 128 : 256, rate = sec == 128 ? 168 : 136, pos = (unsigned)r.range(1, rate - 2);
    size_t big = c == 0 ? (1ull << 32) - r.range(1, pos) : c == 1 ? 1ull << 32 : c == 2 ? (1ull << 32) + r.range(1, rate - pos - 1) : (1ull << 29) + r.below(400);
    p.push_back(Op("huge").set("id", 0).set("impl", n).set("kind", 0).set("x4", x4).set("sec", (int)sec).set("prefix", -1).setu("dirty", r.next() >> 1));
    p.push_back(Op("feed").set("id", 0).set("n", (int)(in ? pos : 17)).setu("data", 3).set("form", 1)); if (in) p.push_back(Op("hugefeed").set("id", 0).setu("n", big)); p.push_back(Op("close").set("id", 0)); if (!in) { p.push_back(Op("out").set("id", 0).set("n", (int)pos)); p.push_back(Op("hugeout").set("id", 0).setu("n", big)); } p.push_back(Op("out").set("id", 0).set("n", 500));
    return p;
  }
  int ns = (int)r.range(1, 5); struct G { int kind, x4, stage; unsigned rate, pos; int left; }; std::vector<G> g;
  std::string common = names[r.below(names.size())]; bool same = r.chance(1, 2);
  for (int i = 0; i < ns; ++i) {
    int x4 = (int)r.chance(1, 2), kind = r.chance(1, 2) ? 0 : x4 ? 1 : (int)r.range(1, 4); unsigned sec = r.chance(1, 2) ? 128 : r.chance(1, 2) ? 192 : 256; int prefix = kind == 0 && r.chance(1, 3) ? (int)r.below(256) : -1;
    g.push_back({kind, x4, 0, sec == 128 ? 168u : 136u, prefix >= 0 ? 1u : 0u, (int)r.range(0, 14)});
    p.push_back(Op("open").set("id", i).set("impl", same ? common : names[r.below(names.size())]).set("kind", kind).set("x4", x4).set("sec", sec).set("prefix", prefix).setu("dirty", r.next() >> 1).set("guard", (int)r.below(2)));
  }
  int live = ns;
  while (live) {
    int i = (int)r.below(ns); G& s = g[i]; if (s.stage == 2) continue;
    if (s.stage == 0 && s.left-- > 0) {
      if (s.kind == 0 && r.chance(1, 8)) { p.push_back(Op("u16").set("id", i).set("v", (int)r.below(65536)).set("each", s.x4 ? (int)r.below(2) : 0).set("step", (int)r.below(65536))); s.pos = (s.pos + 2) % s.rate; continue; }
      size_t n = piece(r, s.rate, s.pos, thorough); s.pos = (s.pos + n) % s.rate;
      p.push_back(Op("feed").set("id", i).setu("n", n).setu("data", r.next() >> 1).set("guard", (int)r.below(3)).set("off", (int)r.below(64)).set("form", (int)r.below(3)));
    } else if (s.stage == 0) {
      if (s.kind) { // lengths the scheme asks for: digests, seeds and challenges of up to 168 bytes (an oracle may rely on that)
        size_t most = s.kind == 3 ? 168 : s.kind == 2 ? 64 : 32; p.push_back(Op("oracle").set("id", i).setu("na", r.chance(1, 3) ? most : r.below(most + 1)).setu("nb", r.chance(1, 2) ? r.below(65) : 64).set("guard", (int)r.below(3)).set("off", (int)r.below(64))); s.stage = 2; --live; }
      else { p.push_back(Op("close").set("id", i)); s.stage = 1; s.pos = 0; s.left = (int)r.range(1, 12); }
    } else if (s.left-- > 0) {
      size_t n = piece(r, s.rate, s.pos, thorough); s.pos = (s.pos + n) % s.rate;
      p.push_back(Op("out").set("id", i).setu("n", n).set("guard", (int)r.below(3)).set("off", (int)r.below(64)).set("form", (int)r.below(2)));
    } else { s.stage = 2; --live; }
  }
  return p;
}
void exec_c12(const Plan& p) {
  selftest(); std::map<int64_t, Stream> st; int order = 0;
  for (auto& o : p) {
    int64_t id = o.i("id"); const std::string& n = o.name;
    if (n == "open" || n == "huge") {
      if (!AUX.count(o.s("impl")) || st.count(id)) continue;
      Stream s; s.impl = o.s("impl"); s.kind = (int)o.i("kind"); s.x4 = (int)o.i("x4"); s.sec = (unsigned)o.u("sec"); s.prefix = (o.s("prefix", "-1") == "-1") ? -1 : (int)o.i("prefix"); Drv& d = driver(s.impl);
      s.ctx.reset(new Buf("hash context", d.size(s.x4), o.u("dirty") + 1, o.i("guard") ? Buf::RIGHT : Buf::CANARY)); s.ctx->dirty(o.u("dirty"));
      for (int k = 0; k < (s.x4 ? 4 : 1); ++k) s.model.emplace_back(s.sec);
      if (s.prefix >= 0 && !s.kind) { uint8_t b = (uint8_t)s.prefix; if (s.x4) d.init_prefix4(s.ctx->p, s.sec, b); else d.init_prefix(s.ctx->p, s.sec, b); for (auto& m : s.model) m.absorb(&b, 1); }
      else if (s.x4) d.init4(s.kind, s.ctx->p, s.sec); else d.init(s.kind, s.ctx->p, s.sec);
      R->log("open %lld %s kind %d x4 %d sec %u", (long long)id, s.impl.c_str(), s.kind, s.x4, s.sec); R->count("streams"); st.emplace(id, std::move(s)); continue;
    }
    auto it = st.find(id); if (it == st.end()) continue; Stream& s = it->second; Drv& d = driver(s.impl); uint8_t* c = s.ctx->p; int lanes = s.x4 ? 4 : 1; size_t len = o.u("n"); int g = (int)o.i("guard"); unsigned off = (unsigned)o.i("off"); ++order;
    auto what = [&] { char b[300]; snprintf(b, sizeof b, "%s%s kind %d security %u, after %llu bytes in and %llu bytes out in %llu pieces", s.impl.c_str(), s.x4 ? " (four lanes)" : "", s.kind, s.sec, (unsigned long long)s.in, (unsigned long long)s.out, (unsigned long long)s.pieces); return std::string(b); };
    auto seen = [&](const char* w, size_t k) { unsigned rate = s.model[0].rate; R->covered(mix(mix(tag(w), tag(s.impl.c_str())), mix(s.kind * 2 + s.x4, mix(rate, mix(s.model[0].pos, k < 2 * rate ? k : 2 * rate + k % 8))))); };
    if (n == "feed" && s.stage == 0) {
      seen("feed", len); std::vector<std::unique_ptr<Buf>> src; std::vector<Bytes> data; int form = (int)o.i("form");
      for (int k = 0; k < lanes; ++k) { data.push_back(seeded(o.u("data") + (s.x4 && (form == 1 && !s.kind) ? 0 : k), len)); src.emplace_back(new Buf("hash input", len, o.u("data") + 50 + k, g, off + 7 * k)); src.back()->load(data.back()); src.back()->seal(); }
      if (s.x4) { const uint8_t* q[4]; for (int k = 0; k < 4; ++k) q[k] = src[form == 1 && !s.kind ? 0 : k]->p; d.update4(s.kind, form, c, q, len); } else d.update(s.kind, c, src[0]->p, len);
      for (int k = 0; k < lanes; ++k) { s.model[k].absorb(data[k].data(), len); src[k]->check("hash update"); }
      s.in += len; ++s.pieces; R->count("feed"); R->now_us += 1;
    } else if (n == "u16" && s.stage == 0 && !s.kind) {
      int each = s.x4 && o.i("each"); uint16_t v[4]; for (int k = 0; k < 4; ++k) v[k] = (uint16_t)(o.u("v") + (each ? k * o.u("step") : 0)); seen(each ? "u16s" : "u16", 2);
      if (s.x4) d.u16x4(each, c, v); else d.u16(c, v[0]);
      for (int k = 0; k < lanes; ++k) { uint8_t b[2] = {(uint8_t)v[k], (uint8_t)(v[k] >> 8)}; s.model[k].absorb(b, 2); } s.in += 2; ++s.pieces; R->count("u16"); }
    else if (n == "hugefeed" && s.stage == 0 && !s.kind) {
      Wide z(len); const uint8_t* q[4] = {z.p, z.p, z.p, z.p};
      if (s.x4) d.update4(s.kind, 0, c, q, len); else d.update(s.kind, c, z.p, len);
      for (int k = lanes - 1; k >= 0; --k) if (k && s.model[k].same(s.model[0])) s.model[k].pos = ~0u; else s.model[k].zeros(len);
      for (int k = 1; k < lanes; ++k) if (s.model[k].pos == ~0u) s.model[k] = s.model[0];
      s.in += len; ++s.pieces; R->count("huge-feed");
    } else if (n == "hugeout" && s.stage == 1) {
      std::vector<std::unique_ptr<Wide>> z; uint8_t* q[4]; for (int k = 0; k < lanes; ++k) { z.emplace_back(new Wide(len)); q[k] = z[k]->p; }
      if (s.x4) d.squeeze4(0, c, q, len); else d.squeeze(c, q[0], len);
      for (int k = lanes - 1; k >= 0; --k) if (k && s.model[k].same(s.model[0])) s.model[k].pos = ~0u; else s.model[k].skip(len - 300);
      for (int k = 1; k < lanes; ++k) if (s.model[k].pos == ~0u) s.model[k] = s.model[0];
      for (int k = 0; k < lanes; ++k) { uint8_t e[300]; s.model[k].squeeze(e, 300); if (memcmp(e, z[k]->p + len - 300, 300)) violate("wrong-output", "%s: the end of %zu bytes squeezed at once is not SHAKE output (lane %d)", what().c_str(), len, k); }
      s.out += len; R->count("huge-out");
    } else if (n == "close" && s.stage == 0 && !s.kind) { if (s.x4) d.final4(c); else d.final(c); for (auto& m : s.model) m.finish(); s.stage = 1; }
    else if (n == "out" && s.stage == 1) {
      seen("out", len); std::vector<std::unique_ptr<Buf>> dst; for (int k = 0; k < lanes; ++k) { dst.emplace_back(new Buf("hash output", len, o.u("off") + 90 + k, g, off + 5 * k)); dst.back()->dirty(order + k); }
      if (s.x4) { uint8_t* q[4]; for (int k = 0; k < 4; ++k) q[k] = dst[k]->p; d.squeeze4((int)o.i("form"), c, q, len); } else d.squeeze(c, dst[0]->p, len);
      for (int k = 0; k < lanes; ++k) { Bytes e(len); s.model[k].squeeze(e.data(), len); dst[k]->check("hash squeeze"); if (dst[k]->bytes() != e) violate("wrong-output", "%s: %zu bytes of lane %d are not SHAKE output", what().c_str(), len, k); R->log("out %lld lane %d %zu %llx", (long long)id, k, len, (unsigned long long)hash_bytes(e.data(), len)); }
      s.out += len; ++s.pieces; R->count("squeeze");
    } else if (n == "oracle" && s.stage == 0 && s.kind) {
      size_t na = o.u("na"), nb = s.kind == 4 ? 16 : o.u("nb"); bool two = s.kind == 1 || s.kind == 4; std::vector<std::unique_ptr<Buf>> A, B; uint8_t *qa[4], *qb[4]; seen("oracle", na);
      for (int k = 0; k < lanes; ++k) { A.emplace_back(new Buf("oracle output", na, 70 + k, g, off + 5 * k)); B.emplace_back(new Buf("second oracle output", nb, 80 + k, g, off + 3 * k)); qa[k] = A[k]->p; qb[k] = B[k]->p; }
      if (s.x4) d.oracle4(c, qa, na, qb, nb); else d.oracle(s.kind, c, qa[0], na, qb[0], nb);
      for (int k = 0; k < lanes; ++k) {
        uint8_t ds = (uint8_t)(s.kind - 1); s.model[k].absorb(&ds, 1); s.model[k].finish(); Bytes ea(na), eb(nb); s.model[k].squeeze(ea.data(), na); s.model[k].squeeze(eb.data(), nb); A[k]->check("oracle"); B[k]->check("oracle");
        if (A[k]->bytes() != ea || (two && B[k]->bytes() != eb)) violate("wrong-output", "%s: lane %d of H%d is wrong", what().c_str(), k, s.kind - 1);
        R->log("oracle %lld lane %d %llx", (long long)id, k, (unsigned long long)hash_bytes(ea.data(), na));
      }
      s.stage = 2; R->count("oracle");
    } else continue;
    s.ctx->check("hash call");
  }
  for (auto& e : st) { Stream& s = e.second; if (s.stage != 2) { Drv& d = driver(s.impl); if (s.x4) d.clear4(s.ctx->p); else d.clear(s.ctx->p); } s.ctx->check("hash clear"); }
  if (HEAP.live_blocks) violate("leak", "%llu heap blocks are left after all streams were cleared", (unsigned long long)HEAP.live_blocks);
  heap_check();
}
}
extern const Prop P_C12;
const Prop P_C12 = {"C12", gen_c12, exec_c12};
