// C02: every entropy adapter of randomness.c over a simulated entropy device.
#include "p_common.h"
#include <dlfcn.h>

typedef int (*rand_fn)(uint8_t*, size_t);
static rand_fn adapter(const std::string& n) {
  static std::map<std::string, rand_fn> m; auto it = m.find(n); if (it != m.end()) return it->second;
  void* h = dlopen(AUX[n].c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "dlopen %s: %s\n", n.c_str(), dlerror()); exit(2); }
  rand_fn f = (rand_fn)dlsym(h, "rand_bytes"); if (!f) { fprintf(stderr, "no rand_bytes in %s\n", n.c_str()); exit(2); }
  return m[n] = f;
}
static const int ERRS[] = {EINTR, EAGAIN, EINTR, EAGAIN, EIO, ENOSYS, EFAULT, EPERM, EINVAL, EBADF, ENOMEM, EISDIR};
static Plan gen_c02(uint64_t seed, uint64_t, bool thorough) {
  Rng r(seed); Plan p; std::vector<std::string> names; for (auto& a : AUX) names.push_back(a.first);
  int n = (int)r.range(8, thorough ? 200 : 80);
  for (int i = 0; i < n; ++i) {
    Op o("request"); std::string a = r.chance(1, 2) ? names[r.below(names.size())] : std::vector<std::string>{"getrandom", "urandom", "urandom_bsd", "urandom_nocloexec"}[r.below(4)];
    static const size_t LEN[] = {0, 1, 2, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 255, 256, 257, 4095, 4096, 4097};
    size_t len = r.chance(2, 3) ? LEN[r.below(19)] : r.chance(1, 2) ? r.below(70) : r.below(20000);
    if (a == "windows" && r.chance(1, 20)) len = (1ull << 32) + r.below(64);
    o.set("if", a).setu("len", len).setu("seed", r.next()).set("guard", (int)r.below(3)).set("fd0", (int)r.chance(1, 4)).set("off", (int)r.below(64));
    std::string s; int k = r.chance(1, 5) ? 0 : (int)r.range(1, r.chance(1, 10) ? 300 : 8); size_t left = len;
    for (int j = 0; j < k; ++j) {
      if (!s.empty()) s += ",";
      switch (r.below(8)) {
        case 0: case 1: s += "e" + std::to_string(r.chance(2, 3) ? ERRS[r.below(4)] : ERRS[r.below(12)]); break;
        case 2: s += r.chance(1, 4) ? "z" : "s1"; break;
        case 3: s += "o"; break;
        default: { size_t c = left ? (r.chance(1, 3) ? 1 + r.below(3) : r.chance(1, 2) ? r.below(left) + 1 : left - 1) : 1; if (c == 0) c = 1; s += "s" + std::to_string(c); left = left > c ? left - c : 0; }
      }
    }
    if (!s.empty()) o.set("script", s);
    if (r.chance(1, 2)) o.set("errno", ERRS[r.below(12)]);
    if (r.chance(1, 6)) { static const int P[] = {EIO, ENOSYS, EFAULT, EPERM, EINVAL, 0}; o.set("forever", P[r.below(6)]); }  // 0: end of file for good
    if (r.chance(1, 5)) { std::string t; int q = (int)r.range(1, 4); for (int j = 0; j < q; ++j) { static const int O[] = {EINTR, EINTR, EMFILE, ENFILE, ENOENT, EACCES, ELOOP}; t += (t.empty() ? "e" : ",e") + std::to_string(O[r.below(7)]); } o.set("open", t); }
    if (r.chance(1, 12)) o.set("openforever", EMFILE);
    if (r.chance(1, 8)) o.set("ioctl", std::vector<int>{EINVAL, EIO, ENOTTY, EINTR}[r.below(4)]);
    if (r.chance(1, 8)) o.set("closeerr", r.chance(1, 2) ? EINTR : EIO);
    p.push_back(o);
  }
  return p;
}
static void exec_c02(const Plan& p) {
  for (auto& o : p) {
    const std::string a = o.s("if"); if (!AUX.count(a)) continue; rand_fn f = adapter(a); size_t len = o.u("len"); uint64_t sd = o.u("seed");
    ENT.reset_call(); ENT.bulk = 0; entropy_seed(sd); ENT.script = parse_script(o.s("script")); ENT.open_script = parse_script(o.s("open")); ENT.next_fd = o.i("fd0") ? 0 : 3 + (int)(sd % 1000);
    if (o.has("forever")) { ENT.forever = true; ENT.forever_step = o.i("forever") ? EntropyStep{E_ERR, (int)o.i("forever"), 0} : EntropyStep{E_EOF, 0, 0}; }
    if (o.has("openforever")) { ENT.open_forever = true; ENT.open_forever_step = {E_ERR, (int)o.i("openforever"), 0}; }
    if (o.has("ioctl")) ENT.ioctl_script.push_back({E_ERR, (int)o.i("ioctl"), 0});
    ENT.close_err = (int)o.i("closeerr"); ENT.fds.clear(); ENT.bad_close = 0;
    ENT.limit = 400 + 4 * (ENT.script.size() + ENT.open_script.size()) + (len < (1u << 20) ? len : 0);
    bool big = len > (1u << 26); int r; Bytes got, before; const int stale = (int)o.i("errno");  // left behind by whatever ran before
    if (big) {
      uint8_t* q = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) abort();
      errno = stale; r = f(q, len); munmap(q, len);
    } else {
      Buf b("random", len, sd + 1, (int)o.i("guard"), (unsigned)o.i("off")); b.dirty(sd + 2); before = b.bytes();
      errno = stale; r = f(b.p, len); got = b.bytes(); b.check("random request");
    }
    R->log("%s(%zu) -> %d, %llu calls, %llu faults, %zu bytes delivered", a.c_str(), len, r ? -1 : 0, (unsigned long long)ENT.calls, (unsigned long long)ENT.faults, ENT.delivered.size());
    R->count("request"); if (r) R->count("request-refused"); R->now_us += ENT.calls;
    for (size_t i = 0; i < ENT.pos && i < ENT.script.size(); ++i) { auto& st = ENT.script[i]; if (st.kind == E_ERR) R->count(st.err == EINTR ? "fault:EINTR" : st.err == EAGAIN ? "fault:EAGAIN" : "fault:error"); else if (st.kind == E_SHORT) R->count("fault:short"); else if (st.kind == E_EOF) R->count("fault:eof"); }
    if (ENT.open_pos) R->count("fault:open", ENT.open_pos); if (ENT.ioctl_pos && o.has("ioctl")) R->count("fault:ioctl"); if (o.has("forever") && ENT.pos >= ENT.script.size() && ENT.data_calls > ENT.pos) R->count("fault:permanent"); if (ENT.close_err && !ENT.fds.size()) R->count("fault:close");
    std::string shape; for (auto& st : ENT.script) { if (shape.size() > 5) break; shape += (char)('0' + st.kind); }
    R->covered(mix(mix(tag(a.c_str()), hash_str(shape)), mix(len < 64 ? len : 64 + len % 7, mix(r ? 1 : 0, o.has("forever") * 8 + o.has("open") * 4 + o.has("ioctl") * 2 + o.has("closeerr")))));
    if (!ENT.fds.empty()) violate("fd-leak", "%s: a request of %zu bytes left %zu descriptors open", a.c_str(), len, ENT.fds.size());
    if (ENT.bad_close) violate("bad-close", "%s: a request of %zu bytes closed or read a descriptor it does not own", a.c_str(), len);
    if (r == 0) {
      if (ENT.delivered.size() + ENT.bulk < len) violate("not-filled", "%s: a request of %zu bytes succeeded although only %zu bytes were delivered", a.c_str(), len, ENT.delivered.size());
      if (!big && len && !occurs(ENT.delivered, got.data(), len)) {
        // otherwise every byte must have been put in place by the source
        Bytes w(len, 0); std::vector<bool> have(len, false); size_t pieces = 0, at = 0;
        // decompose into delivered pieces, in order
        while (at < len) { size_t best = 0; for (size_t i = 0; i < ENT.delivered.size(); ++i) { size_t k = 0; while (at + k < len && i + k < ENT.delivered.size() && got[at + k] == ENT.delivered[i + k]) ++k; if (k > best) best = k; } if (best < 8 && at + best < len) break; at += best; if (++pieces > 64) break; }
        if (at < len) violate("not-filled", "%s: a request of %zu bytes succeeded, but byte %zu was not delivered by the source", a.c_str(), len, at);
      }
    } else {
      // ioctl of a source without that call, or a close error after complete delivery, are the only other reasons
      if (!ENT.faults && !big) violate("spurious-failure", "%s: a request of %zu bytes failed although the source worked", a.c_str(), len);
    }
  }
  ENT.close_err = 0;
}
extern const Prop P_C02;
const Prop P_C02 = {"C02", gen_c02, exec_c02};
