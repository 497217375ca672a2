#include "p_common.h"
#include <chrono>
static Plan gen_b(uint64_t, uint64_t, bool) { Plan p; p.push_back(Op("x")); return p; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void exec_b(const Plan&) {
  for (auto& v : VARS) for (int s : {1, 3, 5, 7, 9, 11, 0, 6, 4}) {
    Key k = ref_key(s, 1); Bytes m = msg(1, 100), sig(SETS[s].sig); size_t l = sig.size();
    double t0 = now(); v.api[s].sign(k.sk.data(), m.data(), m.size(), sig.data(), &l); double t1 = now(); v.api[s].verify(k.pk.data(), m.data(), m.size(), sig.data(), l); double t2 = now();
    for (int i = 0; i < 10; ++i) v.api[s].validate(k.pk.data(), k.sk.data());
    double t3 = now();
    fprintf(stderr, "%s %s sign %.1f ms verify %.1f ms validate %.3f ms\n", v.name.c_str(), SETS[s].name, (t1 - t0) * 1e3, (t2 - t1) * 1e3, (t3 - t2) * 100);
  }
}
extern const Prop P_BENCH;
const Prop P_BENCH = {"BENCH", gen_b, exec_b};
