// C19: objects that nobody changes, read by several threads at once.
#include "ops_read.h"
using namespace read_ops;
static const char SEP = '\001';
static void run_readers(const Program &p) {
    int n = (int)p.get("threads"); std::vector<std::string> want(n + 1), got(n + 1);
    for (int t = 1; t <= n; t++) { if (!solo([&p, t](std::string &r) { Shared m(p); for (const Op &o : p.ops) if (o.t == t) { Out out; safe(m, o, out); r += out.s; r += SEP; } }, want[t])) { probe("no single-threaded result"); return; } got[t].reserve(1 << 18); }
    { Shared m(p); if (p.get("again")) { Out out; for (const Op &o : p.ops) safe(m, o, out); }
      std::vector<int> ids; for (int t = 1; t <= n; t++) ids.push_back(spawn([&m, &p, t, &got] { for (const Op &o : p.ops) if (o.t == t) { Out out; safe(m, o, out); got[t] += out.s; got[t] += SEP; } })); for (int i : ids) join(i); }
    for (int t = 1; t <= n; t++) if (got[t] != want[t]) {
        size_t x = 0, y = 0; for (const Op &o : p.ops) if (o.t == t) {
            size_t e = want[t].find(SEP, x), f = got[t].find(SEP, y); std::string A = want[t].substr(x, e - x), B = got[t].substr(y, f - y); x = e + 1; y = f + 1;
            if (A != B) fail("wrong-read", "thread %d: %s (%ld) gave %s; a single reader gets %s", t, names[o.op], o.a, B.c_str(), A.c_str());
        }
    }
    for (int t = 1; t <= n; t++) { uint64_t h = 1469598103934665603ull; for (char k : got[t]) h = (h ^ (unsigned char)k) * 1099511628211ull; cover(h); }
}
static void gen_readers(Rng &r, Program &p, Config &c) {
    c.leaks = false; c.liveness = true; c.step_cap = 20000000; c.malloc_fill = (int)r.range(0, 255); c.heap_reuse = r.chance(0.5); c.clock_tick_ns = 100; c.p_adv = 0;
    int n = (int)r.range(2, 4); p.params["threads"] = n; p.params["w1"] = r.below(8); p.params["w2"] = r.below(8); p.params["x"] = r.below(100000); p.params["y"] = r.below(100000); p.params["n"] = r.below(9); p.params["again"] = r.chance(0.3);
    int few = r.chance(0.7) ? (int)r.range(1, 2) : NOPS, pick[2]; for (int &k : pick) k = (int)r.below(NOPS);
    for (int t = 1; t <= n; t++) { int m = (int)r.range(1, 4); for (int j = 0; j < m; j++) p.ops.push_back(Op{t, few < NOPS ? pick[r.below(few)] : (int)r.below(NOPS), (long)r.below(100), 0, 0}); }
}
SCENARIO("C19", readers, gen_readers, run_readers);
