// C15: threads with objects of their own behave as if each of them were alone.
#include "ops_more.h"
using namespace iso_ops;
static const char SEP = '\001';
// operation codes: 0.. the ones with state, 1000.. new objects, 2000.. ranges and empty objects, 3000.. objects given to themselves
static std::string opname2(int op) { return op >= 4000 ? more_ops::names[op - 4000] : op >= 3000 ? alias_ops::names[op - 3000] : op >= 2000 ? edge_ops::names[op - 2000] : op >= 1000 ? fresh_ops::names[op - 1000] : opname(op); }
static void one(Mine &m, const Op &o, Out &out) {
    if (o.op < 1000) { safe(m, o, out); return; }
    Op q = o; q.op %= 1000; try { if (o.op < 2000) fresh_ops::step(q, out); else if (o.op < 3000) edge_ops::step(q, out); else if (o.op < 4000) alias_ops::step(q, out); else more_ops::step(q, out); } catch (Exception &e) { out.add("threw"); out.add(e.getMessage()); } catch (std::exception &e) { out.add("threw std"); out.add(e.what()); }
}
static int kind(Rng &r) { int x = (int)r.below(100); return x < 54 ? (int)r.below(NOPS) : x < 77 ? 1000 + (int)r.below(fresh_ops::NOPS) : x < 84 ? 2000 + (int)r.below(edge_ops::NOPS) : x < 91 ? 3000 + (int)r.below(alias_ops::NOPS) : 4000 + (int)r.below(more_ops::NOPS); }
static void sequence(const Program &p, int t, std::string &all) { Mine m; for (const Op &o : p.ops) if (o.t == t) { Out out; one(m, o, out); all += out.s; all += SEP; } }
static void run_iso(const Program &p) {
    int n = (int)p.get("threads"); std::vector<std::string> want(n + 1), got(n + 1); std::vector<bool> have(n + 1);
    for (int t = 1; t <= n; t++) { have[t] = solo([&p, t](std::string &r) { sequence(p, t, r); }, want[t]); if (!have[t]) { probe("no single-threaded result"); return; } got[t].reserve(1 << 18); }
    std::vector<int> ids; for (int t = 1; t <= n; t++) ids.push_back(spawn([&p, t, &got] { sequence(p, t, got[t]); })); for (int i : ids) join(i);
    for (int t = 1; t <= n; t++) if (have[t] && got[t] != want[t]) {
        size_t x = 0, y = 0; for (const Op &o : p.ops) if (o.t == t) {
            size_t e = want[t].find(SEP, x), f = got[t].find(SEP, y); std::string A = want[t].substr(x, e - x), B = got[t].substr(y, f - y); x = e + 1; y = f + 1;
            if (A != B) fail("interference", "thread %d: %s(%ld, %ld, %ld) gave %s; alone it gives %s", t, opname2(o.op).c_str(), o.a, o.b, o.c, B.c_str(), A.c_str());
        }
    }
    for (int t = 1; t <= n; t++) { uint64_t h = 1469598103934665603ull; for (char k : got[t]) h = (h ^ (unsigned char)k) * 1099511628211ull; cover(h); }
}
static void gen_iso(Rng &r, Program &p, Config &c) {
    c.leaks = false; c.liveness = true; c.step_cap = 20000000; c.malloc_fill = (int)r.range(0, 255); c.heap_reuse = r.chance(0.5); c.clock_tick_ns = 100; c.p_adv = 0;
    int n = (int)r.range(2, 4); p.params["threads"] = n; int few = r.chance(0.7) ? (int)r.range(1, 3) : NOPS, pick[3]; for (int &k : pick) k = kind(r);
    for (int t = 1; t <= n; t++) { int m = (int)r.range(1, 5); for (int j = 0; j < m; j++) p.ops.push_back(Op{t, few < NOPS ? pick[r.below(few)] : kind(r), (long)r.below(1000), r.chance(0.3) ? (long)r.next() : r.range(-100000, 100000), (long)r.below(4)}); }
}
SCENARIO("C15", isolation, gen_iso, run_iso);
