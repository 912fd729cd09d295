// uses: chk_uuid
// C11, C12: identifiers, generated by threads of several simulated processes.
#include "simrt.h"
#include <atomic>
#include <string.h>
#include "library/Java/Util/UUID/UUID.hpp"
using namespace sim;
using Java::Util::UUID;
void chk_uuid(const Program &p, bool timed);
enum { GEN, TICK, JUMP, CRASH, FORK };
static const char *CLOCK = "/var/lib/libuuid/clock.txt";
static const int NPROC = 8, FIRST_CHILD = 4;   // 1..3 start by themselves, the others are forked
static std::atomic<int> kids[NPROC];
static void gen_one(bool timed, bool text) {
    int e = invoke(timed, 0, 0, real_ns()); UUID u = timed ? UUID::timeUUID() : UUID::randomUUID(); long after = real_ns();
    long m = u.getMostSignificantBits(), l = u.getLeastSignificantBits(), v[2] = {u.version(), u.variant()}; std::string s((const char *)&l, 8); s.append((const char *)&after, 8); s.append((const char *)v, 16); if (text) s.append(u.toString().toCharPointer());
    ret_s(e, s.data(), s.size(), m);
    if (text && !UUID::fromString(u.toString()).equals(u)) fail("reparse", "the text %s of an identifier does not read back as it", u.toString().toCharPointer());
}
static void client(const Program *p, int t, bool timed) {
    for (const Op &o : p->ops) if (o.t == t) {
        if (o.op == GEN) gen_one(timed, o.a);
        if (o.op == FORK) { int pr = (int)o.a; no_preempt(1); fork_process(pr); kids[pr].store(spawn([p, pr, timed] { client(p, 10 + pr, timed); }, pr)); no_preempt(-1); probe("forked"); }
    }
}
static void run_uuid(const Program &p, bool timed) {
    new_process(0); for (int i = 1; i < NPROC; i++) new_process(i);
    for (auto &k : kids) k.store(-1);
    std::vector<int> ids; int n = (int)p.get("threads"); char k[16];
    for (int t = 1; t <= n; t++) { snprintf(k, sizeof k, "p%d", t); int pr = (int)p.get(k, 1); if (!process_dead(pr)) ids.push_back(spawn([&p, t, timed] { client(&p, t, timed); }, pr)); }
    for (const Op &o : p.ops) if (o.t == 0) {
        if (o.op == TICK) { yield(); advance_ns((uint64_t)o.a); } else if (o.op == JUMP) set_real_ns(real_ns() + o.a);
        else if (o.op == CRASH) { int pr = (int)o.a, t = (int)o.b; crash_process(pr); new_process(pr); probe("process restarted"); ids.push_back(spawn([&p, t, timed] { client(&p, t, timed); }, pr)); }
    }
    if (config().clock_tick_ns == 0) config().clock_tick_ns = 100;
    for (int i : ids) join(i);
    for (int i = FIRST_CHILD; i < NPROC; i++) if (kids[i].load() >= 0) join(kids[i].load());   // (a child's children have higher numbers)
    for (int i = 1; i < NPROC; i++) if (open_fds(i) > (timed ? 1 : 0)) fail("descriptor-leak", "%d files left open in one process", open_fds(i));
    chk_uuid(p, timed);
}
static void run_time(const Program &p) {
    switch (p.get("file")) {
    case 1: file_put(CLOCK, ""); break; case 2: file_put(CLOCK, "clock: 2abc tv: 00000016999999"); break; case 3: file_put(CLOCK, "garbage\n\n\x01\x02"); break;
    case 4: file_put(CLOCK, "clock: 3fff tv: 0000001800000000 00500000 adj: 00000003\n"); break; case 5: file_put(CLOCK, "clock: 0123 tv: 0000001600000000 00999999 adj: 00000009\n"); break;
    }
    run_uuid(p, true);
}
static void layout(Rng &r, Program &p, Config &c, int procs, bool crash, bool timed) {
    c.liveness = true; c.step_cap = 3000000; c.p_adv = r.chance(0.5) ? 0.02 : 0; c.malloc_fill = (int)r.range(0, 255); c.rate[F_CASWEAK] = 0.1;
    int n = (int)r.range(procs > 1 ? 2 : 1, 4); if (crash && n < 2) n = 2; p.params["threads"] = n; char k[16]; bool stall = c.clock_tick_ns < 100 && r.chance(0.4);
    for (int t = 1; t <= n; t++) { snprintf(k, sizeof k, "p%d", t); p.params[k] = procs > 1 ? r.range(1, procs) : 1; int m = (int)r.range(1, !timed ? 5 : stall ? 16 : 9); for (int j = 0; j < m; j++) p.ops.push_back(Op{t, GEN, r.chance(0.2), 0, 0}); }
    int child = FIRST_CHILD; if (r.chance(0.4)) for (int t = 1; t <= n && child < NPROC; t++) {          // a process with one thread only may fork
        snprintf(k, sizeof k, "p%d", t); int same = 0; for (int u = 1; u <= n; u++) { char q[16]; snprintf(q, sizeof q, "p%d", u); same += p.params[q] == p.params[k]; } if (same > 1) continue;
        for (int by = t; child < NPROC && r.chance(0.7); by = r.chance(0.3) ? 10 + child - 1 : by) {
            std::vector<size_t> at; for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].t == by) at.push_back(i); size_t pos = at.empty() ? p.ops.size() : at[r.below(at.size())] + r.below(2);
            p.ops.insert(p.ops.begin() + pos, Op{by, FORK, child, 0, 0}); int q = (int)r.range(1, 4); for (int x = 0; x < q; x++) p.ops.push_back(Op{10 + child, GEN, 0, 0, 0}); child++;
        }
    }
    int m = (int)r.range(0, 6); int next = n + 1;
    static const long j[] = {-1000, -1000, -10000, -1000000000l, -3600000000000l, 1000, 5000000000l};
    bool jumps = r.chance(0.5); p.params["back"] = 0;
    for (int i = 0; i < m; i++) {
        int w = (int)r.below(4);
        if (w == 3 && crash && next < 9) { p.ops.push_back(Op{0, CRASH, r.range(1, procs), next, 0}); int q = (int)r.range(1, 5); for (int x = 0; x < q; x++) p.ops.push_back(Op{next, GEN, 0, 0, 0}); next++; }
        else if (w == 2 && jumps) { long d = j[r.below(7)]; if (d < 0) p.params["back"] = 1; else p.params["jumps"] = 1; p.ops.push_back(Op{0, JUMP, d, 0, 0}); }
        else p.ops.push_back(Op{0, TICK, r.chance(0.5) ? 1000 : r.range(100, 5000), 0, 0});
    }
}
static void gen_time(Rng &r, Program &p, Config &c) {
    c.clock_tick_ns = r.chance(0.4) ? 0 : r.chance(0.5) ? r.range(50, 400) : r.range(400, 3000);
    bool one = r.chance(0.4); layout(r, p, c, one ? 1 : 3, !one || r.chance(0.3), true);
    p.params["file"] = r.chance(0.5) ? 0 : r.range(1, 5);
    if (r.chance(0.4)) { c.rate[F_FLOCK] = 0.1; c.rate[F_READ_SHORT] = 0.1; c.rate[F_WRITE_SHORT] = 0.1; c.rate[F_READ_EINTR] = 0.05; }
    if (r.chance(0.3)) { c.rate[F_WRITE_FAIL] = 0.1; c.rate[F_TRUNC] = 0.1; c.rate[F_READ_FAIL] = 0.05; }
    if (r.chance(0.2)) { c.rate[F_OPEN] = 0.2; c.rate[F_FDOPEN] = 0.2; }
    if (r.chance(0.3)) c.rate[F_CRASH] = 0.02;
}
SCENARIO("C11", time_uuid, gen_time, run_time);
static void run_random(const Program &p) { int d = (int)p.get("device", 1); if (d != 1) { entropy(d, 1); probe(d ? "dead entropy device" : "no entropy device"); } run_uuid(p, false); }
static void gen_random(Rng &r, Program &p, Config &c) {
    c.clock_tick_ns = r.chance(0.5) ? 0 : r.range(10, 3000); layout(r, p, c, 1, false, false); c.step_cap = 600000; p.params["device"] = r.chance(0.6) ? 1 : r.chance(0.6) ? 0 : r.range(2, 3);
    if (r.chance(0.5)) { c.rate[F_READ_SHORT] = 0.3; c.rate[F_READ_EINTR] = 0.3; }
    if (r.chance(0.3)) { c.rate[F_READ_FAIL] = r.chance(0.5) ? 0.3 : 0.97; } if (r.chance(0.3)) c.rate[F_OPEN] = 0.4;
}
SCENARIO("C12", random_uuid, gen_random, run_random);
