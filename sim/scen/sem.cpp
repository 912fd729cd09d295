// uses: chk_sem
// C01, C02: counting semaphore.
#include "simrt.h"
#include "library/Java/Util/Concurrent/Semaphore/Semaphore.hpp"
using namespace sim;
typedef Java::Util::Concurrent::Semaphore Semaphore;
void chk_sem(const Program &p, bool deadlines);
enum { ACQ, TRY, TIMED, REL, AVAIL, ACQ1, TRY1, REL1, SLEEP, JUMP, STR };

static void gen_common(Rng &r, Program &p, Config &c, bool live) {
    int n = (int)r.range(2, 5); long init = r.range(0, 3); 
    p.params["threads"] = n; p.params["init"] = init; p.params["ctor0"] = init == 0 && r.chance(0.3);
    bool balanced = r.chance(0.5);                        // every holder gives back what it took
    long cap = init > 1 ? init : 2; if (balanced && init == 0) { init = p.params["init"] = r.range(1, 3); p.params["ctor0"] = 0; }
    if (balanced) cap = init;
    long taken = 0, budget = 22; p.params["balanced"] = balanced;
    int m = (int)r.range(1, 5);
    for (int t = 1; t <= n; t++) for (int j = 0; j < m && budget > 0; j++) {
        long k = r.range(1, cap), x = r.below(100), extra = 0;
        if (r.chance(0.12)) p.ops.push_back(Op{t, SLEEP, r.range(1, 30), 0, 0});
        if (live && r.chance(0.05)) p.ops.push_back(Op{t, JUMP, r.range(-3600000, 3600000), 0, 0});
        if (x < 35) { bool one = k == 1 && r.chance(0.5); p.ops.push_back(Op{t, one ? ACQ1 : ACQ, k, 0, 0}); extra = k; }
        else if (x < 50) { bool one = k == 1 && r.chance(0.5); p.ops.push_back(Op{t, one ? TRY1 : TRY, k, 0, 0}); extra = k; }
        else if (x < 75) { long to = r.chance(0.1) ? 0x7fffffffffffffffl >> r.below(30) : r.chance(0.15) ? 0 : r.range(1, 40); if (to > 1000000 && !balanced) to = 50; p.ops.push_back(Op{t, TIMED, k, to, 0}); extra = k; }
        else if (x < 88 && !balanced) { bool one = k == 1 && r.chance(0.5); p.ops.push_back(Op{t, one ? REL1 : REL, k, 0, 0}); }
        else p.ops.push_back(Op{t, r.chance(0.2) ? STR : AVAIL, 0, 0, 0});
        budget--; taken += extra;
        if (balanced && extra) { budget--; if (r.chance(0.2)) p.ops.push_back(Op{t, SLEEP, r.range(1, 30), 0, 0}); p.ops.push_back(Op{t, k == 1 && r.chance(0.5) ? REL1 : REL, k, 1, 0}); }
    }
    if (!balanced) {                                        // threads that only release cover everything that can be taken
        long need = taken - init; int rel = (int)r.range(1, 2);
        for (int i = 0; need > 0; i++) { long k = r.range(1, need < 4 ? need : 4); if (budget < -20) k = need; int t = n + 1 + i % rel; if (r.chance(0.3)) p.ops.push_back(Op{t, SLEEP, r.range(1, 30), 0, 0}); p.ops.push_back(Op{t, k == 1 && r.chance(0.5) ? REL1 : REL, k, 0, 0}); need -= k; budget--; }
        p.params["threads"] = n + rel;
    }
    c.rate[F_SPURIOUS] = 0.15; c.rate[F_SIGNALPICK] = 0.5; c.rate[F_CLOCKJUMP] = 0.1;
    c.p_adv = r.chance(0.35) ? 0.05 : 0; c.liveness = live; c.leaks = true;
    p.params["strict"] = c.p_adv == 0;
    c.step_cap = 400000;
}
static void gen_safe(Rng &r, Program &p, Config &c) { gen_common(r, p, c, false); }
static void gen_live(Rng &r, Program &p, Config &c) { gen_common(r, p, c, true); }
static void body(Semaphore *s, const Program *p, int t) {
    bool got = false;
    for (const Op &o : p->ops) if (o.t == t) {
        if (o.op == SLEEP) { sleep_ns(o.a * 1000000); continue; }
        if (o.op == JUMP) { set_real_ns(real_ns() + o.a * 1000000); continue; }
        if ((o.op == REL || o.op == REL1) && o.b == 1 && !got) continue;           // its acquisition failed: nothing to give back
        int kind = o.op == ACQ1 ? ACQ : o.op == TRY1 ? TRY : o.op == REL1 ? REL : o.op == STR ? AVAIL : o.op;
        int e = invoke(kind, o.a, o.b); long res = 0;
        switch (o.op) {
        case ACQ: s->acquire((int)o.a); res = 1; break;
        case ACQ1: s->acquire(); res = 1; break;
        case TRY: res = s->tryAcquire((int)o.a); break;
        case TRY1: res = s->tryAcquire(); break;
        case TIMED: res = s->tryAcquire((int)o.a, o.b); break;
        case REL: s->release((int)o.a); break;
        case REL1: s->release(); break;
        case AVAIL: res = s->availablePermits(); break;
        case STR: { String x = s->toString(); int v = -1; if (sscanf(x.toCharPointer(), "[Permits = %d]", &v) != 1) fail("bad-string", "toString gave '%s'", x.toCharPointer()); res = v; } break;
        }
        ret(e, res);
        if (kind == ACQ || kind == TRY || kind == TIMED) got = res;
    }
}
static void run_common(const Program &p, bool deadlines) {
    HeapMark hm = heap_mark();
    {
        int init = (int)p.get("init");
        Semaphore *s = p.get("ctor0") && init == 0 ? new Semaphore() : new Semaphore(init);
        std::vector<int> ids;
        for (int t = 1; t <= p.get("threads"); t++) { const Program *pp = &p; ids.push_back(spawn([=] { body(s, pp, t); })); }
        for (int i : ids) join(i);
        faults_on(false);
        int e = invoke(AVAIL); ret(e, s->availablePermits());
        delete s;
    }
    std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str());
    chk_sem(p, deadlines);
}
static void run_safe(const Program &p) { run_common(p, false); }
static void run_live(const Program &p) { run_common(p, true); }
SCENARIO("C01", sem_permits, gen_safe, run_safe);
SCENARIO("C02", sem_wakeups, gen_live, run_live);
