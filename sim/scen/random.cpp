// uses: chk_random
// C10: Random.
#include "simrt.h"
#include <string.h>
#include "library/Java/Util/Random/Random.hpp"
#include "library/Java/Lang/Math/Math.hpp"
using namespace sim;
using Java::Util::Random;
void chk_draws(const Program &p); void chk_seeds();
enum { INT, BOUND, LONG, BOOL, FLOAT, DOUBLE, GAUSS, BYTES, STRING, SETSEED, NEWLONG, NEWINTS, MATHRANDOM, JUMP };
static long bits(double d) { long l; memcpy(&l, &d, 8); return l; }
static void step(Random *q, const Op &o) {
    int e = invoke(o.op, o.a);
    switch (o.op) {
    case INT: ret(e, q->nextInt()); break; case BOUND: ret(e, q->nextInt((int)o.a)); break; case LONG: ret(e, q->nextLong()); break; case BOOL: ret(e, q->nextBoolean()); break;
    case FLOAT: ret(e, bits(q->nextFloat())); break; case DOUBLE: ret(e, bits(q->nextDouble())); break; case GAUSS: ret(e, bits(q->nextGaussian())); break;
    case BYTES: { Array<byte> a((int)o.a); q->nextBytes(&a); std::string s; for (int i = a.length - (int)o.a; i < a.length; i++) s += (char)a[i]; ret_s(e, s.data(), s.size()); break; }
    case STRING: { String s = q->nextString((int)o.a); ret_s(e, s.toCharPointer(), (size_t)s.length()); break; }
    case SETSEED: q->setSeed(o.a); ret(e); break;
    }
}
static void run_draws(const Program &p) {
    HeapMark hm = heap_mark();
    { Random *q = new Random(p.get("seed")); std::vector<int> ids; for (const Op &o : p.ops) if (o.t == 0) step(q, o);
      for (int t = 1; t <= p.get("threads"); t++) ids.push_back(spawn([q, &p, t] { for (const Op &o : p.ops) if (o.t == t) step(q, o); }));
      for (int i : ids) join(i);
      step(q, Op{0, LONG, 0, 0, 0}); step(q, Op{0, GAUSS, 0, 0, 0}); delete q; }
    std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str());
    chk_draws(p);
}
static void gen_draws(Rng &r, Program &p, Config &c) {
    c.leaks = true; c.liveness = true; c.step_cap = 1000000; c.p_adv = 0; c.rate[F_CASWEAK] = 0.15; c.malloc_fill = (int)r.range(0, 255);
    p.params["seed"] = r.chance(0.1) ? r.range(-1, 1) : (long)r.next(); int n = (int)r.range(2, 4); p.params["threads"] = n; bool reseed = r.chance(0.2); int mode = (int)r.below(3);
    static const long bounds[] = {1, 2, 3, 7, 8, 10, 62, 100, 1 << 20, 1000003, (1 << 30) + 1, 0x7fffffff};
    auto op = [&](int t) { int k = mode == 0 ? (int)r.range(INT, LONG) : mode == 1 && r.chance(0.5) ? GAUSS : (int)r.range(INT, STRING); if (reseed && r.chance(0.08)) k = SETSEED;
        long a = k == BOUND ? bounds[r.below(12)] : k == BYTES ? r.range(1, 4) : k == STRING ? r.range(0, 9) : k == SETSEED ? r.range(0, 1000000) : 0; p.ops.push_back(Op{t, k, a, 0, 0}); };
    if (r.chance(0.3)) op(0); for (int t = 1; t <= n; t++) { int m = (int)r.range(1, 7); for (int j = 0; j < m; j++) op(t); }
}
SCENARIO("C10", draws, gen_draws, run_draws);
static void run_seeds(const Program &p) {
    std::vector<int> ids;
    for (int t = 1; t <= p.get("threads"); t++) ids.push_back(spawn([&p, t] { for (const Op &o : p.ops) if (o.t == t) {
        if (o.op == JUMP) { set_real_ns(o.a); continue; }
        int e = invoke(o.op); long v;
        if (o.op == NEWLONG) { Random q; v = q.nextLong(); } else if (o.op == NEWINTS) { Random *q = new Random(); unsigned a = (unsigned)q->nextInt(), b = (unsigned)q->nextInt(); v = (long)((unsigned long)a << 32 | b); delete q; } else v = bits(Java::Lang::Math::random());
        ret(e, v); } }));
    for (int i : ids) join(i);
    chk_seeds();
}
static void gen_seeds(Rng &r, Program &p, Config &c) {
    c.liveness = true; c.step_cap = 1000000; c.p_adv = 0; c.rate[F_CASWEAK] = 0.15; c.clock_tick_ns = r.chance(0.6) ? 0 : r.range(1, 1000); int n = (int)r.range(1, 4); p.params["threads"] = n; long base = 1700000000l * 1000000000l; bool jumps = r.chance(0.5);
    for (int t = 1; t <= n; t++) { int m = (int)r.range(1, 9); for (int j = 0; j < m; j++) { if (jumps && r.chance(0.4)) p.ops.push_back(Op{t, JUMP, base + (long)r.below(4), 0, 0}); p.ops.push_back(Op{t, (int)r.range(NEWLONG, MATHRANDOM), 0, 0, 0}); } }
}
SCENARIO("C10", seeds, gen_seeds, run_seeds);
