// Oracle for the semaphore: linearizability against a counter, deadlines, and direct accounting.
#include "lin.h"
using namespace sim;
enum { ACQ, TRY, TIMED, REL, AVAIL };
struct M { long n; std::string key() const { return std::string((const char *)&n, 8); }
    bool apply(const Event &e, bool pending) {
        switch (e.op) {
        case ACQ: if (n < e.a) return false; n -= e.a; return true;
        case TRY: case TIMED: if (pending || e.r == 1) { if (n < e.a) return false; n -= e.a; return true; } return n < e.a;
        case REL: n += e.a; return true;
        default: return pending || e.r == n;
        }
    } };
void chk_sem(const Program &p, bool deadlines) {
    Guard g; auto &H = history(); long init = p.get("init");
    long bal = init; uint64_t cov = 1469598103934665603ull; bool some_false = false, some_wait = false;
    for (auto &e : H) {
        if (e.done && e.op <= TIMED && e.r == 1) bal -= e.a;
        if (e.done && e.op == REL) bal += e.a;
        if (e.op == AVAIL && e.done && e.r < 0) fail("negative-count", "available permits reported as %ld", e.r);
        cov = (cov ^ (e.op * 1000003 + e.a * 101 + e.r * 7 + e.thread)) * 1099511628211ull;
        if (e.done && e.op == TIMED && !e.r) some_false = true;
        if (e.done && e.ret_t > e.inv_t + 500000) some_wait = true;
    }
    cover(cov); if (some_false) probe("timed attempt failed"); if (some_wait) probe("a caller waited");
    // permits handed out never exceed those that exist: sum over everything granted before the return of any grant
    for (auto &x : H) if (x.done && x.op <= TIMED && x.r == 1) {
        long granted = 0, exist = init; for (auto &e : H) { if (e.done && e.op <= TIMED && e.r == 1 && e.ret <= x.ret) granted += e.a; if (e.op == REL && e.inv < x.ret) exist += e.a; }
        if (granted > exist) fail("over-grant", "%ld permits granted while only %ld existed", granted, exist);
    }
    bool alldone = true; for (auto &e : H) if (!e.done) alldone = false;
    if (alldone && !H.empty() && H.back().op == AVAIL && H.back().r != bal) fail("wrong-final-count", "available permits %ld at the end, %ld expected (initial %ld plus released minus granted)", H.back().r, bal, init);
    Lin<M> L(H);
    for (size_t i = 0; i < H.size(); i++) {
        L.add((int)i); const Event &e = H[i];
        if (e.op == TIMED && e.done && e.b >= 0) {
            uint64_t to = (uint64_t)e.b > 9000000000ull ? ~0ull >> 3 : (uint64_t)e.b * 1000000ull, el = e.ret_t - e.inv_t;
            if (deadlines) {
                if (!e.r && el < to) fail("early-timeout", "attempt with a timeout of %ld ms failed after %.3f ms", e.b, el / 1e6);
                if (p.get("strict") && el > to + 20000000ull) fail("late-timeout", "attempt with a timeout of %ld ms returned after %.3f ms", e.b, el / 1e6);
                // a failing attempt must have found too few permits at its deadline or later (1 ms tolerance)
                if (!e.r && to > 1000000) { uint64_t dl = e.inv_t + to - 1000000, st = e.inv; for (auto &x : H) { if (x.inv_t < dl && x.inv > st && x.inv < e.ret) st = x.inv; if (x.done && x.ret_t < dl && x.ret > st && x.ret < e.ret) st = x.ret; } L.ops.back().inv = st; }
            }
        }
        if (deadlines && p.get("strict") && e.op == TRY && e.done && e.ret_t - e.inv_t > 20000000ull) fail("untimed-attempt-blocked", "tryAcquire without a timeout took %.3f ms", (e.ret_t - e.inv_t) / 1e6);
    }
    if (!L.check(M{init})) {
        std::string s; for (auto &e : H) { char b[160]; static const char *nm[] = {"acquire", "tryAcquire", "tryAcquire(timeout)", "release", "available"}; snprintf(b, sizeof b, "\n  [%lu..%ld] thread %d %s(%ld,%ld) = %ld", e.inv, e.done ? (long)e.ret : -1L, e.thread, nm[e.op], e.a, e.b, e.done ? e.r : -99); s += b; }
        fail("not-linearizable", "no order of these calls explains their results with %ld initial permits:%s", init, s.c_str());
    }
    if (L.gave_up) note("linearizability search gave up");
}
