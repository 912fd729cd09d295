// uses: chk_thread
// C03, C04: Thread.
#include "simrt.h"
#include <pthread.h>
#include <system_error>
#include <memory>
#include "library/Java/Lang/Thread/Thread.hpp"
#include "library/Java/Lang/IllegalArgumentException/IllegalArgumentException.hpp"
using namespace sim;
typedef Java::Lang::Thread Thread;
void chk_thread(const Program &p);
enum { START, JOIN, TJOIN, ALIVE, GETID, PAUSE, TSLEEP, DETACH, NEW, DEL, TASK, CURRENT, JUMP };

// What a task does, in its thread.
struct Work { long id; long ms; int chatter; long data[4]; Thread *obj; std::vector<Thread *> *all;
    void task() {
        int e = invoke(TASK, id, (long)pthread_self());
        data[0] = id; 
        int c = invoke(CURRENT, id); ret(c, Thread::currentThread() == obj);
        if (chatter & 1) { int a = invoke(ALIVE, id); ret(a, obj->isAlive()); }
        if (chatter & 2) { int a = invoke(GETID, id); ret(a, (long)obj->getId()); }
        if (ms >= 0) { int s = invoke(TSLEEP, 0, ms); Thread::sleep(ms); ret(s); }
        if (chatter & 4) yield();
        data[1] = data[0] + 1; data[2] = data[1] + 1;
        if (chatter & 8) { int a = invoke(ALIVE, id); ret(a, obj->isAlive()); }
        ret(e);
    } };
struct R : public virtual Java::Lang::Runnable { Work *w; explicit R(Work *w) : w(w) {} void run() override { w->task(); } };
struct Sub : public Thread { Work *w; explicit Sub(Work *w) : w(w) {} void run() override { w->task(); } };
struct Slot { Thread *t = nullptr; R *r = nullptr; Work *w = nullptr; long kind = 0; bool joined = false; };
static void make(Slot &s, long id, long spec) {
    s.kind = spec % 3; long x = spec / 3; s.w = new Work{id, x % 41 - 10, (int)(x / 41 % 16), {0, 0, 0, 0}, nullptr, nullptr};
    int e = invoke(NEW, id);
    if (s.kind == 0) { Work *w = s.w; s.t = new Thread([w] { w->task(); }); }
    else if (s.kind == 1) { s.r = new R(s.w); s.t = new Thread(s.r); }
    else s.t = new Sub(s.w);
    s.w->obj = s.t; ret(e);
}
static void destroy(Slot &s, long id) {
    int e = invoke(DEL, id);
    if (s.kind == 2) delete (Sub *)s.t; else delete s.t;
    ret(e);
    delete s.r; delete s.w; s = Slot();
}
static void step(Slot &s, const Op &o, long id, bool check) {
    if (o.op == PAUSE) { sleep_ns(o.b * 1000000); return; }
    if (o.op == JUMP) { set_real_ns(real_ns() + o.b * 1000000); return; }
    if (o.op == TSLEEP) { int e = invoke(TSLEEP, 0, o.b); Thread::sleep(o.b); ret(e); return; }
    if (!s.t) return;
    int e = invoke(o.op, o.op == CURRENT ? 0 : id, o.b);
    switch (o.op) {
    case START: try { s.t->start(); ret(e); } catch (std::system_error &x) { ret_throw(e); } break;
    case JOIN: s.t->join(); ret(e);
        if (check && s.w->data[0] && s.w->data[2] != s.w->data[0] + 2) fail("writes-not-visible", "after join the effects of the task are incomplete");
        break;
    case TJOIN: s.t->join(o.b); ret(e); break;
    case ALIVE: { bool a = s.t->isAlive(); ret(e, a); } break;
    case GETID: { unsigned long i = s.t->getId(); ret(e, (long)i); } break;
    case CURRENT: { Thread *c = Thread::currentThread(); ret(e, c && c == s.t); } break;
    case DETACH: try { s.t->detach(); ret(e); } catch (Java::Lang::IllegalArgumentException &x) { ret_throw(e); } catch (std::system_error &x) { ret_throw(e); } break;
    }
}
static long spec(Rng &r) { long ms = r.chance(0.5) ? -1 : r.range(-5, 30); return r.below(3) + 3 * ((ms + 10) + 41 * (long)r.below(16)); }
static void common(Rng &r, Program &p, Config &c) {
    c.rate[F_SPURIOUS] = 0.1; c.rate[F_SIGNALPICK] = 0.5; c.p_adv = r.chance(0.3) ? 0.05 : 0; c.leaks = true; c.liveness = true; c.step_cap = 400000;
    p.params["strict"] = c.p_adv == 0; if (r.chance(0.3)) c.slot_reuse = true; 
}
// C03: objects shared by several clients
static void gen_join(Rng &r, Program &p, Config &c) {
    common(r, p, c);
    c.rate[F_CLOCKJUMP] = r.chance(0.5) ? 0.1 : 0;
    int n = (int)r.range(1, 4), m = (int)r.range(1, 3); p.params["clients"] = n; p.params["objects"] = m;
    for (int i = 0; i < m; i++) p.params["spec" + std::to_string(i)] = spec(r);
    for (int t = 1; t <= n; t++) { int k = (int)r.range(1, 7); for (int j = 0; j < k; j++) {
        long o = r.below(m), x = r.below(100);
        if (x < 5) p.ops.push_back(Op{t, PAUSE, o, r.range(1, 20), 0});
        else if (x < 8) p.ops.push_back(Op{t, JUMP, o, r.range(-3600000, 3600000), 0});
        else if (x < 33) p.ops.push_back(Op{t, START, o, 0, 0});
        else if (x < 60) p.ops.push_back(Op{t, JOIN, o, 0, 0});
        else if (x < 76) p.ops.push_back(Op{t, TJOIN, o, r.chance(0.1) ? 0x7fffffffffffl >> r.below(20) : r.range(1, 35), 0});
        else if (x < 92) p.ops.push_back(Op{t, ALIVE, o, 0, 0});
        else if (x < 97) p.ops.push_back(Op{t, GETID, o, 0, 0});
        else p.ops.push_back(Op{t, CURRENT, o, 0, 0});
        if (p.ops.back().op == JOIN && r.chance(0.5)) p.ops.push_back(Op{t, ALIVE, o, 0, 0});
    } }
}
static void run_join(const Program &p) {
    HeapMark hm = heap_mark();
    {
        std::vector<Slot> s(p.get("objects")); std::vector<int> ids;
        for (size_t i = 0; i < s.size(); i++) make(s[i], i + 1, p.get(("spec" + std::to_string(i)).c_str()));
        for (int t = 1; t <= p.get("clients"); t++) ids.push_back(spawn([&s, &p, t] { for (const Op &o : p.ops) if (o.t == t && o.a < (long)s.size()) step(s[o.a], o, o.a + 1, false); }));
        for (int i : ids) join(i);
        for (size_t i = 0; i < s.size(); i++) {
            step(s[i], Op{0, JOIN, 0, 0, 0}, i + 1, true); step(s[i], Op{0, ALIVE, 0, 0, 0}, i + 1, true);
            destroy(s[i], i + 1);
        }
    }
    std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str());
    chk_thread(p);
}
// C04: each client creates, uses and destroys objects of its own
static void gen_life(Rng &r, Program &p, Config &c) {
    common(r, p, c);
    int n = (int)r.range(1, 4); p.params["clients"] = n; long id = 1;
    c.rate[F_CLOCKJUMP] = r.chance(0.5) ? 0.15 : 0; c.rate[F_EINTR_SLEEP] = r.chance(0.7) ? 0.4 : 0; c.rate[F_THREAD] = r.chance(0.5) ? 0.3 : 0;
    for (int t = 1; t <= n; t++) { int k = (int)r.range(1, 3); for (int j = 0; j < k; j++, id++) {
        long sp = spec(r), idl = id; bool started = false, det = r.chance(0.2); p.ops.push_back(Op{t, NEW, idl, sp, 0});
        int m = (int)r.range(0, 5); int at = (int)r.range(-1, m - 1);
        if (r.chance(0.1)) p.ops.push_back(Op{t, r.chance(0.5) ? JOIN : TJOIN, idl, 5, 0});
        for (int q = 0; q <= m; q++) {
            if (q == at + 1) { int tries = r.chance(0.3) ? 3 : 1; while (tries--) p.ops.push_back(Op{t, START, idl, 0, 0}); started = true; if (det) p.ops.push_back(Op{t, DETACH, idl, 0, 0}); }
            if (q == m) break;
            long x = r.below(100);
            if (x < 10) p.ops.push_back(Op{t, PAUSE, idl, r.range(1, 20), 0});
            else if (x < 15) p.ops.push_back(Op{t, JUMP, idl, r.range(-3600000, 3600000), 0});
            else if (x < 30) p.ops.push_back(Op{t, TSLEEP, idl, r.chance(0.15) ? 0x1ffffffffl >> r.below(20) : r.range(0, 20), 0});
            else if (x < 55) p.ops.push_back(Op{t, GETID, idl, 0, 0});
            else if (x < 65) p.ops.push_back(Op{t, ALIVE, idl, 0, 0});
            else if (x < 75) p.ops.push_back(Op{t, CURRENT, idl, 0, 0});
            else if (x < 85 && started) p.ops.push_back(Op{t, TJOIN, idl, r.range(1, 30), 0});
            else if (x < 95 && started) p.ops.push_back(Op{t, JOIN, idl, 0, 0});
        }
        p.ops.push_back(Op{t, DEL, idl, 0, 0});
    } }
}
static void run_life(const Program &p) {
    HeapMark hm = heap_mark();
    {
        std::vector<int> ids;
        for (int t = 1; t <= p.get("clients"); t++) ids.push_back(spawn([&p, t] {
            Slot s; long id = 0;
            auto end = [&] { if (!s.t) return; if (s.kind == 2) s.t->join(); destroy(s, id); };     // a subclass must have ended before its own destructor runs
            for (const Op &o : p.ops) if (o.t == t) {
                if (o.op == NEW) { end(); id = o.a; make(s, id, o.b); }
                else if (o.op == DEL) end();
                else if (o.op == DETACH && s.kind == 2) continue;
                else step(s, o, id, true);
            }
            end();
        }));
        for (int i : ids) join(i);
        for (int i = 1; i < threads_created(); i++) join(i);                     // detached threads release their own resources a little later
    }
    std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str());
    chk_thread(p);
}
SCENARIO("C03", thread_join, gen_join, run_join);
SCENARIO("C04", thread_life, gen_life, run_life);
