// Oracle for Thread: exactly-once tasks, joins, liveness flag, identity, sleeps.
#include "rt_internal.h"
using namespace sim;
enum { START, JOIN, TJOIN, ALIVE, GETID, PAUSE, TSLEEP, DETACH, NEW, DEL, TASK, CURRENT, JUMP };
void chk_thread(const Program &p) {
    Guard g; auto &H = history(); bool strict = p.get("strict"); const uint64_t slack = 20000000; uint64_t cov = 1469598103934665603ull;
    std::map<long, std::vector<const Event *>> by;                               // per object incarnation (e.a)
    for (auto &e : H) { by[e.a].push_back(&e); cov = (cov ^ (e.op * 1000003 + e.a * 101 + (e.op == GETID || e.op == TASK || e.op == CURRENT ? 0 : e.r * 7) + e.thread)) * 1099511628211ull; }
    cover(cov);
    for (auto &kv : by) {
        const Event *task = nullptr; int tasks = 0, ok = 0, bad = 0; uint64_t first_start = ~0ull, started = ~0ull; long o = kv.first;
        for (auto e : kv.second) {
            if (e->op == TASK) { task = e; tasks++; }
            if (e->op == START) { if (e->inv < first_start) first_start = e->inv; if (e->done && e->threw) bad++; else if (e->done) { ok++; if (e->ret < started) started = e->ret; } }
        }
        if (ok && tasks != 1) fail(tasks ? "ran-more-than-once" : "task-not-run", "thread object %ld was started %d times (%d failed) and its task ran %d times", o, ok, bad, tasks);
        if (!ok && tasks) fail("task-run-after-failed-start", "thread object %ld: every start failed, yet its task ran %d times", o, tasks);
        if (bad) probe("start reported a failure"); if (ok && bad) probe("started after a failed start");
        if (task && !task->done) fail("task-cut-short", "the task of thread object %ld did not run to its end", o);
        for (auto e : kv.second) if (e->done) {
            uint64_t el = e->ret_t - e->inv_t;
            bool after_start = started < e->inv, ended = task && task->ret < e->ret;
            switch (e->op) {
            case JOIN:
                if (after_start && !ended) fail("join-returned-early", "join of thread object %ld returned before its task ended", o);
                if (after_start && strict && e->ret_t > std::max(task->ret_t, e->inv_t) + slack) fail("join-late", "join of thread object %ld returned %.3f ms after its task ended", o, (e->ret_t - std::max(task->ret_t, e->inv_t)) / 1e6);
                if (after_start && task->ret > e->inv) probe("join waited for the task"); break;
            case TJOIN: {
                uint64_t to = (uint64_t)e->b > 9000000000ull ? ~0ull >> 3 : (uint64_t)e->b * 1000000ull;
                if (!after_start) break;
                if (!ended && el < to) fail("timed-join-returned-early", "join(%ld) of thread object %ld returned after %.3f ms while its task was running", e->b, o, el / 1e6);
                if (!ended) probe("timed join timed out");
                if (strict && el > to + slack) fail("timed-join-late", "join(%ld) of thread object %ld returned after %.3f ms", e->b, o, el / 1e6);
                if (strict && task->ret < e->ret && e->ret_t > std::max(task->ret_t, e->inv_t) + slack) fail("timed-join-late", "join(%ld) of thread object %ld returned %.3f ms after its task ended", e->b, o, (e->ret_t - task->ret_t) / 1e6);
                break; }
            case ALIVE:
                if (task && e->inv > task->inv && (e->ret < task->ret) && !e->r) fail("running-but-not-alive", "thread object %ld was reported not alive while its task was executing", o);
                if (e->r && e->ret < first_start) fail("alive-before-start", "thread object %ld was reported alive before any start", o);
                if (e->r) for (auto j : kv.second) if (j->op == JOIN && j->done && j->ret < e->inv && started < j->inv) fail("alive-after-join", "thread object %ld was reported alive after join returned", o);
                if (e->r && task && task->done && task->ret < e->inv && strict && e->inv_t > task->ret_t + slack) fail("alive-after-end", "thread object %ld was reported alive %.3f ms after its task ended", o, (e->inv_t - task->ret_t) / 1e6);
                break;
            case GETID:
                if (task && e->inv > task->inv && e->ret < task->ret && e->r != task->b) fail("wrong-id", "getId of thread object %ld gave %lx while its task was executing in thread %lx", o, e->r, task->b);
                break;
            case CURRENT:
                if (o && e->r != 1) fail("wrong-current-thread", "currentThread inside the task of thread object %ld was not that object", o);
                break;
            case DEL:
                if (ok && !ended) fail("destroyed-while-running", "the destructor of thread object %ld returned before its task ended", o);
                break;
            }
        }
    }
    for (auto &e : H) {
        if (e.op == TSLEEP && e.done && e.b > 0 && e.ret_t - e.inv_t < (uint64_t)e.b * 1000000) fail("short-sleep", "sleep(%ld) returned after %.3f ms", e.b, (e.ret_t - e.inv_t) / 1e6);
        if (e.op == TSLEEP && e.done && strict && e.ret_t - e.inv_t > (uint64_t)std::max(e.b, 0l) * 1000000 + slack) fail("long-sleep", "sleep(%ld) returned after %.3f ms", e.b, (e.ret_t - e.inv_t) / 1e6);
        if (e.op == CURRENT && e.a == 0 && e.r) fail("wrong-current-thread", "currentThread in another thread was one of the thread objects");
        if (e.op == TASK) for (auto &x : H) if (&x != &e && x.op == TASK && x.inv < e.ret && e.inv < x.ret && x.b == e.b) fail("same-id", "two running threads have the same id");
    }
}
