// Oracle for the queues: exactly-once delivery, per-producer order, exact quiescent sizes, timed waits.
#include "rt_internal.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
using namespace sim;
enum { ADD, OFFER, POLL, SIZE, EMPTY, CLEAR, PAUSE, BULK, TRY, TAKE };
struct El { long v; int stream; int seq; uint64_t ainv, aret, tinv, tret; bool accepted, taken; };
static std::string dump(const std::vector<Event> &H) {
    static const char *nm[] = {"add", "offer", "poll", "size", "isEmpty", "clear", "pause", "enqueue_bulk", "try_enqueue", "dequeue"};
    std::string s; for (auto &e : H) { char b[200]; snprintf(b, sizeof b, "\n  [%lu..%ld] thread %d %s(%ld,%ld,%ld) = %ld", e.inv, e.done ? (long)e.ret : -1L, e.thread, nm[e.op], e.a, e.b, e.c, e.done ? e.r : -99); s += b; if (e.op == TAKE) { s += " {"; for (size_t i = 0; i + 8 <= e.s.size(); i += 8) { long v; memcpy(&v, e.s.data() + i, 8); s += std::to_string(v) + " "; } s += "}"; } }
    return s;
}
// Elements of calls that threw: a failed put may have put in all of its elements or none, a failed take may have lost what it was taking.
void chk_queue_throwing(const Program &p) {
    Guard g; auto &H = history(); uint64_t cov = 1469598103934665603ull; std::string all;
    { static const char *nm[] = {"enqueue", "try_enqueue", "poll", "size", "isEmpty", "clear", "pause", "enqueue_bulk", "try_enqueue_bulk", "dequeue"};
      for (auto &e : H) { char b[200]; snprintf(b, sizeof b, "\n  [%lu..%ld] thread %d %s(%ld,%ld,%ld) = %ld%s", e.inv, e.done ? (long)e.ret : -1L, e.thread, nm[e.op], e.a, e.b, e.c, e.done ? e.r : -99, e.threw ? " (threw)" : ""); all += b; if (e.op == TAKE) { all += " {"; for (size_t i = 0; i + 8 <= e.s.size(); i += 8) { long v; memcpy(&v, e.s.data() + i, 8); all += std::to_string(v) + " "; } all += "}"; } } }
#define BADT(cls, ...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); fail(cls, "%s%s", b_, all.c_str()); } while (0)
    struct T { const Event *in, *out; int stream, seq; bool sure; }; std::map<long, T> els; std::map<int, int> seqs; long lossy = 0;
    for (auto &e : H) {
        cov = (cov ^ (e.op * 1000003 + e.a * 101 + e.r * 7 + e.thread + e.threw * 31)) * 1099511628211ull;
        if (e.op == TAKE) { if (e.threw) lossy += e.a; continue; }
        if (e.op == SIZE) { if (e.r < 0 || e.r > 100000) BADT("impossible-size", "size reported as %ld", e.r); continue; }
        if (!e.done) continue;
        int stream = (int)e.c + e.thread * 1000; for (long i = 0; i < e.b; i++) if (e.r || e.threw) els[e.a + i] = T{&e, nullptr, stream, seqs[stream]++, !e.threw};
    }
    cover(cov); long taken = 0, quiet_size = -1, drained = 0;
    for (auto &e : H) {
        if (e.op == TAKE && !e.threw) for (size_t k = 0; k + 8 <= e.s.size(); k += 8) { long v; memcpy(&v, e.s.data() + k, 8); auto i = els.find(v);
            if (i == els.end()) BADT("delivered-foreign-value", "a value that was never put in was delivered: %ld", v);
            if (i->second.out) BADT("delivered-twice", "element %ld was delivered twice", v);
            if (i->second.in->inv > e.ret) BADT("delivered-early", "element %ld was delivered before it was put in", v);
            i->second.out = &e; taken++; if (quiet_size >= 0) drained++; }
        if (e.op == TAKE && quiet_size >= 0 && e.r == 0 && drained < quiet_size) BADT("lost", "%ld elements were left according to size(), but only %ld came out", quiet_size, drained);
        if (e.op == SIZE && e.b) { if (quiet_size >= 0 && e.r > 2 + quiet_size - drained + (drained > quiet_size ? drained - quiet_size : 0) && drained >= quiet_size) BADT("wrong-size", "size() gives %ld", e.r); if (quiet_size < 0) quiet_size = e.r; }
    }
    std::map<int, std::vector<T *>> by; long missing = 0; std::map<const Event *, std::pair<int, int>> part;
    for (auto &x : els) { T &t = x.second; by[t.stream].push_back(&t); if (t.sure && !t.out) missing++; }
    if (p.get("drain") && missing > lossy) BADT("lost", "%ld elements never came out, and only %ld can have been lost by calls that threw", missing, lossy);
    // all or nothing: of a failed bulk put, elements may be missing only as far as failed takes can explain it
    if (p.get("drain") && lossy == 0) { for (auto &x : els) if (!x.second.sure) { auto &q = part[x.second.in]; q.first++; if (x.second.out) q.second++; } for (auto &q : part) if (q.second.second && q.second.second != q.second.first) BADT("half-done", "a call that threw put in %d of its %d elements", q.second.second, q.second.first); }
    for (auto &s : by) { std::sort(s.second.begin(), s.second.end(), [](T *a, T *b) { return a->seq < b->seq; });
        for (size_t j = 1; j < s.second.size(); j++) for (size_t i = 0; i < j; i++) { T *a = s.second[i], *b = s.second[j]; if (!b->out || !a->out) continue; if (a->out->inv > b->out->ret) BADT("out-of-order", "element %d of a producer was taken out before element %d", b->seq, a->seq); } }
}
void chk_queue(const Program &p) {
    Guard g; auto &H = history(); std::map<long, El> els; std::map<int, int> seqs; uint64_t cov = 1469598103934665603ull; std::string all = dump(H);
#define BAD(cls, ...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); fail(cls, "%s%s", b_, all.c_str()); } while (0)
    auto add = [&](long v, int stream, const Event &e, bool ok) { els[v] = El{v, stream, seqs[stream]++, e.inv, e.done ? e.ret : ~0ull, ~0ull, ~0ull, ok, false}; };
    for (auto &e : H) {
        cov = (cov ^ (e.op * 1000003 + e.a * 101 + e.r * 7 + e.thread)) * 1099511628211ull;
        if (e.op == ADD && p.get("capacity", -1) < 0) add(e.a, e.thread * 2, e, e.r); else if (e.op == OFFER) add(e.a, e.thread * 2, e, e.r);
        else if (e.op == ADD || e.op == BULK || e.op == TRY) for (long i = 0; i < e.b; i++) add(e.a + i, (int)e.c + e.thread * 1000, e, e.r);
        if ((e.op == ADD || e.op == OFFER || e.op == BULK) && e.done && !e.r) BAD("refused", "an element was refused although memory was available");
    }
    cover(cov);
    struct Clr { const Event *e; bool alone; }; std::vector<Clr> clears;
    for (auto &e : H) if (e.op == CLEAR) { bool alone = true; for (auto &o : H) if (&o != &e && (o.op == POLL || o.op == CLEAR) && o.inv < e.ret && o.ret > e.inv) alone = false; clears.push_back(Clr{&e, alone}); if (!alone) probe("clear met other consumers"); else probe("clear"); }
    auto maybe_cleared = [&](const El &x, uint64_t before) { for (auto &c : clears) if (c.e->ret > x.ainv && c.e->inv < before) return true; return false; };   // some clear can have removed it before that point
    auto surely_cleared = [&](const El &x, uint64_t from) { for (auto &c : clears) if (c.alone && x.aret < c.e->inv && c.e->ret < from) return true; return false; };
    auto taken = [&](long v, const Event &e) {
        auto i = els.find(v); if (i == els.end()) BAD("delivered-foreign-value", "a value that was never put in was delivered: %ld", v);
        El &x = i->second; if (x.taken) BAD("delivered-twice", "element %ld was delivered twice", v);
        if (!x.accepted) BAD("delivered-refused", "element %ld was delivered although it had been refused", v);
        if (x.ainv > e.ret) BAD("delivered-early", "element %ld was delivered before it was put in", v);
        if (surely_cleared(x, e.inv)) BAD("delivered-after-clear", "element %ld was delivered although the queue was cleared in between", v);
        x.taken = true; x.tinv = e.inv; x.tret = e.ret;
    };
    for (auto &e : H) {
        if (e.op == POLL && e.r) taken(e.r, e);
        if (e.op == TAKE) { for (size_t k = 0; k + 8 <= e.s.size(); k += 8) { long v; memcpy(&v, e.s.data() + k, 8); taken(v, e); } 
            if (e.b >= 0 && e.done && e.r == 0) { probe("timed wait gave up"); if (e.ret_t - e.inv_t < (uint64_t)e.b * 1000) BAD("gave-up-early", "a wait of %ld us gave up after %lu ns", e.b, e.ret_t - e.inv_t); }
            if (e.b == -1 && e.done && e.r == 0) BAD("empty-handed", "a wait without limit returned nothing"); }
    }
    // order within one producer
    std::map<int, std::vector<El *>> by; for (auto &x : els) if (x.second.accepted) by[x.second.stream].push_back(&x.second);
    for (auto &s : by) { std::sort(s.second.begin(), s.second.end(), [](El *a, El *b) { return a->seq < b->seq; });
        for (size_t j = 1; j < s.second.size(); j++) for (size_t i = 0; i < j; i++) { El *a = s.second[i], *b = s.second[j]; if (!b->taken) continue;
            if (!a->taken ? !maybe_cleared(*a, b->tret) : a->tinv > b->tret) BAD("out-of-order", "element %ld was taken out before element %ld, which the same producer had put in earlier", b->v, a->v); } }
    // within one bulk take the elements of a producer come in order
    for (auto &e : H) if (e.op == TAKE) { std::map<int, int> last; for (size_t k = 0; k + 8 <= e.s.size(); k += 8) { long v; memcpy(&v, e.s.data() + k, 8); El &x = els[v]; auto l = last.find(x.stream); if (l != last.end() && l->second > x.seq) BAD("out-of-order", "one take returned the elements of a producer out of order (%ld)", v); last[x.stream] = x.seq; } }
    // one consumer sees each producer's elements in order
    std::map<std::pair<int, int>, int> seen; for (auto &e : H) { std::vector<long> vs; if (e.op == POLL && e.r) vs.push_back(e.r); if (e.op == TAKE) for (size_t k = 0; k + 8 <= e.s.size(); k += 8) { long v; memcpy(&v, e.s.data() + k, 8); vs.push_back(v); }
        for (long v : vs) { El &x = els[v]; auto key = std::make_pair(e.thread, x.stream); auto i = seen.find(key); if (i != seen.end() && i->second > x.seq) BAD("out-of-order", "consumer %d received element %ld after a later element of the same producer", e.thread, v); seen[key] = x.seq; } }
    // takes that found nothing, sizes
    for (auto &e : H) {
        if (!e.done) continue;
        if ((e.op == POLL && e.r == 0) || (e.op == TAKE && e.r == 0 && e.b == -2)) {
            bool other = false; for (auto &o : H) if (&o != &e && (p.get("capacity", -1) >= 0 || o.op == POLL || o.op == TAKE || o.op == CLEAR) && o.inv < e.ret && (!o.done || o.ret > e.inv)) other = true;
            if (other) continue;
            for (auto &x : els) { El &l = x.second; if (l.accepted && l.aret < e.inv && (!l.taken || l.tinv > e.ret) && (l.taken || !maybe_cleared(l, e.ret))) BAD("missed", "a take found nothing although element %ld was in the queue", l.v); }
            probe("found the queue empty");
        }
        if (e.op == SIZE || e.op == EMPTY) {
            long lo = 0, hi = 0, most = 0; for (auto &x : els) { El &l = x.second; if (l.accepted && l.ainv < e.ret) hi++; if (l.accepted && l.aret < e.inv && (!l.taken || l.tinv > e.ret)) { if (l.taken || !maybe_cleared(l, e.ret)) lo++; if (l.taken || !surely_cleared(l, e.inv)) most++; } }
            bool later = false; for (auto &c : clears) if (c.e->ret > e.inv) later = true; if (!later && p.get("drain")) most = lo;             // what was still there was taken out later
            if (e.op == SIZE) { if (e.r < 0 || e.r > hi) BAD("impossible-size", "size %ld, although only %ld elements had been put in", e.r, hi); if (e.b && (e.r < lo || e.r > most)) BAD("wrong-size", "size %ld, but the queue held %ld elements", e.r, lo); }
            else if (e.b && (e.r ? lo > 0 : most == 0)) BAD("wrong-size", "isEmpty reported %ld, but the queue held %ld elements", e.r, lo);
        }
    }
    // nothing lost: after the last take that found nothing (no other call active) the queue is empty, so every accepted element was taken
    if (p.get("drain")) for (auto &x : els) if (x.second.accepted && !x.second.taken && !maybe_cleared(x.second, ~0ull)) BAD("lost", "element %ld was put in but never came out", x.second.v);
}
void chk_lws(const Program &p) {
    Guard g; auto &H = history(); uint64_t cov = 1469598103934665603ull; long init = p.get("initial"), sig = init, got = 0;
    static const char *nm[] = {"signal", "offer", "poll", "available", "isEmpty", "clear", "pause", "", "", "wait"};
    std::string all; for (auto &e : H) { char b[160]; snprintf(b, sizeof b, "\n  [%lu..%ld] thread %d %s(%ld,%ld,%ld) = %ld", e.inv, e.done ? (long)e.ret : -1L, e.thread, nm[e.op], e.a, e.b, e.c, e.done ? e.r : -99); all += b; }
    for (auto &e : H) {
        cov = (cov ^ (e.op * 1000003 + e.a * 101 + e.r * 7 + e.thread)) * 1099511628211ull;
        if (e.op == ADD) sig += e.a;
        if (e.op == TAKE) { got += e.r; if (e.r < 0 || e.r > e.a) BAD("too-many-taken", "a wait for at most %ld reported %ld", e.a, e.r); if (e.b == -1 && e.r == 0) BAD("empty-handed", "a wait without limit returned nothing");
            if (e.b >= 0 && e.r == 0) { probe("timed wait gave up"); if (e.ret_t - e.inv_t < (uint64_t)e.b * 1000) BAD("gave-up-early", "a wait of %ld us gave up after %lu ns", e.b, e.ret_t - e.inv_t); }
            long s = init, t = 0; for (auto &o : H) { if (o.op == ADD && o.inv < e.ret) s += o.a; if (o.op == TAKE && o.ret <= e.ret) t += o.r; } if (t > s) BAD("over-granted", "%ld were granted when only %ld had been signalled", t, s); 
            if (e.b == -2 && e.r == 0) { long av = init; bool other = false; for (auto &o : H) { if (o.op == ADD && o.ret < e.inv) av += o.a; if (o.op == TAKE && &o != &e) { if (o.inv < e.inv && o.ret > e.inv) other = true; else if (o.inv < e.ret && o.ret > e.inv) other = true; else if (o.inv < e.ret) av -= o.r; } } if (!other && av > 0) BAD("missed", "an attempt failed although %ld were available", av); } }
        if (e.op == SIZE && e.r < 0) BAD("impossible-size", "negative count");
    }
    cover(cov);
    const Event &last = H.back(); if (last.r != sig - got) BAD("wrong-count", "%ld are available at the end, but %ld were signalled and %ld granted", last.r, sig, got);
}
