// uses: chk_map chk_queue
// C18: callbacks, element copies that throw, and allocations that fail, inside the concurrent structures.
#include "simrt.h"
#include <new>
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
#include "library/Java/Util/Concurrent/LinkedBlockingQueue/blockingconcurrentqueue.hpp"
using namespace sim;
using Java::Util::Concurrent::ConcurrentHashMap; using Java::Util::Concurrent::ConcurrentLinkedQueue;
void chk_map_throwing(const Program &p); void chk_queue_throwing(const Program &p);
struct Oops { };
static thread_local int armed, thrown;
static void trip() { if (armed && fault_here(F_THROW)) { thrown++; throw Oops(); } }
// MV: the element can be moved without throwing
template <bool MV> struct Val { long *p;
    Val() : p(new long(0)) {} explicit Val(long v) : p(new long(v)) {} ~Val() { delete p; }
    Val(const Val &o) : p(nullptr) { trip(); p = new long(o.get()); }
    Val &operator=(const Val &o) { trip(); long *q = new long(o.get()); delete p; p = q; return *this; }
    bool operator==(const Val &o) const { return get() == o.get(); } bool operator!=(const Val &o) const { return !(*this == o); }
    long get() const { return p ? *p : 0; } };
template <> struct Val<true> { long *p;
    Val() : p(new long(0)) {} explicit Val(long v) : p(new long(v)) {} ~Val() { delete p; }
    Val(const Val &o) : p(nullptr) { trip(); p = new long(o.get()); } Val(Val &&o) noexcept : p(o.p) { o.p = nullptr; }
    Val &operator=(const Val &o) { trip(); long *q = new long(o.get()); delete p; p = q; return *this; } Val &operator=(Val &&o) noexcept { long *q = p; p = o.p; o.p = q; return *this; }
    bool operator==(const Val &o) const { return get() == o.get(); } bool operator!=(const Val &o) const { return !(*this == o); }
    long get() const { return p ? *p : 0; } };
static long hash_mode;
namespace std { template <bool MV> struct hash<Val<MV>> { size_t operator()(const Val<MV> &k) const { size_t x = (size_t)k.get(); switch (hash_mode) { case 0: x = (x + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); case 1: return x; case 2: return x << 8; case 3: return (x / 3) * 0x10001; default: return (size_t)7; } } }; }
// runs f with everything armed; true: it threw
template <class F> static bool risky(bool quiet, const char *what, F f) {
    bool threw = false; int before = thrown; if (!quiet) { armed = 1; alloc_faults(true); }
    try { f(); } catch (Oops &) { threw = true; } catch (std::bad_alloc &) { threw = true; } catch (std::exception &x) { armed = 0; alloc_faults(false); threw = true; note("%s: %s", what, x.what()); }
    armed = 0; alloc_faults(false);
    if (!threw && thrown != before) fail("exception-swallowed", "%s returned normally although user code had thrown an exception in it", what);
    if (threw) probe(thrown != before ? "user code threw" : "an operation reported failure");
    return threw;
}
enum { PUT, GET, GETDEF, CONTAINS, FIND, PIA, REPL, REPL3, REM, REM2, EACH, EACHSTOP, CLEAR, SIZE, EMPTY, HASVAL, PAUSE };
static const char *mname[] = {"put", "get", "getOrDefault", "containsKey", "find", "putIfAbsent", "replace", "replace(old,new)", "remove", "remove(key,value)", "forEach", "forEach until", "clear", "size", "isEmpty", "containsValue"};
template <bool KM, bool VM> struct MapRun {
    typedef Val<KM> K; typedef Val<VM> V; typedef ConcurrentHashMap<K, V> Map;
    static void step(Map *m, const Op &o, bool quiet) {
        if (o.op == PAUSE) { sleep_ns(o.a * 1000); return; }
        if (o.op == EACH || o.op == EACHSTOP) {
            long limit = o.op == EACH ? -1 : o.a; std::vector<std::pair<long, long>> got; got.reserve(256); std::pair<long, long> *g = got.data(); long n = 0; int e = invoke(o.op, o.a, o.b);
            bool threw = risky(quiet, mname[o.op], [&] { m->forEach([&g, &n, limit](K k, V v) { trip(); g[n].first = k.get() - 1; g[n].second = v.get(); n++; return limit < 0 || n < limit; }); });
            if (threw) ret_throw(e); else ret_s(e, (const char *)g, n * 16, n);
            return;
        }
        K k(o.op < EACH ? o.a + 1 : 1); V v(o.b), old(o.c); int e = invoke(o.op, o.a, o.op == SIZE || o.op == EMPTY ? quiet : o.b, o.c); long r = 0;
        bool threw = risky(quiet, mname[o.op], [&] { switch (o.op) {
            case PUT: m->put(k, v); break;
            case GET: r = m->get(k).get(); break;
            case GETDEF: r = m->getOrDefault(k, v).get(); break;
            case CONTAINS: r = m->containsKey(k); break;
            case FIND: r = m->find(k); break;
            case PIA: r = m->putIfAbsent(k, v).get(); break;
            case REPL: r = m->replace(k, v).get(); break;
            case REPL3: r = m->replace(k, old, v); break;
            case REM: r = m->remove(k).get(); break;
            case REM2: r = m->remove(k, v); break;
            case CLEAR: m->clear(); break;
            case SIZE: r = m->size(); break;
            case EMPTY: r = m->isEmpty(); break;
            case HASVAL: r = m->containsValue(v); break; } });
        if (threw) ret_throw(e); else ret(e, r);
    }
    static void run(const Program &p) {
        HeapMark hm = heap_mark();
        {
            Map *m = new Map(); std::vector<int> ids; long top = 0; faults_on(true);
            for (const Op &o : p.ops) { if (o.t == 0) step(m, o, true); if (o.op < EACH && o.a > top) top = o.a; }
            for (int t = 1; t <= p.get("threads"); t++) ids.push_back(spawn([m, &p, t] { for (const Op &o : p.ops) if (o.t == t) step(m, o, false); }));
            for (int i : ids) join(i);
            step(m, Op{0, SIZE, 0, 0, 0}, true); step(m, Op{0, EACH, 0, 0, 0}, true); step(m, Op{0, EMPTY, 0, 0, 0}, true);
            for (long k = 0; k <= top; k++) step(m, Op{0, k & 1 ? GET : CONTAINS, k, 0, 0}, true);
            for (long k = 0; k <= top; k += 2) step(m, Op{0, REM, k, 0, 0}, true);
            for (long k = 0; k <= top && k < 6; k++) step(m, Op{0, PUT, k, 100000 + k, 0}, true);
            step(m, Op{0, SIZE, 0, 0, 0}, true); step(m, Op{0, EACH, 0, 0, 0}, true);
            delete m;
        }
        std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str());
        chk_map_throwing(p);
    }
};
static void run_map(const Program &p) { hash_mode = p.get("hash"); switch (p.get("kind")) { case 0: MapRun<false, false>::run(p); break; case 1: MapRun<true, false>::run(p); break; case 2: MapRun<false, true>::run(p); break; default: MapRun<true, true>::run(p); } }
static void rates(Rng &r, Config &c) {
    c.leaks = true; c.liveness = true; c.p_adv = 0; c.rate[F_CASWEAK] = 0.1; c.heap_reuse = r.chance(0.4); c.malloc_fill = (int)r.range(0, 255);
    static const double t[] = {0.01, 0.03, 0.1, 0.25}; int w = (int)r.below(4); if (w) c.rate[F_THROW] = t[r.below(4)]; if (w < 2) c.rate[F_MALLOC] = t[r.below(4)];
}
static void gen_map(Rng &r, Program &p, Config &c) {
    rates(r, c); c.step_cap = 3000000; p.params["kind"] = r.below(4); p.params["hash"] = r.below(5); int n = (int)r.range(1, 3); p.params["threads"] = n; long val = 1; bool grow = r.chance(0.5); int nk = grow ? 40 : (int)r.range(1, 12);
    std::vector<std::pair<long, long>> have; int pre = grow ? (int)r.range(0, 16) : (int)r.range(0, nk < 5 ? nk : 5); for (int k = 0; k < pre; k++) { have.push_back({k, val}); p.ops.push_back(Op{0, PUT, k, val++, 0}); }
    for (int t = 1; t <= n; t++) { int m = (int)r.range(1, grow ? 14 : 8); for (int j = 0; j < m; j++) {
        std::pair<long, long> h = have.empty() ? std::make_pair(0l, 9l) : have[r.below(have.size())]; long k = r.chance(0.6) ? h.first : (long)r.below(nk), x = r.below(100);
        if (x < (grow ? 50 : 25)) { if (grow) k = (long)r.below(nk); have.push_back({k, val}); p.ops.push_back(Op{t, r.chance(0.25) ? PIA : PUT, k, val++, 0}); }
        else if (x < 60) p.ops.push_back(Op{t, (int)r.range(GET, FIND), k, 77777, 0});
        else if (x < 72) p.ops.push_back(Op{t, r.chance(0.5) ? REM : REM2, k, h.second, 0});
        else if (x < 84) { p.ops.push_back(Op{t, r.chance(0.5) ? REPL : REPL3, k, val, h.second}); have.push_back({k, val++}); }
        else if (x < 90) p.ops.push_back(Op{t, EACH, 0, 0, 0});
        else if (x < 94) p.ops.push_back(Op{t, EACHSTOP, r.range(1, 4), 0, 0});
        else if (x < 96) p.ops.push_back(Op{t, HASVAL, 0, h.second, 0});
        else if (x < 98) p.ops.push_back(Op{t, r.chance(0.5) ? SIZE : EMPTY, 0, 0, 0});
        else p.ops.push_back(Op{t, CLEAR, 0, 0, 0});
    } }
}
SCENARIO("C18", throwing_map, gen_map, run_map);
// ---------------------------------------------------------------- queues
enum { ADD, TRYADD, POLL, QSIZE, QEMPTY, QCLEAR, QPAUSE, BULK, TRYBULK, TAKE };
template <int B> struct Tr : moodycamel::ConcurrentQueueDefaultTraits {
    static const size_t BLOCK_SIZE = B, EXPLICIT_BLOCK_EMPTY_COUNTER_THRESHOLD = 2, EXPLICIT_INITIAL_INDEX_SIZE = 2, IMPLICIT_INITIAL_INDEX_SIZE = 2, INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 2;
    static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 3;
};
template <class E> struct Linked {                                              // the library's queue: one element at a time, no tokens
    typedef E Elem; ConcurrentLinkedQueue<E> q; struct Tok {};
    bool add(const Op &o, Tok &, std::vector<E> &v) { return o.c & 1 ? q.offer(v[0]) : q.add(v[0]); }
    size_t take(const Op &, Tok &, std::vector<E> &v) { v[0] = q.poll(); return v[0].get() != 0; }
    long size() { return q.size(); }
};
template <class Q, class E, bool BLOCKS> struct Bundled {                       // the queues it is built on: producers with and without tokens, bulk operations
    typedef E Elem; Q q; struct Tok { moodycamel::ProducerToken *p = nullptr; moodycamel::ConsumerToken *c = nullptr; ~Tok() { delete p; delete c; } };
    void token(const Op &o, Tok &t) { if (!(o.c & 1)) return; if (o.op == TAKE) { if (!t.c) t.c = new moodycamel::ConsumerToken(q); } else if (!t.p) t.p = new moodycamel::ProducerToken(q); }
    bool add(const Op &o, Tok &t, std::vector<E> &v) {
        bool k = o.c & 1;
        switch (o.op) {
        case ADD: return k ? q.enqueue(*t.p, v[0]) : q.enqueue(v[0]);
        case TRYADD: return k ? q.try_enqueue(*t.p, v[0]) : q.try_enqueue(v[0]);
        case BULK: return k ? q.enqueue_bulk(*t.p, v.begin(), v.size()) : q.enqueue_bulk(v.begin(), v.size());
        default: return k ? q.try_enqueue_bulk(*t.p, v.begin(), v.size()) : q.try_enqueue_bulk(v.begin(), v.size()); }
    }
    size_t take(const Op &o, Tok &t, std::vector<E> &v) {
        bool k = o.c & 1; auto it = v.begin();
        if (v.size() > 1) return k ? q.try_dequeue_bulk(*t.c, it, v.size()) : q.try_dequeue_bulk(it, v.size());
        return k ? q.try_dequeue(*t.c, v[0]) : q.try_dequeue(v[0]);
    }
    long size() { return (long)q.size_approx(); }
};
template <class W> static void token(W *w, const Op &o, typename W::Tok &t) { w->token(o, t); }
template <class E> static void token(Linked<E> *, const Op &, typename Linked<E>::Tok &) {}
template <class W> struct QueueRun {
    typedef typename W::Elem E;
    static void step(W *w, const Op &o, typename W::Tok &t, bool quiet) {
        if (o.op == QPAUSE) { sleep_ns(o.a * 1000); return; }
        if (o.op == QSIZE) { int e = invoke(QSIZE, 0, quiet); ret(e, w->size()); return; }
        token(w, o, t);
        if (o.op != TAKE) {
            std::vector<E> v; v.reserve(o.b); for (long i = 0; i < o.b; i++) v.emplace_back(o.a + i);
            int e = invoke(o.op, o.a, o.b, o.t * 2 + (o.c & 1)); bool r = false;
            if (risky(quiet, "adding to a queue", [&] { r = w->add(o, t, v); })) ret_throw(e); else ret(e, r);
            return;
        }
        std::vector<E> v(o.a); size_t n = 0; int e = invoke(TAKE, o.a, -2, o.c);
        bool threw = risky(quiet, "taking from a queue", [&] { n = w->take(o, t, v); });
        std::vector<long> l; for (size_t i = 0; i < n; i++) l.push_back(v[i].get());
        if (threw) ret_throw(e); else ret_s(e, (const char *)l.data(), l.size() * 8, (long)n);
    }
    static void run(const Program &p) {
        HeapMark hm = heap_mark();
        { W *w = new W(); faults_on(true); std::vector<int> ids;
          { typename W::Tok t; for (const Op &o : p.ops) if (o.t == 0) step(w, o, t, true); }
          for (int i = 1; i <= p.get("threads"); i++) ids.push_back(spawn([w, &p, i] { typename W::Tok t; for (const Op &o : p.ops) if (o.t == i) step(w, o, t, false); }));
          for (int i : ids) join(i);
          { typename W::Tok t; long left = p.get("drain") ? 1 << 20 : (long)p.get("few");
            step(w, Op{0, QSIZE, 0, 0, 0}, t, true);
            while (left-- > 0) { step(w, Op{0, TAKE, 1, 0, 0}, t, true); if (history().back().r == 0) break; }
            step(w, Op{0, ADD, 900001, 1, 0}, t, true); step(w, Op{0, ADD, 900002, 1, 0}, t, true); step(w, Op{0, QSIZE, 0, 0, 0}, t, true);
            if (p.get("drain")) { for (int i = 0; i < 3; i++) step(w, Op{0, TAKE, 1, 0, 0}, t, true); step(w, Op{0, QSIZE, 0, 0, 0}, t, true); } }
          delete w; }
        std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str());
        chk_queue_throwing(p);
    }
};
template <class E> static void run_q(const Program &p) {
    typedef moodycamel::ConcurrentQueue<E, Tr<2>> Q2; typedef moodycamel::ConcurrentQueue<E, Tr<4>> Q4; typedef moodycamel::BlockingConcurrentQueue<E, Tr<2>> B2;
    switch (p.get("queue")) { case 0: QueueRun<Linked<E>>::run(p); break; case 1: QueueRun<Bundled<Q2, E, false>>::run(p); break; case 2: QueueRun<Bundled<Q4, E, false>>::run(p); break; default: QueueRun<Bundled<B2, E, true>>::run(p); }
}
static void run_queue(const Program &p) { if (p.get("kind")) run_q<Val<true>>(p); else run_q<Val<false>>(p); }
static void gen_queue(Rng &r, Program &p, Config &c) {
    rates(r, c); c.step_cap = 2000000; c.slot_reuse = r.chance(0.6); p.params["kind"] = r.below(2); long q = r.below(5); if (q > 3) q = 0; p.params["queue"] = q; int n = (int)r.range(1, 4); p.params["threads"] = n; p.params["drain"] = r.chance(0.85); p.params["few"] = r.below(5);
    long val = 1; int pre = r.chance(0.5) ? (int)r.range(1, 10) : 0; for (int i = 0; i < pre; i++) p.ops.push_back(Op{0, ADD, val++, 1, 0});
    for (int t = 1; t <= n; t++) { int role = (int)r.below(3), m = (int)r.range(1, 10), tok = q ? (int)r.below(3) : 0; for (int j = 0; j < m; j++) {
        double x = r.below(100) / 100.0, pa = role == 0 ? 0.85 : role == 1 ? 0.1 : 0.5; long k = tok == 2 ? (long)r.below(2) : tok;
        if (x >= pa) p.ops.push_back(Op{t, TAKE, q && r.chance(0.4) ? r.range(2, 6) : 1, 0, k});
        else if (q && r.chance(0.4)) { long b = r.range(2, 9); p.ops.push_back(Op{t, r.chance(0.7) ? BULK : TRYBULK, val, b, k}); val += b; }
        else p.ops.push_back(Op{t, q && r.chance(0.2) ? TRYADD : ADD, val++, 1, k | (q ? 0 : (long)r.below(2))});
    } }
}
SCENARIO("C18", throwing_queue, gen_queue, run_queue);
