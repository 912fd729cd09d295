// uses: chk_queue
// C07: ConcurrentLinkedQueue. C08: the bundled blocking queue and its semaphore.
#include "simrt.h"
#include "library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp"
#include "library/Java/Util/Concurrent/LinkedBlockingQueue/blockingconcurrentqueue.hpp"
#include "library/Java/Lang/String/String.hpp"
using namespace sim;
using Java::Util::Concurrent::ConcurrentLinkedQueue;
void chk_queue(const Program &p); void chk_lws(const Program &p);
// ADD and OFFER: b = stream. TAKE: a = most it may take, b = timeout in us (-1 none, -2 does not wait); results: the values
enum { ADD, OFFER, POLL, SIZE, EMPTY, CLEAR, PAUSE, BULK, TRY, TAKE };
struct Box { long *p; Box() : p(new long(0)) {} explicit Box(long v) : p(new long(v)) {} Box(const Box &o) : p(new long(*o.p)) {} Box &operator=(const Box &o) { if (this != &o) { long *q = new long(*o.p); delete p; p = q; } return *this; } ~Box() { delete p; } };
struct Mv { long *p; Mv() : p(nullptr) {} explicit Mv(long v) : p(new long(v)) {} Mv(const Mv &o) : p(o.p ? new long(*o.p) : nullptr) {} Mv(Mv &&o) noexcept : p(o.p) { o.p = nullptr; } Mv &operator=(const Mv &o) { Mv t(o); long *q = p; p = t.p; t.p = q; return *this; } Mv &operator=(Mv &&o) noexcept { long *q = p; p = o.p; o.p = q; return *this; } ~Mv() { delete p; } };
template <class T> struct Conv;
template <> struct Conv<long> { static long to(long v) { return v; } static long from(long v) { return v; } };
template <> struct Conv<Box> { static Box to(long v) { return Box(v); } static long from(const Box &b) { return *b.p; } };
template <> struct Conv<Mv> { static Mv to(long v) { return Mv(v); } static long from(const Mv &b) { return b.p ? *b.p : 0; } };
template <> struct Conv<String> { static String to(long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); return String(b); } static long from(const String &s) { const char *c = s.toCharPointer(); return c && *c ? atol(c) : 0; } };
static void leaks(const HeapMark &hm) { std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str()); }
static void launch(const Program &p, std::function<void(int)> body) {          // thread t starts once thread after<t> has ended
    std::vector<int> ids(1); std::vector<bool> joined(1); int n = (int)p.get("threads"); char b[24];
    for (int t = 1; t <= n; t++) { snprintf(b, sizeof b, "after%d", t); int a = (int)p.get(b); if (a > 0 && a < t && !joined[a]) { join(ids[a]); joined[a] = true; } ids.push_back(spawn([&body, t] { body(t); })); joined.push_back(false); }
    for (int t = 1; t <= n; t++) if (!joined[t]) join(ids[t]);
}

// ---------------------------------------------------------------- C07
template <class E> struct Plain {
    typedef ConcurrentLinkedQueue<E> Q; typedef Conv<E> C;
    static void step(Q *q, const Op &o, bool quiet) {
        if (o.op == PAUSE) { sleep_ns(o.a * 1000); return; }
        if (o.op == ADD || o.op == OFFER) { E x = C::to(o.a); int e = invoke(o.op, o.a, o.t); bool r = o.op == ADD ? q->add(x) : q->offer(x); ret(e, r); return; }
        int e = invoke(o.op, 0, quiet); long r = 0;
        switch (o.op) { case POLL: { E x = q->poll(); r = C::from(x); break; } case SIZE: r = q->size(); break; case EMPTY: r = q->isEmpty(); break; case CLEAR: q->clear(); break; }
        ret(e, r);
    }
    static void run(const Program &p) {
        HeapMark hm = heap_mark();
        { Q *q = new Q();
          for (const Op &o : p.ops) if (o.t == 0) step(q, o, true);
          launch(p, [q, &p](int t) { for (const Op &o : p.ops) if (o.t == t) step(q, o, false); });
          step(q, Op{0, SIZE, 0, 0, 0}, true); step(q, Op{0, EMPTY, 0, 0, 0}, true);
          if (p.get("clear")) { step(q, Op{0, CLEAR, 0, 0, 0}, true); step(q, Op{0, SIZE, 0, 0, 0}, true); step(q, Op{0, ADD, 5555, 0, 0}, true); }
          long left = p.get("drain") ? 1 << 20 : 1; while (left-- > 0) { step(q, Op{0, POLL, 0, 0, 0}, true); if (history().back().r == 0) break; }
          step(q, Op{0, SIZE, 0, 0, 0}, true); step(q, Op{0, EMPTY, 0, 0, 0}, true);
          delete q; }
        leaks(hm); chk_queue(p);
    }
};
static void run_queue(const Program &p) { switch (p.get("kind")) { case 0: Plain<long>::run(p); break; case 1: Plain<Box>::run(p); break; default: Plain<String>::run(p); } }
static void afters(Rng &r, Program &p, int n) { for (int t = 2; t <= n; t++) if (r.chance(0.3)) p.params["after" + std::to_string(t)] = r.range(1, t - 1); }
static void common(Rng &r, Config &c) { c.leaks = true; c.liveness = true; c.step_cap = 2000000; c.p_adv = 0; c.rate[F_CASWEAK] = 0.1; c.slot_reuse = r.chance(0.6); c.heap_reuse = r.chance(0.4); }
static void gen_queue(Rng &r, Program &p, Config &c) {
    common(r, c); p.params["kind"] = r.chance(0.5) ? 0 : r.range(1, 2); int n = (int)r.range(2, 6); p.params["threads"] = n; afters(r, p, n); p.params["drain"] = r.chance(0.8); p.params["clear"] = r.chance(0.15);
    bool clears = r.chance(0.3); long val = 1; int pre = r.chance(0.5) ? (int)r.range(1, 14) : 0; for (int i = 0; i < pre; i++) p.ops.push_back(Op{0, ADD, val++, 0, 0});
    int preout = r.chance(0.3) ? (int)r.below(pre + 1) : 0; for (int i = 0; i < preout; i++) p.ops.push_back(Op{0, POLL, 0, 0, 0});
    for (int t = 1; t <= n; t++) { int role = (int)r.below(3), m = (int)r.range(1, role == 2 ? 8 : 12); for (int j = 0; j < m; j++) {
        double x = r.below(100) / 100.0, pa = role == 0 ? 0.9 : role == 1 ? 0.05 : 0.5;
        if (r.chance(0.05)) p.ops.push_back(Op{t, (int)r.range(SIZE, EMPTY), 0, 0, 0});
        else if (clears && r.chance(0.07)) p.ops.push_back(Op{t, CLEAR, 0, 0, 0});
        else if (x < pa) p.ops.push_back(Op{t, r.chance(0.5) ? ADD : OFFER, val++, 0, 0});
        else p.ops.push_back(Op{t, POLL, 0, 0, 0});
    } }
}
SCENARIO("C07", queue, gen_queue, run_queue);
// ---------------------------------------------------------------- C08
template <int B> struct Tr : moodycamel::ConcurrentQueueDefaultTraits {
    static const size_t BLOCK_SIZE = B, EXPLICIT_BLOCK_EMPTY_COUNTER_THRESHOLD = 2, EXPLICIT_INITIAL_INDEX_SIZE = 2, IMPLICIT_INITIAL_INDEX_SIZE = 2, INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 2;
    static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 3;
};
static std::atomic<long> credit;                                                // elements that will be there, minus those claimed by takes in progress
static bool waits;                                                              // somebody may wait without limit
static long credits(long d) { return credit.fetch_add(d, std::memory_order_relaxed) + d; }
// a thread may wait without limit only when no element can depend on its going on
static bool may_wait(const Program &p, int t, size_t i) { for (size_t j = i + 1; j < p.ops.size(); j++) if (p.ops[j].t == t && (p.ops[j].op == ADD || p.ops[j].op == BULK)) return false; char b[24]; for (int u = 2; u <= p.get("threads"); u++) { snprintf(b, sizeof b, "after%d", u); if (p.get(b) == t) return false; } return true; }
template <class E, int B> struct Blocking {
    typedef moodycamel::BlockingConcurrentQueue<E, Tr<B>> Q; typedef Conv<E> C;
    struct Tok { moodycamel::ProducerToken *p = nullptr; moodycamel::ConsumerToken *c = nullptr; long gen = 0; ~Tok() { delete p; delete c; } };
    static void took(int e, const std::vector<E> &v, size_t n) { std::vector<long> l; for (size_t i = 0; i < n; i++) l.push_back(C::from(v[i])); ret_s(e, (const char *)l.data(), l.size() * 8, (long)n); }
    // a: value (or first value); b: how many; c: 1 = with a token
    static void step(Q *q, const Op &o, Tok &k, bool quiet) {
        if (o.op == PAUSE) { sleep_ns(o.a * 1000); return; }
        if (o.op == SIZE) { int e = invoke(SIZE, 0, quiet); ret(e, (long)q->size_approx()); return; }
        if (o.op == ADD || o.op == TRY || o.op == BULK) {
            if (o.c && (!k.p || k.gen != o.c)) { delete k.p; k.p = nullptr; k.p = new moodycamel::ProducerToken(*q); k.gen = o.c; }
            std::vector<E> v; for (long i = 0; i < o.b; i++) v.push_back(C::to(o.a + i));
            int e = invoke(o.op, o.a, o.b, o.t * 100 + o.c); bool r, cp = o.a & 1;
            if (o.op == ADD) r = o.c ? (cp ? q->enqueue(*k.p, v[0]) : q->enqueue(*k.p, std::move(v[0]))) : cp ? q->enqueue(v[0]) : q->enqueue(std::move(v[0]));
            else if (o.op == TRY) r = o.b > 1 ? (o.c ? q->try_enqueue_bulk(*k.p, v.begin(), v.size()) : q->try_enqueue_bulk(v.begin(), v.size())) : (o.c ? (cp ? q->try_enqueue(*k.p, v[0]) : q->try_enqueue(*k.p, std::move(v[0]))) : cp ? q->try_enqueue(v[0]) : q->try_enqueue(std::move(v[0])));
            else r = o.c ? q->enqueue_bulk(*k.p, v.begin(), v.size()) : q->enqueue_bulk(v.begin(), v.size());
            ret(e, r); if (o.op == TRY && r) credits(o.b); return;
        }
        // TAKE: a = max, b = timeout, c = token | bulk << 1
        if (credits(-o.a) < 0 && waits) { credits(o.a); return; }
        if ((o.c & 1) && !k.c) k.c = new moodycamel::ConsumerToken(*q);
        std::vector<E> v(o.a); size_t n = 0; bool tok = o.c & 1; int e = invoke(TAKE, o.a, o.b, o.c);
        if (o.c & 2) {
            auto it = v.begin();
            if (o.b == -1) n = tok ? q->wait_dequeue_bulk(*k.c, it, o.a) : q->wait_dequeue_bulk(it, o.a);
            else if (o.b == -2) n = tok ? q->try_dequeue_bulk(*k.c, it, o.a) : q->try_dequeue_bulk(it, o.a);
            else n = tok ? q->wait_dequeue_bulk_timed(*k.c, it, o.a, o.b) : q->wait_dequeue_bulk_timed(it, o.a, o.b);
        } else {
            if (o.b == -1) { if (tok) q->wait_dequeue(*k.c, v[0]); else q->wait_dequeue(v[0]); n = 1; }
            else if (o.b == -2) n = tok ? q->try_dequeue(*k.c, v[0]) : q->try_dequeue(v[0]);
            else n = tok ? q->wait_dequeue_timed(*k.c, v[0], o.b) : q->wait_dequeue_timed(v[0], o.b);
        }
        if (n > (size_t)o.a) fail("too-many-taken", "a take of at most %ld reported %zu elements", o.a, n);
        took(e, v, n); credits(o.a - (long)n);
    }
    static void run(const Program &p) {
        HeapMark hm = heap_mark();
        { Q *q = new Q(p.get("capacity"));
          waits = false; for (const Op &o : p.ops) if (o.op == TAKE && o.b == -1) waits = true;
          credit = 0; for (const Op &o : p.ops) if (o.op == ADD || o.op == BULK) credits(o.b);
          { Tok k; for (const Op &o : p.ops) if (o.t == 0) step(q, o, k, true); }
          launch(p, [q, &p](int t) { Tok k; for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].t == t) { Op o = p.ops[i]; if (o.op == TAKE && o.b == -1 && !may_wait(p, t, i)) o.b = -2; step(q, o, k, false); } });
          Tok k; step(q, Op{0, SIZE, 0, 0, 0}, k, true);
          if (p.get("drain")) { for (int i = 0; i < 1000; i++) { step(q, Op{0, TAKE, 1, -2, i & 1}, k, true); if (history().back().r == 0) break; } step(q, Op{0, SIZE, 0, 0, 0}, k, true); }
          delete k.p; delete k.c; k.p = nullptr; k.c = nullptr;
          delete q; }
        leaks(hm); chk_queue(p);
    }
};
static void run_bq(const Program &p) { switch (p.get("kind")) { case 0: Blocking<long, 2>::run(p); break; case 1: Blocking<Mv, 2>::run(p); break; case 2: Blocking<long, 4>::run(p); break; default: Blocking<Box, 4>::run(p); } }
static void gen_bq(Rng &r, Program &p, Config &c) {
    common(r, c); c.rate[F_EINTR_SEM] = 0.1; c.p_adv = r.chance(0.5) ? 0.05 : 0; p.params["kind"] = r.below(4); int n = (int)r.range(2, 6); p.params["threads"] = n; afters(r, p, n); p.params["drain"] = r.chance(0.8); p.params["capacity"] = r.range(0, 12);
    int mode = (int)r.below(3); double ptok = r.chance(0.5) ? 0.5 : r.chance(0.5) ? 0 : 1, pbulk = r.chance(0.5) ? 0.3 : 0; long val = 1, gen = 1; bool fresh = r.chance(0.4);
    auto add = [&](int t) { if (fresh && r.chance(0.3)) gen++; bool bulk = r.chance(pbulk); long k = bulk ? r.range(1, 6) : 1; bool tok = r.chance(ptok); p.ops.push_back(Op{t, r.chance(0.2) ? TRY : bulk ? BULK : ADD, val, k, tok ? gen : 0}); val += k; };
    int pre = r.chance(0.4) ? (int)r.range(1, 8) : 0; for (int i = 0; i < pre; i++) add(0);
    for (int t = 1; t <= n; t++) { int role = (int)r.below(3), m = (int)r.range(1, 7); for (int j = 0; j < m; j++) {
        double pa = role == 0 ? 0.95 : role == 1 ? 0.05 : 0.5;
        if (r.chance(0.04)) p.ops.push_back(Op{t, SIZE, 0, 0, 0}); else if (r.chance(0.04)) p.ops.push_back(Op{t, PAUSE, r.range(1, 300), 0, 0});
        else if (r.chance(pa)) add(t);
        else { bool bulk = r.chance(pbulk); long to = mode == 0 ? -1 : mode == 1 ? (r.chance(0.5) ? -1 : r.range(0, 400)) : r.chance(0.4) ? -1 : r.chance(0.5) ? -2 : r.range(0, 300); p.ops.push_back(Op{t, TAKE, bulk ? r.range(1, 5) : 1, to, (long)r.chance(ptok) | (long)bulk << 1}); }
    } }
}
SCENARIO("C08", blocking_queue, gen_bq, run_bq);
// the semaphore on its own: a = most it may take, b = timeout; signal: ADD with a = count
static void align(const Program &p) { if (p.get("align")) set_real_ns(real_ns() / 1000000000 * 1000000000 + 500000000); }   // half a second later a second begins
static void run_lws(const Program &p) {
    align(p);
    HeapMark hm = heap_mark();
    { moodycamel::LightweightSemaphore *s = new moodycamel::LightweightSemaphore(p.get("initial"));
      waits = false; for (const Op &o : p.ops) if (o.op == TAKE && o.b == -1) waits = true;
      credit = p.get("initial"); for (const Op &o : p.ops) if (o.op == ADD) credits(o.a);
      auto body = [s, &p](int t) { for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].t == t) { Op o = p.ops[i]; if (o.op == TAKE && o.b == -1 && !may_wait(p, t, i)) o.b = -2;
          if (o.op == PAUSE) { sleep_ns(o.a * 1000); continue; }
          if (o.op == SIZE) { int e = invoke(SIZE, 0, 0); ret(e, s->availableApprox()); continue; }
          if (o.op == ADD) { int e = invoke(ADD, o.a); s->signal(o.a); ret(e); continue; }
          if (credits(-o.a) < 0 && waits) { credits(o.a); continue; }
          int e = invoke(TAKE, o.a, o.b, o.c); long n;
          if (o.c & 2) n = o.b == -1 ? s->waitMany(o.a) : o.b == -2 ? s->tryWaitMany(o.a) : s->waitMany(o.a, o.b);
          else n = o.b == -1 ? s->wait() : o.b == -2 ? s->tryWait() : s->wait(o.b);
          ret(e, n); credits(o.a - n);
      } };
      launch(p, body);
      int e = invoke(SIZE, 0, 1); ret(e, s->availableApprox()); delete s; }
    leaks(hm); chk_lws(p);
}
static void gen_lws(Rng &r, Program &p, Config &c) {
    common(r, c); c.rate[F_EINTR_SEM] = 0.1; c.p_adv = r.chance(0.7) ? 0.1 : 0; int n = (int)r.range(2, 5); p.params["threads"] = n; p.params["initial"] = r.chance(0.5) ? 0 : r.range(1, 4); bool al = r.chance(0.1); if (al) { p.params["align"] = 1; c.clock_tick_ns = 0; } double pt = r.chance(0.5) ? 0.4 : r.chance(0.5) ? 0.9 : 0, pm = r.chance(0.5) ? 0.4 : 0;
    for (int t = 1; t <= n; t++) { int m = (int)r.range(1, 7); double pa = r.chance(0.5) ? 0.8 : 0.2; for (int j = 0; j < m; j++) {
        if (r.chance(0.04)) p.ops.push_back(Op{t, SIZE, 0, 0, 0}); else if (r.chance(0.04)) p.ops.push_back(Op{t, PAUSE, r.range(1, 300), 0, 0});
        else if (r.chance(pa)) p.ops.push_back(Op{t, ADD, r.chance(0.6) ? 1 : r.range(0, 4), 0, 0});
        else { bool many = r.chance(pm); p.ops.push_back(Op{t, TAKE, many ? r.range(1, 4) : 1, r.chance(pt) ? (al && r.chance(0.5) ? 500000 * r.range(1, 3) : r.range(0, 200)) : r.chance(0.2) ? -2 : -1, (long)many << 1}); }
    } }
}
SCENARIO("C08", signal_count, gen_lws, run_lws);
