// uses: chk_map
// C05, C06: ConcurrentHashMap.
#include "simrt.h"
#include "library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp"
#include "library/Java/Lang/String/String.hpp"
using namespace sim;
using Java::Util::Concurrent::ConcurrentHashMap;
void chk_map(const Program &p, bool whole);
enum { PUT, GET, GETDEF, CONTAINS, FIND, PIA, REPL, REPL3, REM, REM2, EACH, EACHSTOP, CLEAR, SIZE, EMPTY, HASVAL, PAUSE };
static long hash_mode;
struct Key { int id; Key() : id(0) {} explicit Key(int i) : id(i) {} bool operator==(const Key &o) const { return id == o.id; } };
namespace std { template <> struct hash<Key> { size_t operator()(const Key &k) const {
    size_t x = (size_t)k.id;
    switch (hash_mode) { case 0: x = (x + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); case 1: return x; case 2: return x << 8; case 3: return (x / 3) * 0x10001; default: return (x % 5) << 40 | x; }
} }; }
struct Box { long *p; Box() : p(new long(0)) {} explicit Box(long v) : p(new long(v)) {} Box(const Box &o) : p(new long(*o.p)) {} Box &operator=(const Box &o) { if (this != &o) { long *q = new long(*o.p); delete p; p = q; } return *this; } ~Box() { delete p; } bool operator==(const Box &o) const { return *p == *o.p; } bool operator!=(const Box &o) const { return *p != *o.p; } };
template <class T> struct Conv;
template <> struct Conv<Key> { static Key to(long v) { return Key((int)v); } static long from(const Key &k) { return k.id; } };
template <> struct Conv<long> { static long to(long v) { return v; } static long from(long v) { return v; } };
template <> struct Conv<Box> { static Box to(long v) { return Box(v); } static long from(const Box &b) { return *b.p; } };
template <> struct Conv<String> { static String to(long v) { char b[24]; snprintf(b, sizeof b, "%ld", v); return v ? String(b) : String(); } static long from(const String &s) { const char *c = s.toCharPointer(); return c && *c ? atol(c) : 0; } };
template <> struct Conv<int> { static int to(long v) { return (int)v; } static long from(int v) { return v; } };
struct KeyS {};  // keys that are Strings
template <class K, class V> struct Run {
    typedef ConcurrentHashMap<K, V> Map; typedef Conv<V> C;
    static K key(long k) { return Conv<K>::to(k + 1); }
    static long unkey(const K &k) { return Conv<K>::from(k) - 1; }
    static void put(Map *m, long k, long v) { int e = invoke(PUT, k, v); try { m->put(key(k), C::to(v)); ret(e); } catch (std::exception &x) { ret_throw(e); } }
    static void step(Map *m, const Op &o, bool quiet) {
        if (o.op == PAUSE) { sleep_ns(o.a * 1000); return; }
        if (o.op == PUT) return put(m, o.a, o.b);
        if (o.op == EACH || o.op == EACHSTOP) {
            long limit = o.op == EACH ? -1 : o.a; std::vector<std::pair<long, long>> got; int e = invoke(o.op, o.a, o.b);
            m->forEach([&](K k, V v) { got.push_back(std::make_pair(unkey(k), C::from(v))); return limit < 0 || (long)got.size() < limit; });
            ret_s(e, (const char *)got.data(), got.size() * 16, (long)got.size()); return;
        }
        K k = key(o.op < EACH ? o.a : 0); V v = C::to(o.b), old = C::to(o.c); int e = invoke(o.op, o.a, o.op == SIZE || o.op == EMPTY ? quiet : o.b, o.c); long r = 0;
        switch (o.op) {
        case GET: r = C::from(m->get(k)); break;
        case GETDEF: r = C::from(m->getOrDefault(k, v)); break;
        case CONTAINS: r = m->containsKey(k); break;
        case FIND: r = m->find(k); break;
        case PIA: try { r = C::from(m->putIfAbsent(k, v)); } catch (std::exception &x) { ret_throw(e); return; } break;
        case REPL: r = C::from(m->replace(k, v)); break;
        case REPL3: r = m->replace(k, old, v); break;
        case REM: r = C::from(m->remove(k)); break;
        case REM2: r = m->remove(k, v); break;
        case CLEAR: m->clear(); break;
        case SIZE: r = m->size(); break;
        case EMPTY: r = m->isEmpty(); break;
        case HASVAL: r = m->containsValue(v); break;
        }
        ret(e, r);
    }
    static void run(const Program &p, bool whole) {
        Program q = p; q.params["preloaded"] = 0; q.params["tail"] = 0; HeapMark hm = heap_mark();
        {
            Map *m = new Map(); std::vector<int> ids; long top = 0;
            for (const Op &o : p.ops) { if (o.t == 0) step(m, o, true); if (o.op < EACH && o.a > top) top = o.a; }
            q.params["preloaded"] = (long)history().size();
            for (int t = 1; t <= p.get("threads"); t++) ids.push_back(spawn([m, &p, t] { for (const Op &o : p.ops) if (o.t == t) step(m, o, false); }));
            for (int i : ids) join(i);
            size_t before = history().size();
            step(m, Op{0, SIZE, 0, 0, 0}, true); step(m, Op{0, EMPTY, 0, 0, 0}, true);
            step(m, Op{0, EACH, 0, 0, 0}, true);
            for (long k = 0; k <= top; k++) step(m, Op{0, k & 1 ? GET : CONTAINS, k, 0, 0}, true);
            if (p.get("again")) { for (long k = 0; k <= top; k += 2) step(m, Op{0, REM, k, 0, 0}, true); for (long k = 1; k <= top; k += 4) put(m, k, 100000 + k); step(m, Op{0, SIZE, 0, 0, 0}, true); step(m, Op{0, EACH, 0, 0, 0}, true); }
            q.params["tail"] = (long)(history().size() - before);
            delete m;
        }
        std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str());
        chk_map(q, whole);
    }
};
static void run_kind(const Program &p, bool whole) {
    hash_mode = p.get("hash");
    switch (p.get("kind")) { case 0: Run<Key, long>::run(p, whole); break; case 1: Run<Key, Box>::run(p, whole); break; default: Run<String, String>::run(p, whole); }
}
static void common(Rng &r, Program &p, Config &c) {
    p.params["kind"] = r.chance(0.5) ? 0 : r.range(1, 2); p.params["hash"] = r.below(5); c.leaks = true; c.liveness = true; c.step_cap = 3000000; c.p_adv = 0; c.rate[F_CASWEAK] = 0.1;
    if (r.chance(0.3)) c.heap_reuse = true;
}
static void gen_keys(Rng &r, Program &p, Config &c) {                     // a few contended keys
    common(r, p, c); int n = (int)r.range(2, 4), nk = (int)r.range(1, 3); p.params["threads"] = n; long val = 1; std::vector<long> used;
    for (int k = 0; k < nk; k++) if (r.chance(0.5)) { used.push_back(val); p.ops.push_back(Op{0, PUT, k, val++, 0}); }
    int fill = r.chance(0.3) ? (int)r.range(4, 9) : 0; for (int i = 0; i < fill; i++) p.ops.push_back(Op{0, PUT, 3 + i, val++, 0});
    for (int t = 1; t <= n; t++) { int m = (int)r.range(1, 6); for (int j = 0; j < m; j++) {
        long k = r.below(nk), old = used.empty() || r.chance(0.1) ? 99999 : used[used.size() - 1 - r.below(used.size() < 4 ? used.size() : 4)]; int op = (int)r.below(10);
        if (r.chance(0.06)) { p.ops.push_back(Op{t, (int)r.range(SIZE, EMPTY), 0, 0, 0}); continue; }
        if (op == REM2) p.ops.push_back(Op{t, op, k, old, 0});
        else { if (op == PUT || op == PIA || op == REPL || op == REPL3) used.push_back(val); p.ops.push_back(Op{t, op, k, val++, old}); }
    } }
}
static void gen_grow(Rng &r, Program &p, Config &c) {                     // growth, displacement, iteration, clearing
    common(r, p, c); int n = (int)r.range(2, 4); p.params["threads"] = n; long val = 1, key = 0; std::vector<long> vals; std::vector<std::pair<long, long>> have;
    int pre = (int)(r.chance(0.2) ? r.range(16, 80) : r.range(0, 16)); for (; key < pre; key++) { have.push_back({key, val}); p.ops.push_back(Op{0, PUT, key, val++, 0}); }
    p.params["again"] = r.chance(0.3); bool crowd = r.chance(0.3), each = !crowd && r.chance(0.6); int big = each ? 5 : 14;
    for (int t = 1; t <= n; t++) { int m = (int)r.range(1, big); for (int j = 0; j < m; j++) {
        long x = r.below(100); std::pair<long, long> h = have.empty() ? std::make_pair(0l, 1l) : have[r.below(have.size())];
        if (x < (crowd ? 92 : 50)) { have.push_back({key, val}); p.ops.push_back(Op{t, r.chance(0.2) ? PIA : PUT, key++, val++, 0}); }
        else if (x < 65) p.ops.push_back(Op{t, (int)r.range(GET, FIND), h.first, 77777, 0});
        else if (x < 75) p.ops.push_back(Op{t, r.chance(0.5) ? REM : REM2, h.first, h.second, 0});
        else if (x < 80) { p.ops.push_back(Op{t, PUT, h.first, val++, 0}); }
        else if (x < 85 || !each) p.ops.push_back(Op{t, r.chance(0.7) ? SIZE : EMPTY, 0, 0, 0});
        else if (x < 91) p.ops.push_back(Op{t, EACH, 0, 0, 0});
        else if (x < 94) p.ops.push_back(Op{t, EACHSTOP, r.range(1, 6), 0, 0});
        else if (x < 97) p.ops.push_back(Op{t, HASVAL, 0, h.second, 0});
        else p.ops.push_back(Op{t, CLEAR, 0, 0, 0});
    } }
}
static void run_keys(const Program &p) { run_kind(p, false); }
static void run_grow(const Program &p) { run_kind(p, true); }
SCENARIO("C05", map_keys, gen_keys, run_keys);
SCENARIO("C06", map_grow, gen_grow, run_grow);
