// Oracle for the concurrent map: linearizability per key and as a whole, snapshots, sizes.
#include "lin.h"
#include <string.h>
using namespace sim;
enum { PUT, GET, GETDEF, CONTAINS, FIND, PIA, REPL, REPL3, REM, REM2, EACH, EACHSTOP, CLEAR, SIZE, EMPTY, HASVAL, PAUSE };
static const char *nm[] = {"put", "get", "getOrDefault", "containsKey", "find", "putIfAbsent", "replace", "replace3", "remove", "remove2", "forEach", "forEachUntil", "clear", "size", "isEmpty", "containsValue"};
typedef std::vector<std::pair<long, long>> Snap;
static Snap snap(const Event &e) { Snap s(e.s.size() / 16); if (!s.empty()) memcpy((void *)s.data(), e.s.data(), s.size() * 16); return s; }
static const Snap &snap_of(const Event &e, std::map<const Event *, Snap> &c) { auto i = c.find(&e); if (i == c.end()) { Snap s = snap(e); std::sort(s.begin(), s.end()); i = c.emplace(&e, s).first; } return i->second; }
static std::map<const Event *, Snap> *cache;
// one entry: v = 0 when absent; c: third operand as in the scenario (a key, b value, c old value)
static bool key_op(long &v, const Event &e, bool pending) {
    bool t = e.threw;
    switch (e.op) {
    case PUT: if (t) return true; v = e.b; return true;
    case GET: return pending || e.r == v;
    case GETDEF: return pending || e.r == (v ? v : e.b);
    case CONTAINS: case FIND: return pending || e.r == (v != 0);
    case PIA: if (t) return true; if (!pending && e.r != v) return false; if (!v) v = e.b; return true;
    case REPL: if (!pending && e.r != v) return false; if (v) v = e.b; return true;
    case REPL3: { bool ok = v && v == e.c; if (!pending && e.r != ok) return false; if (ok) v = e.b; return true; }
    case REM: if (!pending && e.r != v) return false; v = 0; return true;
    case REM2: { bool ok = v && v == e.b; if (!pending && e.r != ok) return false; if (ok) v = 0; return true; }
    }
    return true;
}
struct One { long v; long key_; std::string key() const { return std::string((const char *)&v, 8); }
    bool apply(const Event &e, bool pending) {
        if (e.op == CLEAR) { v = 0; return true; }
        if (e.op == EACH) { if (pending) return true; for (auto &p : snap_of(e, *cache)) if (p.first == key_) return p.second == v; return v == 0; }
        return key_op(v, e, pending);
    } };
struct All { std::map<long, long> m; std::string key() const { std::string s; for (auto &p : m) s.append((const char *)&p, 16); return s; }
    bool apply(const Event &e, bool pending) {
        switch (e.op) {
        case CLEAR: m.clear(); return true;
        case EACH: { if (pending) return true; auto &s = snap_of(e, *cache); if (s.size() != m.size()) return false; auto i = m.begin(); for (auto &p : s) { if (p.first != i->first || p.second != i->second) return false; ++i; } return true; }
        case EACHSTOP: { if (pending) return true; auto &s = snap_of(e, *cache); if (s.size() != std::min((size_t)e.a, m.size())) return false; for (auto &p : s) { auto i = m.find(p.first); if (i == m.end() || i->second != p.second) return false; } return true; }
        case SIZE: return pending || !e.b || e.r == (long)m.size();
        case EMPTY: return pending || !e.b || e.r == m.empty();
        case HASVAL: { if (pending) return true; bool h = false; for (auto &p : m) if (p.second == e.b) h = true; return e.r == h; }
        default: { auto i = m.find(e.a); long v = i == m.end() ? 0 : i->second, o = v; if (!key_op(v, e, pending)) return false; if (v != o) { if (v) m[e.a] = v; else m.erase(e.a); } return true; }
        }
    } };
static std::string dump(const std::vector<const Event *> &h) {
    std::string s; for (auto e : h) { char b[200]; snprintf(b, sizeof b, "\n  [%lu..%ld] thread %d %s(%ld,%ld,%ld) = %ld%s", e->inv, e->done ? (long)e->ret : -1L, e->thread, nm[e->op], e->a, e->b, e->c, e->done ? e->r : -99, e->threw ? " (threw)" : ""); s += b; if (e->op == EACH || e->op == EACHSTOP) { s += " {"; for (auto &p : snap(*e)) s += std::to_string(p.first) + ":" + std::to_string(p.second) + " "; s += "}"; } }
    return s;
}
// A call that threw may have had its effect or none; the size agrees with what an iteration visits when nobody else is active.
struct OneT { One o; std::string key() const { return o.key(); } bool apply(const Event &e, bool pending) { if (!e.threw) return o.apply(e, pending); if (e.op == EACH) return true; Event f = e; f.threw = false; return o.apply(f, true); } };
void chk_map_throwing(const Program &p) {
    Guard g; auto &H = history(); std::map<const Event *, Snap> c; cache = &c; uint64_t cov = 1469598103934665603ull; std::map<long, bool> keys; (void)p;
    for (size_t i = 0; i < H.size(); i++) { const Event &e = H[i];
        cov = (cov ^ (e.op * 1000003 + e.a * 101 + e.r * 7 + e.thread + e.threw * 31)) * 1099511628211ull;
        if (e.op < EACH) keys[e.a] = true;
        if ((e.op == EACH || e.op == EACHSTOP) && e.done && !e.threw) { auto &s = snap_of(e, c); for (size_t j = 1; j < s.size(); j++) if (s[j].first == s[j - 1].first) fail("visited-twice", "forEach visited key %ld twice", s[j].first); for (auto &q : s) keys[q.first] = true;
            if (e.op == EACH && i && H[i - 1].op == SIZE && H[i - 1].b && H[i - 1].thread == e.thread && H[i - 1].r != (long)s.size()) fail("wrong-size", "size() gives %ld, but %zu entries are there", H[i - 1].r, s.size()); }
    }
    cover(cov);
    for (auto &k : keys) {
        Lin<OneT> L(H); L.threw_may_act = true; std::vector<const Event *> h;
        for (size_t i = 0; i < H.size(); i++) { const Event &e = H[i]; if (e.op < EACH ? e.a == k.first : (e.op == EACH && !e.threw) || e.op == CLEAR) { L.add((int)i); h.push_back(&e); } }
        OneT o; o.o.v = 0; o.o.key_ = k.first;
        if (!L.check(o)) fail("entry-not-linearizable", "no order of the calls explains the results for key %ld:%s", k.first, dump(h).c_str());
        if (L.gave_up) note("search for key %ld gave up", k.first);
    }
}
void chk_map(const Program &p, bool whole) {
    Guard g; auto &H = history(); std::map<const Event *, Snap> c; cache = &c; uint64_t cov = 1469598103934665603ull; bool each = false;
    std::map<long, bool> keys;
    for (auto &e : H) {
        cov = (cov ^ (e.op * 1000003 + e.a * 101 + e.r * 7 + e.thread)) * 1099511628211ull;
        if (e.op < EACH) keys[e.a] = true;
        if (e.threw) probe("a put was refused (overfull bucket)");
        if (e.op == EACH || e.op == EACHSTOP) { each = true; if (e.done) { auto &s = snap_of(e, c); for (size_t i = 1; i < s.size(); i++) if (s[i].first == s[i - 1].first) fail("visited-twice", "forEach visited key %ld twice", s[i].first); for (auto &q : s) keys[q.first] = true; } }
        if (e.op == SIZE && e.done && (e.r < 0 || e.r > 100000)) fail("impossible-size", "size reported as %ld", e.r);
    }
    cover(cov); if (each) probe("iteration");
    for (auto &k : keys) {
        Lin<One> L(H); std::vector<const Event *> h;
        for (size_t i = 0; i < H.size(); i++) { const Event &e = H[i]; if (e.op < EACH ? e.a == k.first : e.op == EACH || e.op == CLEAR) { L.add((int)i); h.push_back(&e); } }
        One o; o.v = 0; o.key_ = k.first;
        if (!L.check(o)) fail("entry-not-linearizable", "no order of the calls explains the results for key %ld:%s", k.first, dump(h).c_str());
        if (L.gave_up) note("search for key %ld gave up", k.first);
    }
    if (whole) {
        size_t first = (size_t)p.get("preloaded"); All m; long v;
        for (size_t i = 0; i < first && i < H.size(); i++) m.apply(H[i], false);
        Lin<All> L(H); std::vector<const Event *> h; for (size_t i = first; i < H.size(); i++) { if (H[i].op < EACH && i < H.size() - p.get("tail", 0) && !each) continue; L.add((int)i); h.push_back(&H[i]); }
        if (each || 1) { if (!L.check(m)) fail("map-not-linearizable", "no order of these calls explains their results (%zu entries before):%s", m.m.size(), dump(h).c_str()); if (L.gave_up) { note("search gave up"); probe("(whole-map search gave up)"); } }
    }
    (void)nm;
}
