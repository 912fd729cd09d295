// Oracle for Random: the draws of all threads are the positions of one linear congruential sequence.
#include "rt_internal.h"
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <unordered_set>
#include <set>
using namespace sim;
enum { INT, BOUND, LONG, BOOL, FLOAT, DOUBLE, GAUSS, BYTES, STRING, SETSEED, NEWLONG, NEWINTS, MATHRANDOM, JUMP };
static const char *nm[] = {"nextInt", "nextInt", "nextLong", "nextBoolean", "nextFloat", "nextDouble", "nextGaussian", "nextBytes", "nextString", "setSeed", "Random().nextLong", "Random().nextInt x2", "Math.random"};
static const uint64_t MASK = (1ull << 48) - 1;
static uint64_t scramble(long s) { return ((uint64_t)s ^ 0x5DEECE66Dull) & MASK; }
static uint64_t advance(uint64_t s) { return (s * 0x5DEECE66Dull + 11) & MASK; }
static int nx(uint64_t s, int bits) { return (int)(s >> (48 - bits)); }
static double dbl(long l) { double d; memcpy(&d, &l, 8); return d; }
static bool near(double a, double b) { return a == b || fabs(a - b) <= 1e-12 * fabs(a); }
struct St { uint64_t seed; bool have; double g; int owner; int idx[8]; std::vector<uint64_t> d[8];
    std::string key() const { std::string k((const char *)&seed, 8); k += (char)have; k.append((const char *)&g, 8); k.append((const char *)idx, sizeof idx); for (auto &v : d) { k += (char)v.size(); if (!v.empty()) k.append((const char *)v.data(), v.size() * 8); } return k; } };
struct Search {
    std::vector<const Event *> th[8]; std::unordered_set<std::string> seen; long budget = 60000; bool gave_up = false; size_t best = 0;
    // one bounded draw from draws [i..): -1 needs more, else value and i advanced
    static long bound(const std::vector<uint64_t> &d, size_t &i, int b) { for (;;) { if (i >= d.size()) return -1; int bits = nx(d[i++], 31); if ((b & (b - 1)) == 0) return (long)(((long)b * bits) >> 31); int v = bits % b; if ((int)((unsigned)bits - (unsigned)v + (unsigned)(b - 1)) >= 0) return v; } }
    // 1 done, 0 needs more, -1 contradiction
    static int eval(const Event &e, const std::vector<uint64_t> &d, St &s) {
        static const char list[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; size_t n = d.size(), i = 0;
        switch (e.op) {
        case INT: return n ? (e.r == nx(d[0], 32) ? 1 : -1) : 0; case BOOL: return n ? (e.r == nx(d[0], 1) ? 1 : -1) : 0;
        case FLOAT: return n ? (dbl(e.r) == (double)(nx(d[0], 24) / (float)(1 << 24)) ? 1 : -1) : 0;
        case LONG: return n < 2 ? 0 : e.r == (long)(((uint64_t)(long)nx(d[0], 32) << 32) + (uint64_t)(long)nx(d[1], 32)) ? 1 : -1;
        case DOUBLE: return n < 2 ? 0 : dbl(e.r) == (((long)nx(d[0], 26) << 27) + nx(d[1], 27)) * (1.0 / (1l << 53)) ? 1 : -1;
        case BOUND: { long v = bound(d, i, (int)e.a); return v < 0 ? 0 : v == e.r ? 1 : -1; }
        case BYTES: for (; i < (size_t)e.a; i++) { if (i >= n) return 0; if ((char)(nx(d[i], 32) >> 8) != e.s[i]) return -1; } return 1;
        case STRING: for (size_t k = 0; k < (size_t)e.a; k++) { long v = bound(d, i, 62); if (v < 0) return 0; if (list[v] != e.s[k]) return -1; } return 1;
        case GAUSS: { if (n % 4) return 0; auto D = [&](size_t k) { return 2 * ((((long)nx(d[k], 26) << 27) + nx(d[k + 1], 27)) * (1.0 / (1l << 53))) - 1; }; double a = D(n - 4), b = D(n - 2), q = a * a + b * b; if (q >= 1 || q == 0) return 0; double m = sqrt(-2 * log(q) / q); if (!near(a * m, dbl(e.r))) return -1; s.have = true; s.g = b * m; return 1; }
        }
        return -1;
    }
    bool rec(const St &s) {
        bool left = false; uint64_t minret = ~0ull; size_t done = 0;
        for (int t = 0; t < 8; t++) { done += (size_t)s.idx[t]; if (s.idx[t] < (int)th[t].size()) { left = true; if (th[t][s.idx[t]]->ret < minret) minret = th[t][s.idx[t]]->ret; } }
        if (done > best) best = done; if (!left) return true; if (budget-- <= 0) { gave_up = true; return true; }
        if (!seen.insert(s.key()).second) return false;
        for (int t = 0; t < 8; t++) if (s.idx[t] < (int)th[t].size()) {
            const Event &e = *th[t][s.idx[t]]; if (e.inv > minret) continue; St x = s; auto finish = [&] { x.idx[t]++; x.d[t].clear(); };
            if (e.op == SETSEED) { if (s.owner >= 0) continue; x.seed = scramble(e.a); x.have = false; finish(); }
            else if (e.op == GAUSS && s.d[t].empty() && s.have) { if (s.owner >= 0) continue; if (!near(s.g, dbl(e.r))) continue; x.have = false; finish(); }
            else if ((e.op == STRING || e.op == BYTES) && e.a == 0) finish();
            else { if (e.op == GAUSS) { if (s.owner >= 0 && s.owner != t) continue; x.owner = t; } x.seed = advance(x.seed); x.d[t].push_back(x.seed); int v = eval(e, x.d[t], x); if (v < 0) continue; if (v == 1) { if (e.op == GAUSS) x.owner = -1; finish(); } }
            if (rec(x)) return true;
        }
        return false;
    }
};
static std::string dump() { std::string all; for (auto &e : history()) { char b[200]; bool f = e.op == FLOAT || e.op == DOUBLE || e.op == GAUSS; if (f) snprintf(b, sizeof b, "\n  [%lu..%ld] thread %d %s() = %.17g", e.inv, (long)e.ret, e.thread, nm[e.op], dbl(e.r)); else snprintf(b, sizeof b, "\n  [%lu..%ld] thread %d %s(%ld) = %ld %s", e.inv, (long)e.ret, e.thread, nm[e.op], e.a, e.r, e.op == STRING ? e.s.c_str() : ""); all += b; } return all; }
void chk_draws(const Program &p) {
    Guard g; auto &H = history(); uint64_t cov = 1469598103934665603ull; Search s; std::map<int, int> slot;
    for (auto &e : H) { cov = (cov ^ (uint64_t)(e.op * 1000003 + e.r * 7 + e.thread)) * 1099511628211ull; auto i = slot.find(e.thread); if (i == slot.end()) i = slot.emplace(e.thread, (int)slot.size()).first; s.th[i->second].push_back(&e);
        if (e.op == STRING && (long)e.s.size() != e.a) fail("wrong-length", "nextString(%ld) returned %zu characters", e.a, e.s.size());
        if (e.op == BYTES && (long)e.s.size() != e.a) fail("wrong-length", "nextBytes delivered %zu of %ld bytes", e.s.size(), e.a);
        if (e.op == GAUSS) probe("gaussian draws"); if (e.op == SETSEED) probe("reseeded"); }
    cover(cov); St st; st.seed = scramble(p.get("seed")); st.have = false; st.g = 0; st.owner = -1; memset(st.idx, 0, sizeof st.idx);
    if (!s.rec(st)) fail("not-one-sequence", "the values drawn are not the next values of the seed's sequence (at most %zu of %zu calls explained):%s", s.best, H.size(), dump().c_str());
    if (s.gave_up) probe("search gave up");
}
void chk_seeds() {
    Guard g; auto &H = history(); std::map<long, const Event *> seen; uint64_t cov = 1469598103934665603ull;
    for (auto &e : H) { cov = (cov ^ (uint64_t)e.r) * 1099511628211ull; long k = e.r; auto i = seen.find(k); if (i != seen.end()) fail("same-sequence", "two generators created without a seed yield the same values:%s", dump().c_str()); seen[k] = &e; }
    cover(cov);
}
