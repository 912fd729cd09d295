// Linearizability checking (Wing-Gong search with memoised states), used uninstrumented by the chk_*.cpp units.
#pragma once
#include "rt_internal.h"
#include <stdio.h>
#include <unordered_set>
#include <string>
namespace sim {
struct LinOp { uint64_t inv, ret; bool pending; int ev; bool maybe; };   // maybe: it may have had its effect or none
// M: copyable, has  bool apply(const Event &, bool pending)  (false = this result is impossible now)  and  std::string key() const
template <class M> struct Lin {
    const std::vector<Event> &H; std::vector<LinOp> ops; std::unordered_set<std::string> seen; uint64_t budget = 400000; bool gave_up = false; uint64_t best = 0; int nbest = -1; bool threw_may_act = false;
    explicit Lin(const std::vector<Event> &h) : H(h) {}
    void add(int ev) { const Event &e = H[ev]; ops.push_back(LinOp{e.inv, e.done ? e.ret : ~0ull, !e.done, ev, threw_may_act && e.threw}); }
    bool rec(uint64_t mask, const M &m, int ndone) {
        if (ndone > nbest) { nbest = ndone; best = mask; }
        bool left = false; uint64_t minret = ~0ull;
        for (size_t i = 0; i < ops.size(); i++) if (!(mask >> i & 1)) { if (!ops[i].pending) left = true; if (ops[i].ret < minret) minret = ops[i].ret; }
        if (!left) return true;
        if (budget == 0) { gave_up = true; return true; }
        budget--;
        std::string k((const char *)&mask, 8); k += m.key();
        if (!seen.insert(k).second) return false;
        for (size_t i = 0; i < ops.size(); i++) {
            if (mask >> i & 1 || ops[i].inv > minret) continue;
            M n = m; if (!n.apply(H[ops[i].ev], ops[i].pending)) continue;
            if (rec(mask | 1ull << i, n, ndone + 1)) return true;
            if (gave_up) return true;
            if (ops[i].maybe && rec(mask | 1ull << i, m, ndone + 1)) return true;
            if (gave_up) return true;
        }
        return false;
    }
    bool check(const M &init) { if (ops.size() > 64) { gave_up = true; return true; } return rec(0, init, 0); }
};
}
