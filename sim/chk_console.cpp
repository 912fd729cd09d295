// Oracle for the console: the text must be a sequence of the pieces, each whole (or, where a fault was injected into the call, a
// prefix of it), the pieces of a thread in order, and a piece whose call returned without a fault within what had arrived by then.
#include "simrt.h"
#include "rt_internal.h"
#include <set>
#include <string.h>
namespace sim {
struct Parse {
    const std::string &got; const std::vector<std::string> &texts; std::vector<std::vector<int>> per; const std::vector<int> &faulty; const std::vector<size_t> &at; std::set<std::pair<size_t, uint64_t>> seen; size_t best = 0; std::string why; long budget = 300000;
    bool go(size_t pos, std::vector<size_t> &k) {
        uint64_t key = 0; bool all = true; for (size_t t = 0; t < per.size(); t++) { key = key * 64 + k[t]; if (k[t] < per[t].size()) all = false; }
        if (all && pos == got.size()) return true;
        if (!seen.insert({pos, key}).second || --budget < 0) return false;
        for (size_t t = 0; t < per.size(); t++) if (k[t] < per[t].size()) {
            int i = per[t][k[t]]; const std::string &x = texts[i]; size_t n = 0; while (n < x.size() && pos + n < got.size() && got[pos + n] == x[n]) n++;
            if (pos + n > best || why.empty()) { best = pos + n; why = x; }
            if (!faulty[i]) { if (n == x.size() && pos + n <= at[i]) { k[t]++; if (go(pos + n, k)) return true; k[t]--; } }
            else for (size_t m = n + 1; m-- > 0; ) { k[t]++; bool ok = go(pos + m, k); if (ok) return true; k[t]--; }
        }
        return false;
    }
};
void check_console(const std::string &got, const std::vector<std::string> &texts, const std::vector<int> &thread, const std::vector<int> &faulty, const std::vector<size_t> &at) {
    int n = 0; for (int t : thread) if (t > n) n = t; bool anyf = false; for (int f : faulty) anyf |= f;
    Parse q{got, texts, std::vector<std::vector<int>>(n), faulty, at, {}}; for (size_t i = 0; i < texts.size(); i++) q.per[thread[i] - 1].push_back((int)i);
    std::vector<size_t> k(n, 0); if (q.go(0, k)) return;
    if (q.budget < 0) { inconclusive("console text not decided"); }
    // missing on return is told apart from torn
    std::vector<size_t> whole(texts.size(), got.size()); Parse w{got, texts, q.per, faulty, whole, {}}; std::vector<size_t> k2(n, 0); bool late = w.go(0, k2);
    std::string esc; for (char c : got) { if (c == '\n') esc += "\\n"; else esc += c; } if (esc.size() > 700) esc = esc.substr(0, 700) + "...";
    cur->rt = 0;
    if (late) fail("late-line", "a line was not on the console when its call had returned; the console ends up as: %s", esc.c_str());
    fail(anyf ? "lost-or-torn-line" : "torn-line", "the console text is not a sequence of whole pieces (up to byte %zu): %s", q.best, esc.c_str());
}
}
