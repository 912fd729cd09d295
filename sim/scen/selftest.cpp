#include "simrt.h"
#include <mutex>
#include <thread>
#include <vector>
#include <atomic>
using namespace sim;
static void gen(Rng &r, Program &p, Config &c) { p.params["n"] = r.range(2, 4); p.params["k"] = r.range(1, 10); p.params["bug"] = 0; c.rate[F_SPURIOUS] = 0.1; }
static void run(const Program &p) {
    std::mutex m; int x = 0; std::atomic<int> y(0);
    std::vector<int> ids; int k = p.get("k"), bug = p.get("bug");
    for (int i = 0; i < p.get("n"); i++) ids.push_back(spawn([&, k] { for (int j = 0; j < k; j++) { std::lock_guard<std::mutex> g(m); x++; y++; } }));
    std::thread t([&] { std::lock_guard<std::mutex> g(m); x += 1; });
    t.join();
    for (int i : ids) join(i);
    if (x != k * p.get("n") + 1 || y != x - 1) fail("bad", "x=%d", x);
    cover(x);
}
SCENARIO("T00", selftest, gen, run);
static void gen2(Rng &r, Program &p, Config &c) { p.params["k"] = r.range(1, 10); c.races = r.chance(0.5); }
static void run2(const Program &p) {
    std::atomic<int> y(0); int k = p.get("k");
    auto f = [&] { for (int j = 0; j < k; j++) { int v = y.load(); y.store(v + 1); } };
    int a = spawn(f), b = spawn(f); join(a); join(b);
    if (y != 2 * k) fail("lost-update", "y=%d", (int)y);
}
SCENARIO("T00", selfbug, gen2, run2);
