// C20: results depend on nothing but the inputs.
#include "ops_more.h"
#include "ops_read.h"
static std::string opname(const Op &o) { return o.t == 1 ? iso_ops::opname(o.op) : o.t == 2 ? read_ops::names[o.op] : o.t == 3 ? fresh_ops::names[o.op] : o.t == 4 ? edge_ops::names[o.op] : o.t == 5 ? alias_ops::names[o.op] : more_ops::names[o.op]; }
static const char SEP = '\001';
static void play(const Program &p, int fill, bool dirty, std::string &all) {
    iso_ops::Mine mine; read_ops::Shared shared(p);
    for (const Op &o : p.ops) {
        scribble(fill); errno = dirty ? ERANGE : 0; iso_ops::Out out; read_ops::Out out2;
        if (o.t == 1) iso_ops::safe(mine, o, out); else if (o.t == 2) { read_ops::safe(shared, o, out2); out.s = out2.s; }
        else try { if (o.t == 3) fresh_ops::step(o, out); else if (o.t == 4) edge_ops::step(o, out); else if (o.t == 5) alias_ops::step(o, out); else more_ops::step(o, out); } catch (Exception &e) { out.add("threw"); out.add(e.getMessage()); } catch (std::exception &e) { out.add("threw std"); out.add(e.what()); }
        all += out.s; all += SEP;
    }
}
static void run_inputs(const Program &p) {
    std::string here; here.reserve(1 << 18); if (p.get("warm")) { play(p, (int)p.get("fill0"), false, here); here.clear(); }
    HeapMark mark = heap_mark(); play(p, (int)p.get("fill0"), false, here); if (p.get("warm")) { std::string what; if (heap_leaked(mark, &what)) fail("leak", "the program leaks memory: %s", what.c_str()); }
    for (int v = 1; v <= 2; v++) {
        int fill = (int)p.get(v == 1 ? "fill1" : "fill2"); SoloEnv e; e.fill = fill; e.reuse = v == 2; e.shift = p.get("shift") * v; e.later_ns = p.get("later") * v; std::string there;
        if (!solo([&p, fill, v](std::string &r) { play(p, fill, v == 1, r); }, there, &e)) fail("leftover", "with other leftovers in memory (bytes %d) the program does not end normally", fill);
        if (there != here) { size_t x = 0, y = 0;
            for (const Op &o : p.ops) { size_t i = here.find(SEP, x), j = there.find(SEP, y); std::string A = here.substr(x, i - x), B = there.substr(y, j - y); x = i + 1; y = j + 1;
                if (A != B) fail(("leftover in " + opname(o)).c_str(), "%s(%ld, %ld, %ld) gives %s in one place and %s in another", opname(o).c_str(), o.a, o.b, o.c, A.c_str(), B.c_str()); } }
    }
    uint64_t h = 1469598103934665603ull; for (char k : here) h = (h ^ (unsigned char)k) * 1099511628211ull; cover(h);
}
static void gen_inputs(Rng &r, Program &p, Config &c) {
    static const int fills[] = {0, 0xff, 0xa5, 0x41, 0x01, 0x7f, 0x80};
    c.leaks = true; c.liveness = true; c.step_cap = 20000000; c.heap_reuse = r.chance(0.5); c.clock_tick_ns = 100; c.p_adv = 0;
    p.params["fill0"] = c.malloc_fill = fills[r.below(7)]; p.params["fill1"] = fills[r.below(7)]; p.params["fill2"] = (int)r.range(0, 255); p.params["shift"] = (long)r.below(100000); p.params["later"] = (long)r.below(1000000) * 1000000;
    p.params["warm"] = r.chance(0.3); p.params["w1"] = r.below(8); p.params["w2"] = r.below(8); p.params["x"] = r.below(100000); p.params["y"] = r.below(100000); p.params["n"] = r.below(9);
    int m = (int)r.range(1, 8); for (int j = 0; j < m; j++) { int t = (int)r.range(1, 10); if (t > 6) t = t == 7 ? 4 : t == 8 ? 5 : 6; p.ops.push_back(Op{t, (int)r.below(t == 1 ? iso_ops::NOPS : t == 2 ? read_ops::NOPS : t == 3 ? fresh_ops::NOPS : t == 4 ? edge_ops::NOPS : t == 5 ? alias_ops::NOPS : more_ops::NOPS), (long)r.below(1000), r.chance(0.3) ? (long)r.next() : r.range(-100000, 100000), (long)r.below(16)}); }
}
SCENARIO("C20", inputs, gen_inputs, run_inputs);
