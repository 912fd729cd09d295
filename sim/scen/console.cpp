// uses: chk_console
// C16: lines on the console.
#include "simrt.h"
#include "rt_internal.h"
#include <string.h>
#include <stdio.h>
#include <stdexcept>
#include "library/Java/Lang.hpp"
using namespace sim; using namespace Java::Lang;
namespace sim { void check_console(const std::string &got, const std::vector<std::string> &texts, const std::vector<int> &thread, const std::vector<int> &faulty, const std::vector<size_t> &at); }
enum { LINE, WORD, NUMBER, TEXT, PIECES, LETTER, LONGLINE, NOPS };
struct Several { int n; const char *tag; };                                        // prints itself piece by piece, and sometimes fails on the way
static std::ostream &operator<<(std::ostream &o, const Several &s) { o << s.tag; for (int i = 0; i < s.n; i++) { if (fault_here(F_THROW)) throw std::runtime_error("print"); o << '<' << i << ">"; } return o << "]"; }
struct Piece { std::string text; int thread, faulty, done; size_t at; };
static std::vector<Piece> *pieces;
static std::string text_of(const Op &o, int i) {
    char b[64]; snprintf(b, sizeof b, "[%d.%d.%d:", o.t, i, o.op); std::string s = b;
    switch (o.op) {
    case LINE: case TEXT: s += std::string((size_t)(o.a % 40), (char)('a' + o.t)) + "]\n"; break;
    case LONGLINE: s += std::string((size_t)(o.a * 3 % 700), (char)('A' + o.t)) + "]\n"; break;
    case WORD: s += std::string((size_t)(o.a % 40), (char)('a' + o.t)) + "]"; break;
    case NUMBER: snprintf(b, sizeof b, "%d\n", (o.t * 1000 + i) * 1000 + (int)(o.a % 1000)); s = b; break;
    case PIECES: for (int k = 0; k < (int)(o.a & 3) + 1; k++) { snprintf(b, sizeof b, "<%d>", k); s += b; } s += "]\n"; break;
    case LETTER: s = "\n"; s[0] = (char)('p' + o.t); s += "\n"; break;
    }
    return s;
}
static void run_console(const Program &p) {
    int n = (int)p.get("threads"); { Guard g; pieces = new std::vector<Piece>; int i = 0; for (const Op &o : p.ops) pieces->push_back(Piece{text_of(o, i++), o.t, 0, 0, 0}); }
    race_exempt(&std::cout, sizeof std::cout); race_exempt(std::cout.rdbuf(), 256);    // the standard says so
    std::vector<int> ids; faults_on(true);
    for (int t = 1; t <= n; t++) ids.push_back(spawn([&p, t] {
        int i = -1; for (const Op &o : p.ops) {
            i++; if (o.t != t) continue;
            Piece &x = (*pieces)[i]; std::string body; { Guard g; body = x.text; } long f = thread_faults(); bool threw = false;
            int e = invoke(o.op, i);
            try {
                switch (o.op) {
                case LINE: case LONGLINE: { String s(body.substr(0, body.size() - 1).c_str()); System::out::println(s); break; }
                case TEXT: { std::string s = body.substr(0, body.size() - 1); System::out::println(s.c_str()); break; }
                case WORD: { String s(body.c_str()); System::out::print(s); break; }
                case NUMBER: System::out::println((o.t * 1000 + i) * 1000 + (int)(o.a % 1000)); break;
                case PIECES: { char tag[64]; snprintf(tag, sizeof tag, "[%d.%d.%d:", o.t, i, o.op); System::out::println(Several{(int)(o.a & 3) + 1, tag}); break; }
                case LETTER: System::out::println(body[0]); break;
                }
            } catch (std::runtime_error &) { threw = true; }
            Guard g; x.faulty = thread_faults() != f; x.done = 1; x.at = console().size();
            if (threw && !x.faulty) { cur->rt = 0; fail("threw", "printing line %d of thread %d threw", i, t); }
            if (threw) probe("printing threw"); else if (x.faulty) probe("console failed");
            cur->rt = 0; ret(e, x.faulty); cur->rt = 1;
        }
    }));
    for (int i : ids) join(i);
    Guard g; std::vector<std::string> tx; std::vector<int> th, fa; std::vector<size_t> at; for (Piece &x : *pieces) { tx.push_back(x.text); th.push_back(x.thread); fa.push_back(x.faulty); at.push_back(x.at); }
    check_console(console(), tx, th, fa, at);
    uint64_t h = 1469598103934665603ull; for (char k : console()) h = (h ^ (unsigned char)k) * 1099511628211ull; cover(h);
}
static void gen_console(Rng &r, Program &p, Config &c) {
    c.leaks = false; c.liveness = true; c.step_cap = 400000; c.clock_tick_ns = 100; c.malloc_fill = (int)r.range(0, 255);
    static const int sizes[] = {16, 64, 256, 1024, 4096}; c.console_buf = sizes[r.below(5)]; c.console_tty = r.chance(0.4);
    if (r.chance(0.5)) c.rate[F_OUT] = r.chance(0.5) ? 0.05 : 0.3; if (r.chance(0.3)) c.rate[F_THROW] = 0.15;
    int n = (int)r.range(1, 4); p.params["threads"] = n; bool one = r.chance(0.4); int kind = (int)r.below(NOPS);
    for (int t = 1; t <= n; t++) { int m = (int)r.range(1, 6); for (int j = 0; j < m; j++) p.ops.push_back(Op{t, one ? kind : (int)r.below(NOPS), (long)r.below(1000), 0, 0}); }
}
SCENARIO("C16", console, gen_console, run_console);
