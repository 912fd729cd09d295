// Oracle for the string buffers: linearizable as texts with a length.
#include "lin.h"
#include "scen/buftext.h"
#include <string.h>
#include <algorithm>
using namespace sim;
static const char *nm[] = {"append", "appendChar", "appendNumber", "appendPart", "insert", "insertChar", "insertNumber", "insertPart", "deletes", "deleteCharAt", "replace", "reverse", "setCharAt", "setLength", "ensureCapacity", "trimToSize",
    "length", "charAt", "indexOf", "indexOfFrom", "lastIndexOf", "subString", "subString", "toString", "getValue", "capacity", "codePointCount", "String(buffer)", "copy", "assign", "append(buffer)", "append(sequence)", "insert(sequence)", "append(sequence,part)", "StringBuffer(sequence)", "lastIndexOfFrom", "codePointAt", "codePointBefore", "appendCodePoint"};
static bool two(int op) { return op >= B_ASSIGN && op <= B_APPSEQSUB; }        // reads one buffer, changes another
static std::string z(const std::string &s) { return std::string(s.c_str()); }  // what a C string shows of it
struct Txt {
    std::string b[2]; std::map<int, std::string> snap; const Event *base;
    std::string key() const { std::string k; for (int i = 0; i < 2; i++) { k += std::to_string(b[i].size()); k += ':'; k += b[i]; } for (auto &s : snap) { k += std::to_string(s.first); k += '='; k += s.second; k += ';'; } return k; }
    bool apply(const Event &e, bool pending) {
        int w = b_buf(e.a), x = b_x(e.a), y = b_y(e.a), ev = (int)(&e - base); std::string &s = b[w]; int n = (int)s.size(); bool t = e.threw; if (pending) return true;
        auto ok = [&](bool may) { return t == !may; };
        auto ins = [&](int at, const std::string &v) { if (at > n) return t; if (t) return false; s.insert((size_t)at, v); return true; };
        std::string txt = b_text(e.b), ch(1, (char)('A' + e.b % 26));
        switch (e.op) {
        case B_APPEND: s += txt; return !t; case B_APPC: case B_APPCP: s += ch; return !t; case B_APPN: s += b_number(e.b, e.c); return !t;
        case B_APPSUB: { bool may = x <= y && y <= (int)txt.size(); if (!ok(may)) return false; if (may) s += txt.substr((size_t)x, (size_t)(y - x)); return true; }
        case B_INSERT: return ins(x, txt); case B_INSC: return ins(x, ch); case B_INSN: return ins(x, b_number(e.b, e.c));
        case B_INSSUB: { bool may = x <= n && y + e.c <= (long)txt.size(); if (!ok(may)) return false; if (may) s.insert((size_t)x, txt.substr((size_t)y, (size_t)e.c)); return true; }
        case B_DELETE: { bool may = x <= y && x <= n; if (!ok(may)) return false; if (may) s.erase((size_t)x, (size_t)(y - x)); return true; }
        case B_DELCHAR: { bool may = x < n; if (!ok(may)) return false; if (may) s.erase((size_t)x, 1); return true; }
        case B_REPLACE: { bool may = x <= n && x <= y; if (!ok(may)) return false; if (may) s.replace((size_t)x, (size_t)(std::min(y, n) - x), txt); return true; }
        case B_REVERSE: std::reverse(s.begin(), s.end()); return !t;
        case B_SETCHAR: { bool may = x < n; if (!ok(may)) return false; if (may) s[(size_t)x] = ch[0]; return true; }
        case B_SETLEN: s.resize((size_t)x, '\0'); return !t;
        case B_ENSURE: case B_TRIM: return !t; case B_LASTFROM: return true;
        case B_LENGTH: return !t && e.r == n; case B_CAP: return !t && e.r >= n;
        case B_CHARAT: return x < n ? !t && e.r == s[(size_t)x] : t;
        case B_CPA: return x < n ? !t && e.r == s[(size_t)x] : t; case B_CPB: return x > 0 && x <= n ? !t && e.r == s[(size_t)x - 1] : t;
        case B_CPC: return y <= n && x <= y ? !t && e.r == y - x : t;
        case B_INDEX: case B_INDEX2: case B_LAST: { if (t) return false; std::string c = z(s); size_t f = e.op == B_LAST ? c.rfind(txt) : c.find(txt, e.op == B_INDEX ? 0 : (size_t)x); return e.r == (f == std::string::npos ? -1 : (long)f); }
        case B_SUB1: return x < n ? !t && e.s == z(s.substr((size_t)x)) : t;
        case B_SUB2: return x < n && y <= n && x <= y ? !t && e.s == z(s.substr((size_t)x, (size_t)(y - x))) : t;
        case B_STR: case B_VALUE: case B_NEWSTR: return !t && e.s == z(s);
        case B_COPY: return !t && e.s == z(s) && e.r == n; case B_NEWSEQ: return !t && e.s == z(s) && e.r == (long)z(s).size();
        }
        // two(op): first the argument is read, then the buffer is changed
        auto i = snap.find(ev); if (i == snap.end()) { snap[ev] = b[e.c ? w : 1 - w]; return true; }
        std::string v = i->second; snap.erase(i);
        switch (e.op) {
        case B_ASSIGN: s = v; return !t; case B_APPBUF: case B_APPSEQ: s += z(v); return !t; case B_INSSEQ: return ins(x, z(v));
        case B_APPSEQSUB: { v = z(v); bool may = x <= y && y <= (int)v.size(); if (!ok(may)) return false; if (may) s += v.substr((size_t)x, (size_t)(y - x)); return true; }
        }
        return true;
    }
};
void chk_buf(const Program &p, const char *const init[2]) {
    Guard g; auto &H = history(); (void)p; uint64_t cov = 1469598103934665603ull; std::string all; bool thrown = false;
    for (auto &e : H) { cov = (cov ^ (e.op * 1000003 + e.a * 101 + e.r * 7 + e.thread)) * 1099511628211ull; for (char c : e.s) cov = (cov ^ (unsigned char)c) * 1099511628211ull; thrown |= e.threw;
        char b[260]; std::string s = e.s; for (char &c : s) if (!c) c = '$'; snprintf(b, sizeof b, "\n  [%lu..%ld] thread %d buffer %d %s(%d,%d,'%s',%ld) = %ld '%s'%s", e.inv, e.done ? (long)e.ret : -1L, e.thread, b_buf(e.a), nm[e.op], b_x(e.a), b_y(e.a), b_text(e.b).c_str(), e.c, e.r, s.c_str(), e.threw ? " (threw)" : ""); all += b; }
    cover(cov); if (thrown) probe("index out of range"); if (H.size() > 40) return;
    Txt m; m.base = H.data(); for (int i = 0; i < 2; i++) m.b[i] = init[i]; Lin<Txt> lin(H); for (size_t i = 0; i < H.size(); i++) { lin.add((int)i); if (two(H[i].op)) { lin.add((int)i); probe("one buffer argument of another"); } }
    if (!lin.check(m)) fail("not-linearizable", "no order of the operations explains their results:%s", all.c_str());
    if (lin.gave_up) probe("search gave up");
}
