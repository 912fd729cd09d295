// uses: chk_buf
// C09: StringBuffer.
#include "simrt.h"
#include "buftext.h"
#include "library/Java/Lang/StringBuffer/StringBuffer.hpp"
#include "library/Java/Lang/String/String.hpp"
using namespace sim;
using namespace Java::Lang;
void chk_buf(const Program &p, const char *const init[2]);
static void step(StringBuffer *const *q, const Op &o) {
    StringBuffer &s = *q[b_buf(o.a)], &d = *q[1 - b_buf(o.a)]; int x = b_x(o.a), y = b_y(o.a); StringBuffer &arg = o.c ? s : d;   // c: a buffer is its own argument
    String t(b_text(o.b).c_str()); int e = invoke(o.op, o.a, o.b, o.c); String r; long n = 0; bool text = false;
    try {
        switch (o.op) {
        case B_APPEND: s.append(t); break; case B_APPC: s.append((char)('A' + o.b % 26)); break;
        case B_APPN: if (o.c == 0) s.append((int)o.b); else if (o.c == 1) s.append(o.b * 1000003L); else if (o.c == 2) s.append((boolean)(o.b % 2)); else if (o.c == 3) s.append(o.b % 50 + 0.5); else s.append(o.b % 50 + 0.25f); break; case B_APPCP: s.appendCodePoint('A' + (int)(o.b % 26)); break;
        case B_APPSUB: s.append((const CharSequence &)t, x, y); break;
        case B_INSERT: s.insert(x, t); break; case B_INSC: s.insert(x, (char)('A' + o.b % 26)); break;
        case B_INSN: if (o.c == 0) s.insert(x, (int)o.b); else if (o.c == 1) s.insert(x, o.b * 1000003L); else if (o.c == 2) s.insert(x, (boolean)(o.b % 2)); else if (o.c == 3) s.insert(x, o.b % 50 + 0.5); else s.insert(x, o.b % 50 + 0.25f); break; case B_CPA: n = s.codePointAt(x); break; case B_CPB: n = s.codePointBefore(x); break;
        case B_INSSUB: s.insert(x, t, y, (int)o.c); break;
        case B_DELETE: s.deletes(x, y); break; case B_DELCHAR: s.deleteCharAt(x); break; case B_REPLACE: s.replace(x, y, t); break; case B_REVERSE: s.reverse(); break;
        case B_SETCHAR: s.setCharAt(x, (char)('A' + o.b % 26)); break; case B_SETLEN: s.setLength(x); break; case B_ENSURE: s.ensureCapacity((int)o.b); break; case B_TRIM: s.trimToSize(); break;
        case B_LENGTH: n = s.length(); break; case B_CHARAT: n = s.charAt(x); break; case B_INDEX: n = s.indexOf(t); break; case B_INDEX2: n = s.indexOf(t, x); break; case B_LAST: n = s.lastIndexOf(t); break; case B_LASTFROM: s.lastIndexOf(t, x); break;
        case B_SUB1: r = s.subString(x); text = true; break; case B_SUB2: r = s.subString(x, y); text = true; break; case B_STR: r = s.toString(); text = true; break; case B_VALUE: r = s.getValue(); text = true; break;
        case B_CAP: n = s.capacity(); break; case B_CPC: n = s.codePointCount(x, y); break;
        case B_NEWSTR: { String z(s); r = z; text = true; break; }
        case B_COPY: { StringBuffer c(s); r = c.toString(); n = c.length(); text = true; break; }
        case B_NEWSEQ: { StringBuffer c((const CharSequence &)s); r = c.toString(); n = c.length(); text = true; break; }
        case B_ASSIGN: s = arg; break; case B_APPBUF: s.append(arg); break; case B_APPSEQ: s.append((const CharSequence &)arg); break; case B_INSSEQ: s.insert(x, (const CharSequence &)arg); break;
        case B_APPSEQSUB: s.append((const CharSequence &)arg, x, y); break;
        }
    } catch (std::exception &) { ret_throw(e); return; } catch (...) { ret_throw(e); return; }
    if (text) ret_s(e, r.toCharPointer(), (size_t)r.length(), n); else ret(e, n);
}
static const char *const inits[][2] = {{"", ""}, {"abc", ""}, {"0123456789", "xy"}, {"0123456789abcdef", "uvwxyz0123456789ABC"}};
static void run_buf(const Program &p) {
    HeapMark hm = heap_mark(); const char *const *in = inits[p.get("init")];
    { StringBuffer *q[2]; for (int i = 0; i < 2; i++) if (p.get("ctor") == 0) { q[i] = new StringBuffer(String(in[i])); } else if (p.get("ctor") == 1) { q[i] = new StringBuffer((int)p.get("cap")); q[i]->append(String(in[i])); } else { q[i] = new StringBuffer(); q[i]->append(String(in[i])); }
      StringBuffer **qq = q; std::vector<int> ids; for (int t = 1; t <= p.get("threads"); t++) ids.push_back(spawn([qq, &p, t] { for (const Op &o : p.ops) if (o.t == t) step(qq, o); }));
      for (int i : ids) join(i);
      for (int i = 0; i < 2; i++) { step(q, Op{0, B_STR, b_pack(i, 0, 0), 0, 0}); step(q, Op{0, B_LENGTH, b_pack(i, 0, 0), 0, 0}); delete q[i]; } }
    std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str());
    chk_buf(p, in);
}
static void gen_buf(Rng &r, Program &p, Config &c) {
    c.leaks = true; c.liveness = true; c.step_cap = 2000000; c.p_adv = 0; c.heap_reuse = r.chance(0.3); c.malloc_fill = (int)r.range(0, 255);
    int n = (int)r.range(2, 4); p.params["threads"] = n; p.params["init"] = r.below(4); p.params["ctor"] = r.below(3); p.params["cap"] = r.range(0, 4);
    int mode = (int)r.below(4); long id = 1; double p2 = r.chance(0.5) ? 0 : 0.35;              // second buffer
    for (int t = 1; t <= n; t++) { int m = (int)r.range(1, n == 2 ? 7 : 5); for (int j = 0; j < m; j++) {
        int op; double x = r.below(1000) / 1000.0, pw = mode == 0 ? 0.5 : mode == 1 ? 0.85 : mode == 2 ? (t == 1 ? 0.95 : 0.15) : 0.5;
        if (x < pw) { if (r.chance(0.5)) op = (int)r.range(B_APPEND, B_APPSUB); else op = (int)r.range(B_INSERT, B_TRIM); if (r.chance(0.5) && op == B_SETLEN) op = B_REPLACE; }
        else op = r.chance(0.3) ? B_STR : (int)r.range(B_LENGTH, B_NEWSTR);
        if (r.chance(p2 * 0.5)) op = (int)r.range(B_COPY, B_NEWSEQ);
        if (r.chance(0.04)) op = (int)r.range(B_LASTFROM, B_APPCP);
        Op o{t, op, 0, id++, 0}; int buf = r.chance(p2) ? 1 : 0, lim = r.chance(0.5) ? 4 : r.chance(0.7) ? 16 : 40, X = (int)r.below(lim + 1), Y = r.chance(0.75) ? X + (int)r.below(lim + 1) : (int)r.below(lim + 1);
        switch (op) {
        case B_APPN: case B_INSN: o.c = r.below(5); break; case B_ENSURE: o.b = r.range(-1, 70); break;
        case B_APPSUB: X = (int)r.below(6); Y = X + (int)r.below(5); break; case B_INSSUB: Y = (int)r.below(5); o.c = r.below(6); break;
        case B_INDEX: case B_INDEX2: case B_LAST: case B_LASTFROM: o.b = r.range(1, 20); break; case B_ASSIGN: case B_APPBUF: case B_APPSEQ: case B_INSSEQ: case B_APPSEQSUB: o.c = r.chance(0.2); break;
        }
        o.a = b_pack(buf, X, Y); p.ops.push_back(o);
    } }
}
SCENARIO("C09", buffer, gen_buf, run_buf);
