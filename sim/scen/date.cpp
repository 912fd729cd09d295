// uses: chk_date
// C13, C14: Date, SimpleDateFormat, TimeZone.
#include "simrt.h"
#include "datemodel.h"
#include <atomic>
#include <string.h>
#include <stdlib.h>
#include "library/Java/Util/Date/Date.hpp"
#include "library/Java/Util/TimeZone/TimeZone.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
using namespace sim;
using Java::Util::Date; using Java::Util::TimeZone; using Java::Text::SimpleDateFormat;
enum { NOW, FIELDS, STAMP, PARSE, COPY, ASSIGN, SET, DROP, CLONE, SETTIME, JUMP, FORMAT, SHARED };
static const int SLOTS = 3; static std::atomic<long> jumps;   // wall-clock jumps by the program itself
static std::atomic<int> formatting;  // format calls under way
static void read(const Date &d, DateView &v) {
    v.f[0] = d.getYear(); v.f[1] = d.getMonth(); v.f[2] = d.getDate(); v.f[3] = d.getHours(); v.f[4] = d.getMinutes(); v.f[5] = d.getSeconds(); v.wday = d.getDay(); v.offset = d.getTimezoneOffset(); v.time = d.getTime();
    auto put = [](char *to, String s) { strncpy(to, s.toCharPointer(), 79); to[79] = 0; };
    put(v.text, d.toString()); put(v.locale, d.toLocaleString()); put(v.gmt, d.toGMTString());
}
struct Mine {
    Date *d[SLOTS]; DateModel m[SLOTS];
    Mine() { for (int i = 0; i < SLOTS; i++) d[i] = nullptr; }
    ~Mine() { for (int i = 0; i < SLOTS; i++) delete d[i]; }
    void put(int i, Date *n) { delete d[i]; d[i] = n; }
    void verify(const char *after) {
        DateView v; for (int i = 0; i < SLOTS; i++) if (d[i]) { read(*d[i], v); chk_date(m[i], v, after); }
        for (int i = 0; i < SLOTS; i++) for (int j = 0; j < SLOTS; j++) if (d[i] && d[j]) chk_order(m[i], m[j], d[i]->compareTo(*d[j]), d[i]->before(*d[j]), d[i]->after(*d[j]), d[i]->equals(*d[j]), *(Java::Lang::Object *)d[i] == *(Java::Lang::Object *)d[j], d[i]->hashCode() == d[j]->hashCode());
    }
};
static void step(Mine &x, const Op &o, const Program &p, const Date *shared) {
    int i = (int)(o.a & 3) % SLOTS, j = (int)(o.a >> 2 & 3) % SLOTS; int f[6]; unpack_fields(o.b, f);
    switch (o.op) {
    case NOW: { long j0 = jumps.load(std::memory_order_relaxed), t0 = real_ns(); Date *n = new Date(); long t1 = real_ns(), j1 = jumps.load(std::memory_order_relaxed); x.put(i, n); if (j0 == j1 && j0 % 2 == 0) model_now(x.m[i], n->getTime(), t0, t1); else model_stamp(x.m[i], n->getTime() / 1000); break; }
    case FIELDS: x.put(i, new Date(f[0], f[1], f[2], f[3], f[4], f[5])); model_fields(x.m[i], f); break;
    case STAMP: x.put(i, new Date(o.b * 1000 + o.c)); model_stamp(x.m[i], o.b); break;
    case PARSE: { char b[80]; long j0 = jumps.load(std::memory_order_relaxed); model_parse(x.m[i], o.b, o.c, b); Date *n = o.c & 64 ? new Date(Date::parse(String(b))) : new Date(String(b)); x.put(i, n); if (j0 % 2 || j0 != jumps.load(std::memory_order_relaxed)) model_century(x.m[i], n->getYear()); if (o.c & 64) probe("parsed"); break; }
    case COPY: if (x.d[j] && i != j) { x.put(i, new Date(*x.d[j])); x.m[i] = x.m[j]; } break;
    case CLONE: if (x.d[j]) { Date c = x.d[j]->clone(); if (x.d[i]) *x.d[i] = c; else x.d[i] = new Date(c); x.m[i] = x.m[j]; } break;
    case ASSIGN: if (x.d[i] && x.d[j]) { *x.d[i] = *x.d[j]; x.m[i] = x.m[j]; } break;
    case SETTIME: if (x.d[i]) { x.d[i]->setTime(o.b * 1000); model_stamp(x.m[i], o.b); } break;
    case SET: if (x.d[i]) { int k = (int)(o.c % 6), v = f[k]; Date &d = *x.d[i]; model_set(x.m[i], k, v);
        if (k == 0) d.setYear(v); else if (k == 1) d.setMonth(v); else if (k == 2) d.setDate(v); else if (k == 3) d.setHours(v); else if (k == 4) d.setMinutes(v); else d.setSeconds(v); } break;
    case DROP: x.put(i, nullptr); break;
    case JUMP: no_preempt(1); jumps.fetch_add(1, std::memory_order_relaxed); set_real_ns(real_ns() + o.b); jumps.fetch_add(1, std::memory_order_relaxed); no_preempt(-1); break;
    case SHARED: if (shared) { DateView v; read(*shared, v); DateModel m; model_stamp(m, p.get("shared")); chk_date(m, v, "reading a shared date"); } break;
    case FORMAT: {
        // The texts the formatter is made from live no longer than they must: what it was given is its own from then on
        int z = (int)(o.a & 7), pat = (int)(o.a >> 3 & 15); const char *text = date_pattern(pat); char *lent = strdup(text); SimpleDateFormat *q = o.c & 1 ? new SimpleDateFormat(String(lent)) : new SimpleDateFormat(lent); memset(lent, '?', strlen(lent)); free(lent);
        if (z && o.c & 8) q->setTimeZone(TimeZone::getTimeZone(date_zone((int)(o.b & 7))));
        if (z) { char *id = strdup(date_zone(z)); if (o.c & 2) { TimeZone tz; tz.setID(id); q->setTimeZone(tz); tz.setID("Asia/Tokyo"); } else { q->setTimeZone(TimeZone::getTimeZone(id)); } memset(id, '?', strlen(id)); free(id); }
        if (o.c & 16) { SimpleDateFormat *n = new SimpleDateFormat(*q); q->setTimeZone(TimeZone::getTimeZone("Asia/Tokyo")); delete q; q = n; probe("copied a formatter"); }
        Date d(o.b * 1000); int reps = o.c & 4 ? 2 : 1; while (reps--) { formatting.fetch_add(1, std::memory_order_relaxed); String s = q->format(d); no_preempt(1); if (formatting.fetch_sub(1, std::memory_order_relaxed) == 1) { chk_zone_unchanged(); probe("looked at the zone after a format"); } no_preempt(-1); chk_format(o.b, z, pat, s.toCharPointer()); }
        DateView v; read(d, v); DateModel m; model_stamp(m, o.b); chk_date(m, v, "formatting it"); delete q; break; }
    }
}
static const char *opname(int op) { static const char *n[] = {"Date()", "Date(fields)", "Date(stamp)", "Date(text)", "copy", "assignment", "setter", "destruction", "clone", "setTime", "clock jump", "format", "shared read"}; return n[op]; }
static void client(const Program *p, int t, const Date *shared) { Mine x; for (const Op &o : p->ops) if (o.t == t) { step(x, o, *p, shared); x.verify(opname(o.op)); } }
static void run_dates(const Program &p) {
    jumps.store(0); formatting.store(0); date_zone_setup((int)p.get("zone")); for (const Op &o : p.ops) if (o.op == FORMAT) date_warm((int)(o.a & 7));
    { SimpleDateFormat w("%Y"); for (const Op &o : p.ops) if (o.op == FORMAT) { w.setTimeZone(TimeZone::getTimeZone(date_zone((int)(o.a & 7)))); w.format(Date(0)); } Date a(0), b(2000, 1, 1); a.toGMTString(); b.toLocaleString(); model_forget(); }
    std::map<std::string, std::string> before, after; env_snapshot(before); HeapMark hm = heap_mark();
    { Date shared(p.get("shared") * 1000); std::vector<int> ids; for (int t = 1; t <= p.get("threads"); t++) ids.push_back(spawn([&p, t, &shared] { client(&p, t, &shared); }));
      for (int i : ids) join(i); DateView v; read(shared, v); DateModel m; model_stamp(m, p.get("shared")); chk_date(m, v, "all threads ended"); }
    env_snapshot(after); if (before != after) { std::string d; for (auto &e : before) { auto k = after.find(e.first); if (k == after.end()) d += " -" + e.first; else if (k->second != e.second) d += " " + e.first + "=" + k->second; } for (auto &e : after) if (!before.count(e.first)) d += " +" + e.first; fail("environment-changed", "the environment differs afterwards:%s", d.c_str()); }
    { std::string what; long l = heap_leaked(hm, &what); if (l) fail("leak", "%ld blocks leaked: %s", l, what.c_str()); }
    chk_zone_unchanged();
}
static void base(Rng &r, Program &p, Config &c) {
    c.leaks = true; c.liveness = true; c.step_cap = 2000000; c.malloc_fill = (int)r.range(0, 255); c.heap_reuse = r.chance(0.5); c.clock_tick_ns = r.chance(0.5) ? 100 : r.range(1000000, 1500000000); c.p_adv = 0; c.rate[F_CASWEAK] = 0.1;
    p.params["zone"] = r.range(0, 7); p.params["shared"] = r.range(0, 2000000000); p.params["threads"] = r.range(1, 4);
}
static long moment(Rng &r, long zone) {                                            // often close to the end of summer time, where an hour comes twice
    if (!r.chance(0.25) || (zone != 1 && zone != 3)) return r.range(1, 2100000000);
    struct tm x = {}; x.tm_year = (int)r.range(108, 135); x.tm_mon = zone == 1 ? 10 : 9; x.tm_mday = zone == 1 ? 1 : 25; x.tm_hour = zone == 1 ? 6 : 1; long t = timegm(&x); while (((t / 86400) + 4) % 7) t += 86400; return t + r.range(-3700, 3700);
}
static long fields(Rng &r) { if (r.chance(0.25)) return pack_fields((int)r.range(71, 137), r.chance(0.5) ? 2 : (int)r.range(9, 10), (int)r.range(1, 31), (int)r.range(0, 3), (int)r.range(0, 59), (int)r.range(0, 59)); return pack_fields((int)r.range(71, 137), (int)(r.chance(0.1) ? r.range(-3, 20) : r.range(0, 11)), (int)(r.chance(0.1) ? r.range(-5, 60) : r.range(1, 28)), (int)(r.chance(0.1) ? r.range(-5, 40) : r.range(0, 23)), (int)(r.chance(0.1) ? r.range(-9, 90) : r.range(0, 59)), (int)(r.chance(0.1) ? r.range(-9, 90) : r.range(0, 59))); }
static Op date_op(Rng &r, int t, int k, long zone) { return Op{t, k, (long)r.below(16), k == STAMP || k == SETTIME ? moment(r, zone) : k == JUMP ? (long)(r.chance(0.5) ? -1 : 1) * (long)(r.below(400) * 86400) * 1000000000l : fields(r), (long)(k == PARSE ? r.below(128) : k == STAMP ? r.below(1000) : r.below(6))}; }
static void gen_dates(Rng &r, Program &p, Config &c) {
    base(r, p, c); 
    for (int t = 1; t <= p.params["threads"]; t++) { int m = (int)r.range(1, 7); for (int j = 0; j < m; j++) { int k = (int)r.range(NOW, JUMP); if (r.chance(0.1)) k = SHARED; if (j < 2 && k > PARSE) k = (int)r.range(NOW, PARSE); if (k == JUMP && r.chance(0.5)) k = SET; p.ops.push_back(date_op(r, t, k, p.params["zone"])); } }
}
SCENARIO("C13", dates, gen_dates, run_dates);
static void gen_format(Rng &r, Program &p, Config &c) {
    base(r, p, c); 
    for (int t = 1; t <= p.params["threads"]; t++) { int m = (int)r.range(1, 4); for (int j = 0; j < m; j++) { if (r.chance(0.65)) p.ops.push_back(Op{t, FORMAT, (long)r.below(128), moment(r, p.params["zone"]), (long)r.below(32)}); else { int k = r.chance(0.2) ? SHARED : (int)r.range(NOW, SETTIME); p.ops.push_back(date_op(r, t, k, p.params["zone"])); } } }
}
SCENARIO("C14", formatting, gen_format, run_dates);
