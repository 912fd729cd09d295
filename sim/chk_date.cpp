// Oracle for Date, SimpleDateFormat and TimeZone: the calendar of the C library in the zone that applies, computed apart from the code under test.
#include "rt_internal.h"
#include "scen/datemodel.h"
#include <stdlib.h>
#include <string.h>
#include <time.h>
using namespace sim;
static const char *ptz; static char ptz_buf[80];
static const char *process_zones[] = {nullptr, "EST5EDT,M3.2.0,M11.1.0", "JST-9", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45", "Australia/Sydney", "", "UTC0"};
static const char *format_zones[] = {"UTC", "", "Asia/Tokyo", "EST5EDT,M3.2.0,M11.1.0", "America/New_York", "XYZ-3:30", "Europe/Paris", "Asia/Ho_Chi_Minh"};
static const char *patterns[] = {"%Y-%m-%dT%T%z", "%a %b %d %T %Z %Y", "%H:%M", "%j %U %I %p", "%d/%m/%y %H h", "%s", "%c", "%F %T %Z",
    "", "%p", "   %H   ", "100%%", "%A the %dth of %B in the year %Y, at %H hours, %M minutes and %S seconds, in the zone %Z (%z)", "%c %c %c %c", "%c|%c|%c|%c|%c|%c|%c|%c|%c|%c|%c|%c|%c|%c|%c|%c", "%Y: a text that is exactly as long as the buffer was is not to be lost, ever %H:%M"};
const char *date_zone(int z) { return format_zones[z & 7]; }
const char *date_pattern(int p) { return patterns[p & 15]; }
long pack_fields(int y, int mo, int d, int h, int mi, int s) { long r = 0; int v[6] = {y, mo, d, h, mi, s}; for (int x : v) r = r * 512 + (x + 128); return r; }
void unpack_fields(long p, int *f) { for (int i = 5; i >= 0; i--) { f[i] = (int)(p % 512) - 128; p /= 512; if (p < 0) p = 0; } }
static struct tm at(long t) { struct tm x; time_t q = t; memset(&x, 0, sizeof x); with_tz(ptz, [&] { localtime_r(&q, &x); }); return x; }
static struct tm at_gm(long t) { struct tm x; time_t q = t; gmtime_r(&q, &x); return x; }
static void normal(int *f) { struct tm x; memset(&x, 0, sizeof x); x.tm_year = f[0]; x.tm_mon = f[1]; x.tm_mday = f[2]; x.tm_hour = f[3]; x.tm_min = f[4]; x.tm_sec = f[5]; timegm(&x); f[0] = x.tm_year; f[1] = x.tm_mon; f[2] = x.tm_mday; f[3] = x.tm_hour; f[4] = x.tm_min; f[5] = x.tm_sec; }
static bool same(const struct tm &x, const int *f) { return x.tm_year == f[0] && x.tm_mon == f[1] && x.tm_mday == f[2] && x.tm_hour == f[3] && x.tm_min == f[4] && x.tm_sec == f[5]; }
static long seconds(const int *f) { struct tm x; memset(&x, 0, sizeof x); x.tm_year = f[0]; x.tm_mon = f[1]; x.tm_mday = f[2]; x.tm_hour = f[3]; x.tm_min = f[4]; x.tm_sec = f[5]; return timegm(&x); }
static bool exists(const int *f) { long u = seconds(f); for (long o = -15 * 3600; o <= 15 * 3600; o += 900) if (same(at(u + o), f)) return true; return false; }   // false: skipped by a change to summer time
static void by_stamp(DateModel &m, long t) { m.by_fields = false; m.t = t; memset(m.f, 0, sizeof m.f); }
void date_zone_setup(int z) { Guard g; ptz = process_zones[z & 7]; if (ptz) { strcpy(ptz_buf, ptz); ptz = ptz_buf; setenv("TZ", ptz, 1); } else unsetenv("TZ"); tzset(); zone_is(ptz); }
void date_warm(int z) { Guard g; std::string keep = ptz ? ptz : ""; setenv("TZ", format_zones[z & 7], 1); tzset(); struct tm x; time_t t = 0; localtime_r(&t, &x); if (ptz) setenv("TZ", keep.c_str(), 1); else unsetenv("TZ"); tzset(); }
void model_now(DateModel &m, long got, long t0, long t1) { Guard g; long a = t0 / 1000000000, b = t1 / 1000000000; if (got % 1000 || got / 1000 < a || got / 1000 > b) { cur->rt = 0; fail("now", "Date() gave the moment %ld ms, but the clock went from %ld to %ld s", got, a, b); } by_stamp(m, got / 1000); }
void model_stamp(DateModel &m, long t) { Guard g; by_stamp(m, t); }
void model_fields(DateModel &m, const int *f) { Guard g; m.by_fields = true; memcpy(m.f, f, sizeof m.f); normal(m.f); m.t = 0; }
void model_set(DateModel &m, int k, int v) { Guard g; struct tm x = at(m.t); int f[6] = {x.tm_year, x.tm_mon, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec}; f[k] = v; m.by_fields = true; memcpy(m.f, f, sizeof f); normal(m.f); }
void model_forget() {}
void model_century(DateModel &m, int y) { if (m.by_fields && (y == m.f[0] + 100 || y == m.f[0] - 100)) m.f[0] = y; }   // the clock jumped meanwhile: a two-digit year may mean either
static int clampi(int v, int a, int b) { return v < a ? a : v > b ? b : v; }
void model_parse(DateModel &m, long packed, long how, char *text) {
    Guard g; static const char *mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    static const char *longmon[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    int f[6]; unpack_fields(packed, f); f[1] = clampi(f[1], 0, 11); f[2] = clampi(f[2], 1, 28); f[3] = clampi(f[3], 0, 23); f[4] = clampi(f[4], 0, 59); f[5] = clampi(f[5], 0, 59);
    int y = f[0] + 1900; m.by_fields = true; memcpy(m.f, f, sizeof f); m.t = 0; int form = (int)(how & 7);
    long now = real_ns() / 1000000000; if (form == 3 && at(now - 3600).tm_year != at(now + 3600).tm_year) form = 0;
    switch (form) {
    case 0: snprintf(text, 80, "%s %d %d %02d:%02d:%02d", mon[f[1]], f[2], y, f[3], f[4], f[5]); break;
    case 1: snprintf(text, 80, "%d %s %d %02d:%02d:%02d GMT", f[2], mon[f[1]], y, f[3], f[4], f[5]); by_stamp(m, seconds(f)); break;
    case 2: { int oh = (int)(how >> 3 & 3) * 3 + 1, om = how & 32 ? 30 : 0; bool west = how & 8;
        snprintf(text, 80, "Monday, %s %d, %d %02d:%02d:%02d UTC %c%02d%02d", longmon[f[1]], f[2], y, f[3], f[4], f[5], west ? '-' : '+', oh, om); by_stamp(m, seconds(f) + (west ? 1 : -1) * (oh * 3600 + om * 60)); break; }
    case 3: { int two = (int)((unsigned)(f[5] * 60 + f[4]) % 100), lo = at(now).tm_year + 1900 - 80; f[0] = lo - lo % 100 + two; if (f[0] < lo) f[0] += 100; f[0] -= 1900; memcpy(m.f, f, sizeof f); snprintf(text, 80, "%02d/%02d/%02d %02d:%02d:%02d", f[1] + 1, f[2], two, f[3], f[4], f[5]); break; }
    case 4: f[3] = f[4] = f[5] = 0; memcpy(m.f, f, sizeof f); snprintf(text, 80, "%02d/%02d/%d", f[1] + 1, f[2], y); break;
    case 5: f[5] = 0; memcpy(m.f, f, sizeof f); snprintf(text, 80, "%s %d, %d %d:%02d %s", longmon[f[1]], f[2], y, f[3] % 12 ? f[3] % 12 : 12, f[4], f[3] >= 12 ? "PM" : "AM"); break;
    case 6: snprintf(text, 80, "%s (ignored) %d %d %02d:%02d:%02d EST", mon[f[1]], f[2], y, f[3], f[4], f[5]); by_stamp(m, seconds(f) + 5 * 3600); break;
    default: snprintf(text, 80, "%s, %d %s %d %02d:%02d:%02d PDT", "Mon", f[2], mon[f[1]], y, f[3], f[4], f[5]); by_stamp(m, seconds(f) + 7 * 3600); break;
    }
}
static std::string shape(const int *f) { char b[80]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", f[0] + 1900, f[1] + 1, f[2], f[3], f[4], f[5]); return b; }
static void bad(const char *cls, const char *fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); cur->rt = 0; fail(cls, "%s (process zone %s)", b, ptz ? ptz : "unset"); }
void chk_date(DateModel &m, const DateView &v, const char *after) {
    Guard g; static const char *cls = "wrong-date";
    if (m.by_fields) {
        if (v.time % 1000) bad(cls, "after %s getTime is %ld, not a whole second", after, v.time);
        long t = v.time / 1000; struct tm x = at(t);
        if (!same(x, m.f)) { if (exists(m.f)) { int got[6] = {x.tm_year, x.tm_mon, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec}; bad(cls, "after %s a Date set to %s has the moment %ld, which is %s", after, shape(m.f).c_str(), v.time, shape(got).c_str()); }
            long d = t - (seconds(m.f) - x.tm_gmtoff); if (d > 7200 || d < -7200) bad(cls, "after %s a Date set to the skipped local time %s has the moment %ld", after, shape(m.f).c_str(), v.time); probe("skipped-hour"); }
        by_stamp(m, t);
    }
    if (v.time != m.t * 1000) bad(cls, "after %s getTime of a Date is %ld; it was given %ld", after, v.time, m.t * 1000);
    struct tm x = at(m.t); int want[6] = {x.tm_year, x.tm_mon, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec};
    if (memcmp(want, v.f, sizeof want)) bad(cls, "after %s the fields of the Date of moment %ld are %s, must be %s", after, m.t * 1000, shape(v.f).c_str(), shape(want).c_str());
    if (v.wday != x.tm_wday) bad(cls, "after %s getDay of the Date of moment %ld is %d, must be %d", after, m.t * 1000, v.wday, x.tm_wday);
    if (v.offset != (int)-(x.tm_gmtoff / 60)) bad(cls, "after %s getTimezoneOffset of the Date of moment %ld is %d, must be %d", after, m.t * 1000, v.offset, (int)-(x.tm_gmtoff / 60));
    char b[80]; strftime(b, sizeof b, "%a %b %d %T %Z %Y", &x); if (strcmp(b, v.text)) bad(cls, "after %s toString of the Date of moment %ld is '%s', must be '%s'", after, m.t * 1000, v.text, b);
    strftime(b, sizeof b, "%b %d, %Y %I:%M:%S %p", &x); if (strcmp(b, v.locale)) bad(cls, "after %s toLocaleString of the Date of moment %ld is '%s', must be '%s'", after, m.t * 1000, v.locale, b);
    struct tm u = at_gm(m.t); strftime(b, sizeof b, "%d %b %Y %T GMT", &u); if (strcmp(b, v.gmt)) bad(cls, "after %s toGMTString of the Date of moment %ld is '%s', must be '%s'", after, m.t * 1000, v.gmt, b);
    if (x.tm_isdst > 0) probe("summer-time"); if (!x.tm_isdst && at(m.t - 3600).tm_isdst > 0 && at(m.t - 3600).tm_hour == x.tm_hour) probe("repeated-hour");
    cover((uint64_t)m.t);
}
void chk_order(const DateModel &a, const DateModel &b, int cmp, bool before, bool after, bool equals, bool same, bool hash) {
    Guard g; int want = a.t < b.t ? -1 : a.t > b.t;
    if ((cmp > 0) - (cmp < 0) != want || before != (want < 0) || after != (want > 0) || equals != (want == 0)) bad("wrong-order", "comparing the moments %ld and %ld: compareTo %d before %d after %d equals %d", a.t, b.t, cmp, before, after, equals);
    if (same != (want == 0) || (same && !hash)) bad("wrong-order", "the moments %ld and %ld: as objects they are %s, their hash codes %s", a.t, b.t, same ? "equal" : "different", hash ? "agree" : "differ");
}
void chk_format(long t, int zone, int pattern, const char *got) {
    Guard g; char b[1024] = ""; time_t q = t; with_tz(format_zones[zone & 7], [&] { struct tm x; localtime_r(&q, &x); if (!strftime(b, sizeof b, patterns[pattern & 15], &x)) *b = 0; });
    { char *e = b + strlen(b), *a = b; while (e > b && e[-1] == ' ') *--e = 0; while (*a == ' ') a++; memmove(b, a, strlen(a) + 1); if (strlen(b) > 79) probe("long text"); }   // format removes the blanks around the text
    if (strcmp(b, got)) bad("wrong-format", "format of moment %ld with '%s' in zone '%s' gave '%s', must be '%s'", t * 1000, patterns[pattern & 15], format_zones[zone & 7], got, b);
    cover((uint64_t)t * 128 + zone * 16 + pattern);
}
void chk_zone_unchanged() {
    Guard g; for (long t : {1000000000l, 1562000000l, 1580000000l}) { time_t q = t; struct tm x, w = at(t); localtime_r(&q, &x);
        if (x.tm_gmtoff != w.tm_gmtoff || strcmp(x.tm_zone, w.tm_zone)) bad("zone-changed", "the C library of the process is left in zone %s (UTC%+ld s) instead of %s (UTC%+ld s)", x.tm_zone, (long)x.tm_gmtoff, w.tm_zone, (long)w.tm_gmtoff); }
}
