// Oracle for identifiers: uniqueness over all processes and lives, layout, time stamps.
#include "rt_internal.h"
#include <stdio.h>
#include <string.h>
#include <set>
using namespace sim;
static std::string dump() { std::string all; for (auto &e : history()) if (e.done) { char b[160]; long l; memcpy(&l, e.s.data(), 8); snprintf(b, sizeof b, "\n  [%lu..%ld] process %d thread %d: %016lx-%016lx", e.inv, (long)e.ret, T[e.thread].proc, e.thread, e.r, l); all += b; } return all; }
void chk_uuid(const Program &p, bool timed) {
    Guard g; std::map<std::pair<uint64_t, uint64_t>, const Event *> seen; std::map<int, uint64_t> last; uint64_t cov = 1469598103934665603ull; bool gone = false;
    for (auto &e : history()) {
        if (!e.done) { gone = true; continue; }
        uint64_t m = (uint64_t)e.r, l; long after; memcpy(&l, e.s.data(), 8); long v[2]; memcpy(&after, e.s.data() + 8, 8); memcpy(v, e.s.data() + 16, 16); char want[64]; const char *t = want;
        snprintf(want, sizeof want, "%08lx-%04lx-%04lx-%04lx-%012lx", m >> 32, m >> 16 & 0xffff, m & 0xffff, l >> 48, l & 0xffffffffffffull);
        if (e.s.size() > 32 && strcmp(want, e.s.c_str() + 32)) fail("wrong-text", "the identifier %s prints as %s", want, e.s.c_str() + 32);
        int ver = (int)(m >> 12 & 15); if (ver != (timed ? 1 : 4) || v[0] != ver) fail("wrong-version", "%s has version %d (reported %ld)", t, ver, v[0]);
        if (l >> 62 != 2 || v[1] != 2) fail("wrong-variant", "%s has variant bits %lu (reported %ld)", t, l >> 62, v[1]);
        auto i = seen.insert({{m, l}, &e}); if (!i.second) fail("duplicate", "the identifier %s was handed out twice:%s", t, dump().c_str());
        if (timed) {
            if (!(l >> 40 & 1)) fail("wrong-node", "%s: a made-up node number without the multicast bit", t);
            uint64_t ts = (m & 0xfff) << 48 | (m >> 16 & 0xffff) << 32 | m >> 32; long unix100 = (long)(ts - 0x01B21DD213814000ull);
            if (!p.get("jumps") && !p.get("back")) { if (unix100 / 10 < e.c / 1000 || unix100 / 10 > after / 1000) fail("wrong-time", "%s carries the time %ld00 ns, asked for between %ld and %ld", t, unix100, e.c, after); }
            if (!p.get("back")) { auto j = last.find(e.thread); if (j != last.end() && ts <= j->second) fail("time-not-increasing", "thread %d got a time stamp not later than its previous one:%s", e.thread, dump().c_str()); last[e.thread] = ts; }
        }
        cov = (cov ^ (l >> 48) ^ (uint64_t)(e.thread << 20) ^ (timed ? m >> 32 : 0)) * 1099511628211ull;
    }
    if (gone) probe("call cut off by a crash"); cover(cov);
}
