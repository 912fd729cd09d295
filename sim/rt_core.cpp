// Scheduler, happens-before race detection, instrumentation callbacks.
#include "rt_internal.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <errno.h>
#include <signal.h>

extern "C" { extern char __data_start, _end; extern int __cxa_thread_atexit_impl(void (*)(void *), void *, void *); extern void *__dso_handle; }

namespace sim {
const char *site_names[F_NSITES] = {"spurious_wakeup","weak_cas_failure","thread_create_failure","malloc_failure","sleep_interrupted","sem_wait_interrupted","clock_jump",
    "open_failure","short_read","read_interrupted","read_failure","short_write","write_failure","flock_interrupted","fdopen_failure",
    "notify_any_waiter","time_warp","process_crash","callback_throws","truncate_failure","console_failure","leftover_memory"};
Thread T[MAXT]; int nT; Thread *cur; Shm *shm; Config cfg; bool g_faults = true;
uint64_t g_now; int64_t g_real_off;
static uint64_t g_hash, g_order, g_total, g_wseq, g_stamp;
static Rng r_sched, r_fault;
static bool g_replay; static double g_weight[MAXT];
static int strat; static double p_conf, p_sync; static long mean_gap, slice_cap; static bool use_conf;
static uint64_t pct_points[8]; static int pct_n; static long pct_low;
static std::vector<Sw> *rp_sw[MAXT]; static size_t rp_pos[MAXT];
static std::map<uint64_t, int> *rp_fl;
static uint64_t site_n[F_NSITES];
static uint64_t fair_from; static bool g_fair; static uint64_t alone_mark[MAXT];

Config &config() { return cfg; }
void hash_ev(uint64_t v) { g_hash ^= v + 0x9E3779B97F4A7C15ull + (g_hash << 6) + (g_hash >> 2); g_hash *= 0xff51afd7ed558ccdull; g_hash ^= g_hash >> 29; }
static inline void order_ev(uint64_t v) { g_order = (g_order ^ v) * 0x100000001b3ull; g_order ^= g_order >> 31; }
void observe(uint64_t v) { Guard g; hash_ev(v); }
uint64_t stamp() { return ++g_stamp; }

// ------------------------------------------------------------------ verdicts
static void finalize() {
    uint64_t tot = 0; for (int i = 0; i < nT; i++) tot += T[i].steps;
    for (int i = 0; i < nT; i++) { hash_ev(T[i].steps); }
    hash_ev(g_now);
    shm->hash = g_hash; shm->order_hash = g_order; shm->steps = tot; shm->simns = g_now; shm->nthreads = nT;
}
void run_finished() { cur->rt++; finalize(); shm->done = 1; raw_syscall(SYS_exit_group, 0); }
void capture_stack(char *buf, size_t n, Thread *t) {
    size_t o = 0; buf[0] = 0; if (!t) return;
    int lo = t->sp > 14 ? t->sp - 14 : 0;
    for (int i = (t->sp > 255 ? 255 : t->sp) - 1; i >= lo && o + 16 < n; i--) o += snprintf(buf + o, n - o, " @%x", t->stk[i]);
}
void vviolation(const char *cls, const char *fmt, va_list ap) {
    if (cur) cur->rt++;
    if (!shm->done) {
        shm->done = 2;
        snprintf(shm->cls, sizeof shm->cls, "%s", cls);
        int o = vsnprintf(shm->msg, sizeof shm->msg - 2000, fmt, ap);
        if (o > (int)sizeof shm->msg - 2000) o = sizeof shm->msg - 2000;
        if (cur) { o += snprintf(shm->msg + o, sizeof shm->msg - o, "\n  thread %d stack:", cur->id); capture_stack(shm->msg + o, sizeof shm->msg - o, cur); }
        finalize();
    }
    raw_syscall(SYS_exit_group, 3);
    __builtin_unreachable();
}
void violation(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vviolation(cls, fmt, ap); }
void fail(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vviolation(cls, fmt, ap); }
void inconclusive(const char *why) { if (cur) cur->rt++; shm->truncated = 1; note("inconclusive: %s", why); finalize(); shm->done = 1; raw_syscall(SYS_exit_group, 0); __builtin_unreachable(); }
void probe(const char *name) {
    Guard g;
    for (int i = 0; i < shm->nprobe; i++) if (!strcmp(shm->probes[i].name, name)) { shm->probes[i].n++; return; }
    if (shm->nprobe < MAXPROBE) { snprintf(shm->probes[shm->nprobe].name, 48, "%s", name); shm->probes[shm->nprobe++].n = 1; }
}
void cover(uint64_t s) { Guard g; if (shm->ncov < MAXCOV) shm->cov[shm->ncov++] = s; }
void note(const char *fmt, ...) {
    Guard g; va_list ap; va_start(ap, fmt);
    if (shm->nnote < MAXNOTE - 600) { int k = vsnprintf(shm->notes + shm->nnote, 512, fmt, ap); if (k > 511) k = 511; shm->nnote += k; shm->notes[shm->nnote++] = '\n'; }
    va_end(ap);
}

// ------------------------------------------------------------------ sync variables (side table keyed by address)
static SyncVar **sv_tab; static size_t sv_cap = 1 << 16, sv_cnt; 
static SyncVar *sv_list;
uintptr_t proc_lo, proc_hi;                       // statics that belong to the simulated process of the running thread
static inline uintptr_t sv_key(uintptr_t a) { if (a - proc_lo < proc_hi - proc_lo && cur) return a ^ ((uintptr_t)(cur->proc + 1) << 52); return a; }
SyncVar *sv_find(uintptr_t a) {
    uintptr_t k = sv_key(a); size_t h = (k * 0x9E3779B97F4A7C15ull) >> 48;
    for (size_t i = h;; i = (i + 1) & (sv_cap - 1)) { if (!sv_tab[i]) return nullptr; if (sv_tab[i]->key == k) return sv_tab[i]; }
}
SyncVar *sv_get(uintptr_t a) {
    uintptr_t k = sv_key(a); size_t h = (k * 0x9E3779B97F4A7C15ull) >> 48;
    for (size_t i = h;; i = (i + 1) & (sv_cap - 1)) {
        if (!sv_tab[i]) {
            if (++sv_cnt > sv_cap * 3 / 4) inconclusive("sync table full");
            SyncVar *s = (SyncVar *)host_alloc(sizeof(SyncVar)); memset(s, 0, sizeof *s); s->key = k; s->owner = -1; s->lastrel = -1; s->next = sv_list; sv_list = s;
            return sv_tab[i] = s;
        }
        if (sv_tab[i]->key == k) return sv_tab[i];
    }
}
void sv_clear(SyncVar *s) { uintptr_t k = s->key; SyncVar *n = s->next; memset((void *)s, 0, sizeof *s); s->key = k; s->next = n; s->owner = -1; s->lastrel = -1; }
void sv_forget_range(uintptr_t lo, uintptr_t hi) { // memory reuse: forget the state of the old object
    if (hi - lo < sv_cnt) { for (uintptr_t a = lo; a < hi; a++) { SyncVar *s = sv_find(a); if (s) sv_clear(s); } return; }
    for (SyncVar *s = sv_list; s; s = s->next) if (s->key >= lo && s->key < hi) sv_clear(s);
}
void sv_forget_proc(int proc) { for (SyncVar *s = sv_list; s; s = s->next) if ((s->key >> 52) == (uintptr_t)(proc + 1)) sv_clear(s); }
static inline void vc_join(VC &a, const VC &b) { for (int i = 0; i < nT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void hb_acquire(SyncVar *s) { vc_join(cur->vc, s->rel); }
void hb_release(SyncVar *s) { vc_join(s->rel, cur->vc); s->lastrel = cur->id; cur->vc.c[cur->id]++; }

// ------------------------------------------------------------------ baton
static long futex(volatile int *a, int op, int v) { return raw_syscall(SYS_futex, (long)a, op, v); }
static void pass_to(Thread *t) { __atomic_store_n(&t->baton, 1, __ATOMIC_SEQ_CST); futex(&t->baton, FUTEX_WAKE_PRIVATE, 1); }
static void await(Thread *t) { while (!__atomic_load_n(&t->baton, __ATOMIC_SEQ_CST)) futex(&t->baton, FUTEX_WAIT_PRIVATE, 0); t->baton = 0; }
void statics_switch(int proc);
static void switch_to(Thread *t, bool wait_back) {
    Thread *me = cur;
    if (t == me) return;
    hash_ev(((uint64_t)me->id << 48) ^ ((uint64_t)t->id << 40) ^ me->steps);
    shm->nsw++;
    cur = t; t->last_switch_steps = t->steps; alone_mark[t->id] = 0;
    statics_switch(t->proc);
    pass_to(t);
    if (wait_back) await(me);
}
static void logsw(Thread *t, int kind, int val) {
    if (g_replay) return;
    if (shm->nlog >= MAXSW) { shm->log_overflow = true; return; }
    shm->log[shm->nlog++] = Sw{(uint16_t)t->id, (uint8_t)kind, 0, val, t->steps};
}
static bool fair_mode() { return g_fair; }
static void account(Thread *t);
static void set_next_stop(Thread *t) {
    uint64_t gap = 20000;
    if (fair_mode()) gap = 150;
    else if (g_replay) {
        auto &v = *rp_sw[t->id]; size_t &p = rp_pos[t->id];
        while (p < v.size() && v[p].kind == K_BLOCK) p++;
        if (p < v.size()) { uint64_t at = v[p].tstep; gap = at > t->steps ? at - t->steps : 1; if (gap > 20000) gap = 20000; }
    } else {
        gap = slice_cap;
        if (strat == 0 || strat == 4) { double u = (r_sched.next() >> 11) * (1.0 / 9007199254740992.0); uint64_t g = 1 + (uint64_t)(-__builtin_log(1 - u) * mean_gap); if (g < gap) gap = g; }
        if (strat == 2) { for (int i = 0; i < pct_n; i++) if (pct_points[i] > g_total) { uint64_t g = pct_points[i] - g_total; if (g < gap) gap = g; break; } }
    }
    if (!g_fair && g_total + gap > fair_from) gap = fair_from > g_total ? fair_from - g_total : 1;   // the change to fair mode happens at an exact step
    t->next_stop = t->steps + (gap ? gap : 1);
}
static uint64_t acc_base[MAXT];
static void account(Thread *t) {
    g_total += t->steps - acc_base[t->id]; acc_base[t->id] = t->steps;
    if (g_total >= fair_from) g_fair = true;
    if (g_total > (uint64_t)cfg.step_cap) {
        char b[4000]; size_t o = 0; b[0] = 0;
        for (int i = 0; i < nT && o < 3500; i++) { o += snprintf(b + o, sizeof b - o, "\n  thread %d (%s%s) steps %lu stack:", i, T[i].st == RUNNABLE ? "runnable" : T[i].st == BLOCKED ? "blocked: " : "ended", T[i].st == BLOCKED && T[i].what ? T[i].what : "", T[i].steps); capture_stack(b + o, 300, &T[i]); o += strlen(b + o); }
        if (cfg.liveness) violation("no-progress", "no progress within %ld steps, the second half of them fault-free and fairly scheduled%s", cfg.step_cap, b);
        inconclusive("step cap");
    }
}
static int runnable_others(Thread *t) { int k = 0; for (int i = 0; i < nT; i++) if (&T[i] != t && T[i].st == RUNNABLE) k++; return k; }
static Thread *pick_random(Thread *excl) {
    if (strat == 2) { Thread *b = nullptr; for (int i = 0; i < nT; i++) if (&T[i] != excl && T[i].st == RUNNABLE && (!b || T[i].prio > b->prio)) b = &T[i]; return b; }
    double tot = 0; for (int i = 0; i < nT; i++) if (&T[i] != excl && T[i].st == RUNNABLE) tot += g_weight[i];
    if (tot == 0) return nullptr;
    double u = (r_sched.next() >> 11) * (1.0 / 9007199254740992.0) * tot; Thread *l = nullptr;
    for (int i = 0; i < nT; i++) if (&T[i] != excl && T[i].st == RUNNABLE) { l = &T[i]; u -= g_weight[i]; if (u < 0) return l; }
    return l;
}
static Thread *pick_rr(Thread *from, bool self_ok) {
    for (int k = 1; k <= nT; k++) { Thread *c = &T[(from->id + k) % nT]; if (c->st == RUNNABLE && (self_ok || c != from)) return c; }
    return nullptr;
}
static bool next_deadline(uint64_t &d) { bool f = false; for (int i = 0; i < nT; i++) if (T[i].st == BLOCKED && T[i].timed && (!f || T[i].deadline < d)) { d = T[i].deadline; f = true; } return f; }
void wake(Thread *t) { t->st = RUNNABLE; t->timed = false; t->wait = nullptr; }
void wake_all(SyncVar *sv) { for (int i = 0; i < nT; i++) if (T[i].st == BLOCKED && T[i].wait == sv) wake(&T[i]); }
void set_now(uint64_t n) {
    if (n > g_now) g_now = n;
    for (int i = 0; i < nT; i++) if (T[i].st == BLOCKED && T[i].timed && T[i].deadline <= g_now) { T[i].timedout = true; wake(&T[i]); }
}
static void do_adv(Thread *t) { uint64_t d; if (next_deadline(d)) { set_now(d); hash_ev(0xADull ^ g_now); shm->fired[F_TIMEWARP]++; } }
static void preempt(Thread *t, Thread *to) { switch_to(to, true); }

static bool solo_child; static const uint64_t SOLO_STEPS = 20000000;
static void stop_point(Thread *t) {   // t->steps reached next_stop
    if (solo_child) raw_syscall(SYS_exit_group, 7);
    t->rt++;
    account(t);
    if (t->nopre) { t->next_stop = t->steps + 1; t->rt--; return; }
    if (!runnable_others(t)) alone_mark[t->id] = t->steps;
    uint64_t since = alone_mark[t->id] > t->last_switch_steps ? alone_mark[t->id] : t->last_switch_steps;
    if (fair_mode() || (g_replay && t->steps - since >= 60000)) {      // the second clause only ever applies to edited schedules
        Thread *c = pick_rr(t, false);
        if (c) preempt(t, c);
        set_next_stop(t); t->rt--; return;
    }
    if (g_replay) {
        auto &v = *rp_sw[t->id]; size_t &p = rp_pos[t->id]; Thread *to = nullptr;
        while (p < v.size() && (v[p].kind == K_BLOCK || v[p].tstep <= t->steps)) {
            if (v[p].kind != K_BLOCK && v[p].tstep <= t->steps) { Sw e = v[p]; p++; if (e.kind == K_ADV) do_adv(t); else { to = &T[e.val % (nT ? nT : 1)]; if (to != t && to->st == RUNNABLE) preempt(t, to); } }
            else p++;
        }
    } else {
        if (cfg.p_adv > 0 && r_sched.chance(cfg.p_adv)) { uint64_t d; if (next_deadline(d)) { logsw(t, K_ADV, 0); do_adv(t); } }
        bool want = true;
        if (strat == 2) { want = false; for (int i = 0; i < pct_n; i++) if (pct_points[i] && pct_points[i] <= g_total) { pct_points[i] = 0; t->prio = --pct_low; want = true; }
            if (t->steps - t->last_switch_steps >= (uint64_t)slice_cap) { t->prio = --pct_low; want = true; } 
            int j = 0; for (int i = 0; i < pct_n; i++) if (pct_points[i]) pct_points[j++] = pct_points[i]; pct_n = j; }
        Thread *to = want ? pick_random(t) : nullptr;
        if (to && strat == 2 && to->prio < t->prio) to = nullptr;
        if (to) { logsw(t, K_PREEMPT, to->id); preempt(t, to); }
    }
    set_next_stop(t);
    t->rt--;
}
static void maybe_preempt(Thread *t, double p) {    // record mode only: extra preemption opportunity at t->steps
    if (solo_child) return;
    if (g_replay || t->nopre || strat == 2 || fair_mode() || !r_sched.chance(p)) return;
    t->rt++; account(t);
    if (cfg.p_adv > 0 && r_sched.chance(cfg.p_adv)) { uint64_t d; if (next_deadline(d)) { logsw(t, K_ADV, 0); do_adv(t); } }
    Thread *to = pick_random(t);
    if (to) { logsw(t, K_PREEMPT, to->id); preempt(t, to); set_next_stop(t); }
    t->rt--;
}
void scribble(int pattern) { volatile char b[49152]; memset((void *)b, pattern, sizeof b); __asm__ volatile("" :: "r"(b) : "memory"); }
bool solo(const std::function<void(std::string &)> &f, std::string &out, const SoloEnv *env) {
    static auto real_fork = (pid_t (*)())real_sym("fork"); const size_t N = 1 << 22; char *m; pid_t c; int st = 0;
    { Guard g; m = (char *)mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); c = m == MAP_FAILED ? -1 : real_fork(); }
    if (!c) {
        { Guard g; mmap((void *)shm, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); solo_child = true; if (env) { cfg.malloc_fill = env->fill; cfg.heap_reuse = env->reuse; g_now += env->later_ns; heap_shift(env->shift); } cur->next_stop = cur->steps + SOLO_STEPS; struct itimerval it = {{0, 0}, {10, 0}}; setitimer(ITIMER_PROF, &it, nullptr); alarm(100); }
        std::string r; f(r); { Guard g; size_t n = r.size() < N - 8 ? r.size() : N - 8; *(size_t *)m = n; memcpy(m + 8, r.data(), n); } raw_syscall(SYS_exit_group, 0);
    }
    Guard g; while (c > 0 && raw_syscall(SYS_wait4, c, (long)&st, 0, 0) == -EINTR) ; if (m == MAP_FAILED || c < 0 || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) inconclusive("the machine ran out of memory"); bool ok = WIFEXITED(st) && !WEXITSTATUS(st);
    if (env) { shm->oppo[F_LEFTOVER]++; shm->fired[F_LEFTOVER]++; order_ev(((uint64_t)env->fill << 32) ^ env->shift); if (ok) { uint64_t h = 0; const char *d = m + 8; for (size_t i = 0, n = *(size_t *)m; i < n; i++) h = h * 1099511628211ull + (unsigned char)d[i]; order_ev(h); } }
    if (ok) out.assign(m + 8, *(size_t *)m); munmap(m, N); return ok;
}
void sync_point(int kind) {
    Thread *t = cur;
    t->steps++;
    order_ev(((uint64_t)t->id << 8) | kind); hash_ev(((uint64_t)kind << 56) ^ ((uint64_t)t->id << 48) ^ t->steps);
    if (t->steps >= t->next_stop) stop_point(t); else maybe_preempt(t, p_sync);
}
static void deadlock() {
    char b[6000]; size_t o = 0; b[0] = 0;
    for (int i = 0; i < nT && o < 5000; i++) if (T[i].st == BLOCKED) { o += snprintf(b + o, sizeof b - o, "\n  thread %d waits for %s, stack:", i, T[i].what); capture_stack(b + o, 300, &T[i]); o += strlen(b + o); }
    if (cfg.liveness) violation("deadlock", "every remaining thread is blocked for ever%s", b);
    inconclusive("deadlock");
}
static Thread *choose_next(Thread *t) {             // t cannot go on
    for (;;) {
        int n = 0; for (int i = 0; i < nT; i++) if (T[i].st == RUNNABLE) n++;
        if (n) {
            Thread *to = nullptr;
            if (g_replay) {
                auto &v = *rp_sw[t->id];
                for (auto &e : v) if (e.kind == K_BLOCK && e.tstep == t->steps) { to = &T[e.val % nT]; break; }
                if (!to || to->st != RUNNABLE) to = pick_rr(t, true);
            } else if (fair_mode()) to = pick_rr(t, true);
            else to = n == 1 ? pick_rr(t, true) : pick_random(nullptr);
            if (n > 1 && !fair_mode()) logsw(t, K_BLOCK, to->id);
            return to;
        }
        uint64_t d; if (!next_deadline(d)) deadlock();
        set_now(d); hash_ev(0xDDull ^ g_now);
    }
}
void block_on(SyncVar *sv, const char *what, bool timed, uint64_t deadline) {
    Thread *t = cur; t->rt++;
    t->steps++; account(t);
    t->st = BLOCKED; t->wait = sv; t->what = what; t->timed = timed; t->deadline = deadline; t->timedout = false; t->wseq = ++g_wseq;
    shm->nblk++; order_ev(0xB000 | t->id);
    Thread *to = choose_next(t);
    switch_to(to, true);
    t->dreal = false;
    set_next_stop(t);
    t->rt--;
}
static int lone_yields;
void force_yield(bool spin) {        // sched_yield (spin) or a wait that ends at once: let somebody else go
    Thread *t = cur; t->rt++; t->steps++; account(t); hash_ev(0xE1ull ^ t->steps);
    Thread *to = nullptr;
    if (t->nopre) { t->rt--; return; }
    if (g_replay) { for (auto &e : *rp_sw[t->id]) if (e.kind == K_BLOCK && e.tstep == t->steps) { to = &T[e.val % nT]; break; } if (!to || to->st != RUNNABLE) to = pick_rr(t, true); }
    else if (fair_mode()) to = pick_rr(t, true);
    else { if (strat == 2) t->prio = --pct_low; to = pick_random(strat == 2 ? nullptr : t); if (!to) to = t; else logsw(t, K_BLOCK, to->id);}
    if (to != t || !spin) lone_yields = 0;
    else if (runnable_others(t) == 0) { // spinning with everybody else asleep: time passes
        uint64_t d; if (++lone_yields < 200) set_now(g_now + 1000); else if (next_deadline(d)) set_now(d); }
    if (to && to != t) switch_to(to, true);
    set_next_stop(t);
    t->rt--;
}
void thread_finished(Thread *t) {
    t->rt++; t->steps++; account(t);
    t->st = FINISHED; hash_ev(0xF1ull ^ t->id);
    SyncVar *s = sv_get((uintptr_t)t); hb_release(s); wake_all(s);
    Thread *to = choose_next(t);
    switch_to(to, false);
}
void thread_crashed_current() {   // the current thread's process was killed while it ran
    Thread *t = cur; Thread *to = choose_next(t);
    switch_to(to, true); // never comes back
}

// ------------------------------------------------------------------ faults
bool fault(Site s, long *val, long nvals) {
    uint64_t n = ++site_n[s];
    if (val) *val = 0;
    if (!g_faults) return false;
    if (g_replay) {
        auto f = rp_fl->find((uint64_t)s << 48 | n); if (f != rp_fl->end()) { if (val) *val = f->second; shm->fired[s]++; if (cur) cur->nfault++; hash_ev(0xFA00ull + s + (n << 16)); return true; }
        return false;
    }
    if (cfg.rate[s] <= 0 || shm->nfl >= MAXFL) return false;
    shm->oppo[s]++;
    if (fair_mode() || !r_fault.chance(cfg.rate[s])) return false;
    long v = nvals > 1 ? (long)r_fault.below(nvals) : 0;
    if (val) *val = v;
    shm->fired[s]++; if (cur) cur->nfault++; hash_ev(0xFA00ull + s + (n << 16));
    shm->fl[shm->nfl++] = Fl{s, (int)v, n};
    return true;
}
void maybe_crash() { if (cur && cur->proc > 0 && !cur->nopre && fault(F_CRASH)) kill_process(cur->proc); }
bool fault_here(Site s, long *v, long nv) { Guard g; return fault(s, v, nv); }
void faults_on(bool b) { g_faults = b; }
long thread_faults() { return cur->nfault; }
uint64_t fault_count(Site s) { return shm->fired[s]; }

// ------------------------------------------------------------------ race detection
struct Cell { uint64_t r[4]; };
static uintptr_t gdata_lo, gdata_n;
static inline Cell *cell_for(uintptr_t a) {
    if (a - HOST_BASE < HOST_SIZE + SIM_SIZE) return (Cell *)(CELL_BASE + ((a - HOST_BASE) >> 3) * sizeof(Cell));
    if (a - STACK_BASE < STACK_SIZE * MAXT) return (Cell *)(CELL_BASE + ((a - HOST_BASE) >> 3) * sizeof(Cell));
    if (a - gdata_lo < gdata_n) return (Cell *)(GCELL_BASE + ((a - gdata_lo) >> 3) * sizeof(Cell));
    return nullptr;
}
// record: pc:24 | clk:24 | tid:6 | mask:8 | w:1 | at:1
#define R_PC(r) ((uint32_t)((r) >> 40))
#define R_CLK(r) ((uint32_t)((r) >> 16) & 0xffffff)
#define R_TID(r) ((int)((r) >> 10) & 63)
#define R_MASK(r) ((uint32_t)((r) >> 2) & 255)
#define R_W(r) (((r) >> 1) & 1)
#define R_AT(r) ((r) & 1)
static const uintptr_t TEXT0 = 0x400000;
extern "C" char *__progname;
static uintptr_t exempt[8][2]; static int nexempt;
void race_exempt(const void *p, size_t n) { if (nexempt < 8) { exempt[nexempt][0] = (uintptr_t)p; exempt[nexempt++][1] = n; } }
static void report_race(Thread *t, uintptr_t a, bool w, bool at, uintptr_t pc, uint64_t old) {
    for (int i = 0; i < nexempt; i++) if (a - exempt[i][0] < exempt[i][1]) return;
    char b[700]; capture_stack(b, sizeof b, t);
    char hb[600]; void heap_describe(uintptr_t, char *, size_t); heap_describe(a, hb, sizeof hb);
    t->rt++;
    char cls[100]; uint32_t p1 = (uint32_t)pc, p2 = R_PC(old) + TEXT0; if (p1 > p2) { uint32_t x = p1; p1 = p2; p2 = x; }
    snprintf(cls, sizeof cls, "data-race @%x @%x", p1, p2);
    violation(cls, "data race on %lx (%s): thread %d %s%s at @%x, unordered with thread %d %s%s at @%x; stack:%s", a, hb, t->id, at ? "atomic " : "", w ? "write" : "read", (uint32_t)pc, R_TID(old), R_AT(old) ? "atomic " : "", R_W(old) ? "write" : "read", (uint32_t)(R_PC(old) + TEXT0), b);
}
static inline bool conflicting(Cell *c, uint32_t mask, bool w, int tid) {
    for (int i = 0; i < 4; i++) { uint64_t r = c->r[i]; if (r && R_TID(r) != tid && (R_MASK(r) & mask) && (w || R_W(r))) return true; }
    return false;
}
static inline void record(Thread *t, Cell *c, uintptr_t a, uint32_t mask, bool w, bool at, uintptr_t pc) {
    uint64_t nr = ((uint64_t)((pc - TEXT0) & 0xffffff) << 40) | ((uint64_t)(t->vc.c[t->id] & 0xffffff) << 16) | ((uint64_t)t->id << 10) | (mask << 2) | (w ? 2 : 0) | (at ? 1 : 0);
    int slot = -1;
    for (int i = 0; i < 4; i++) {
        uint64_t r = c->r[i];
        if (!r) { if (slot < 0) slot = i; continue; }
        int o = R_TID(r);
        if (o == t->id) { if ((R_MASK(r) & ~mask) == 0 && (w || !R_W(r)) && (!at || R_AT(r) || w)) { if (slot < 0 || c->r[slot]) slot = i; else c->r[i] = 0; } continue; }
        bool hb = R_CLK(r) <= t->vc.c[o];
        if (!hb && (R_MASK(r) & mask) && (w || R_W(r)) && !(at && R_AT(r))) { if (cfg.races) report_race(t, a, w, at, pc, r); }
        if (hb && (R_MASK(r) & ~mask) == 0 && (w || !R_W(r))) { if (slot < 0 || c->r[slot]) slot = i; else c->r[i] = 0; }
    }
    if (slot < 0) slot = (int)((t->steps + (a >> 3)) & 3);
    c->r[slot] = nr;
}
void cells_clear(uintptr_t a, size_t n) { for (uintptr_t p = a & ~7ul; p < a + n; p += 8) { Cell *c = cell_for(p); if (c) memset((void *)c, 0, sizeof *c); } }
void stack_cells_clear(int slot) { madvise((void *)(CELL_BASE + ((STACK_BASE + slot * STACK_SIZE - HOST_BASE) >> 3) * sizeof(Cell)), STACK_SIZE / 8 * sizeof(Cell), MADV_DONTNEED); sv_forget_range(STACK_BASE + slot * STACK_SIZE, STACK_BASE + (slot + 1) * STACK_SIZE); }
extern uint8_t *const valid_map = (uint8_t *)VALID_BASE;
void report_bad_access(uintptr_t a, size_t n, bool w);
static inline void check_valid(uintptr_t a, size_t sz, bool w) {
    if (a - SIM_BASE >= SIM_SIZE) return;
    size_t g = (a - SIM_BASE) >> 3; unsigned off = a & 7;
    uint8_t v = valid_map[g];
    if (__builtin_expect(off + sz <= v, 1)) return;
    if (off + sz > 8 && v == 8) { uint8_t v2 = valid_map[g + 1]; if (off + sz - 8 <= v2) return; }
    report_bad_access(a, sz, w);
}
static inline void access(uintptr_t a, unsigned sz, bool w, bool at, uintptr_t pc) {
    Thread *t = cur;
    t->steps++;
    Cell *c = cell_for(a);
    unsigned off = a & 7; uint32_t mask = ((1u << sz) - 1) << off;
    if (__builtin_expect(t->steps >= t->next_stop, 0)) stop_point(t);
    else if (c && use_conf && conflicting(c, mask & 255, w, t->id)) { order_ev(((uint64_t)t->id << 8) | 0xCF); shm->blocks_contended++; maybe_preempt(t, p_conf); }
    check_valid(a, sz, w);
    if (c) { record(t, c, a, mask & 255, w, at, pc); if (mask >> 8) record(t, c + 1, a, mask >> 8, w, at, pc); }
}
void check_mem(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    Thread *t = cur; if (!n) return;
    if (a - SIM_BASE < SIM_SIZE) { for (uintptr_t p = a; p < a + n;) { size_t k = 8 - (p & 7); if (k > a + n - p) k = a + n - p; check_valid(p, k, w); p += k; } }
    if (n > 65536) n = 65536;
    if (cell_for(a)) for (uintptr_t p = a; p < a + n;) { size_t k = 8 - (p & 7); if (k > a + n - p) k = a + n - p; Cell *c = cell_for(p); if (!c) break; record(t, c, p, ((1u << k) - 1) << (p & 7), w, false, pc); p += k; }
}
static bool range_conflict(uintptr_t a, size_t n, bool w) {
    if (n > 4096) n = 4096;
    for (uintptr_t p = a & ~7ul; p < a + n; p += 8) { Cell *c = cell_for(p); if (!c) return false; if (conflicting(c, 255, w, cur->id)) return true; }
    return false;
}
void range_point(const void *p, size_t n, bool w) {
    Thread *t = cur; t->steps++;
    if (t->steps >= t->next_stop) stop_point(t);
    else if (use_conf && n && range_conflict((uintptr_t)p, n, w)) { order_ev(((uint64_t)t->id << 8) | 0xCE); shm->blocks_contended++; maybe_preempt(t, p_conf); }
}
void range_access(const void *p, size_t n, bool w, uintptr_t pc) { range_point(p, n, w); check_mem((uintptr_t)p, n, w, pc); }
} // namespace sim
using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { Thread *t = cur; if (t && !t->rt) { if (t->sp < 256) t->stk[t->sp] = (uint32_t)(uintptr_t)pc; t->sp++; } }
void __tsan_func_exit() { Thread *t = cur; if (t && !t->rt && t->sp > 0) t->sp--; }
#define RW(n) \
void __tsan_read##n(void *a) { if (live()) access((uintptr_t)a, n, false, false, PC); } \
void __tsan_write##n(void *a) { if (live()) access((uintptr_t)a, n, true, false, PC); } \
void __tsan_unaligned_read##n(void *a) { if (live()) access((uintptr_t)a, n, false, false, PC); } \
void __tsan_unaligned_write##n(void *a) { if (live()) access((uintptr_t)a, n, true, false, PC); } \
void __tsan_volatile_read##n(void *a) { if (live()) access((uintptr_t)a, n, false, false, PC); } \
void __tsan_volatile_write##n(void *a) { if (live()) access((uintptr_t)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void *a) { if (live()) { access((uintptr_t)a, 8, false, false, PC); access((uintptr_t)a + 8, 8, false, false, PC); } }
void __tsan_write16(void *a) { if (live()) { access((uintptr_t)a, 8, true, false, PC); access((uintptr_t)a + 8, 8, true, false, PC); } }
void __tsan_unaligned_read16(void *a) { __tsan_read16(a); }
void __tsan_unaligned_write16(void *a) { __tsan_write16(a); }
void __tsan_volatile_read16(void *a) { __tsan_read16(a); }
void __tsan_volatile_write16(void *a) { __tsan_write16(a); }
void __tsan_vptr_update(void **a, void *v) { if (live()) { if (*a != v) access((uintptr_t)a, 8, true, false, PC); else access((uintptr_t)a, 8, false, false, PC); } }
void __tsan_vptr_read(void **a) { if (live()) access((uintptr_t)a, 8, false, false, PC); }
void __tsan_read_range(void *a, size_t n) { if (live()) range_access(a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (live()) range_access(a, n, true, PC); }

enum { MO_RLX, MO_CONSUME, MO_ACQ, MO_REL, MO_ACQREL, MO_SC };
static inline bool is_acq(int m) { return m == MO_CONSUME || m == MO_ACQ || m == MO_ACQREL || m == MO_SC; }
static inline bool is_rel(int m) { return m == MO_REL || m == MO_ACQREL || m == MO_SC; }
static inline void at_load(uintptr_t a, int mo) {
    SyncVar *s = sv_find(a); if (!s) return;
    if (is_acq(mo)) hb_acquire(s); else vc_join(cur->acqp, s->rel);
}
static inline void at_store(uintptr_t a, int mo) {
    SyncVar *s = sv_get(a);
    if (is_rel(mo)) { s->rel = cur->vc; s->lastrel = cur->id; cur->vc.c[cur->id]++; }
    else { if (s->lastrel == cur->id) vc_join(s->rel, cur->frel); else { s->rel = cur->frel; s->lastrel = cur->id; } }
}
static inline void at_rmw(uintptr_t a, int mo) {
    SyncVar *s = sv_get(a);
    if (is_acq(mo)) hb_acquire(s); else vc_join(cur->acqp, s->rel);
    if (is_rel(mo)) { vc_join(s->rel, cur->vc); s->lastrel = cur->id; cur->vc.c[cur->id]++; } else vc_join(s->rel, cur->frel);
}
#define ATOMICS(N, ty) \
ty __tsan_atomic##N##_load(const volatile ty *a, int mo) { if (live()) { access((uintptr_t)a, sizeof(ty), false, true, PC); Guard g; at_load((uintptr_t)a, mo); return *a; } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile ty *a, ty v, int mo) { if (live()) { access((uintptr_t)a, sizeof(ty), true, true, PC); Guard g; at_store((uintptr_t)a, mo); *a = v; return; } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##N##_exchange(volatile ty *a, ty v, int mo) { if (live()) { access((uintptr_t)a, sizeof(ty), true, true, PC); Guard g; at_rmw((uintptr_t)a, mo); ty o = *a; *a = v; return o; } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##N##_fetch_add(volatile ty *a, ty v, int mo) { if (live()) { access((uintptr_t)a, sizeof(ty), true, true, PC); Guard g; at_rmw((uintptr_t)a, mo); ty o = *a; *a = o + v; return o; } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##N##_fetch_sub(volatile ty *a, ty v, int mo) { if (live()) { access((uintptr_t)a, sizeof(ty), true, true, PC); Guard g; at_rmw((uintptr_t)a, mo); ty o = *a; *a = o - v; return o; } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##N##_fetch_and(volatile ty *a, ty v, int mo) { if (live()) { access((uintptr_t)a, sizeof(ty), true, true, PC); Guard g; at_rmw((uintptr_t)a, mo); ty o = *a; *a = o & v; return o; } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##N##_fetch_or(volatile ty *a, ty v, int mo) { if (live()) { access((uintptr_t)a, sizeof(ty), true, true, PC); Guard g; at_rmw((uintptr_t)a, mo); ty o = *a; *a = o | v; return o; } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##N##_fetch_xor(volatile ty *a, ty v, int mo) { if (live()) { access((uintptr_t)a, sizeof(ty), true, true, PC); Guard g; at_rmw((uintptr_t)a, mo); ty o = *a; *a = o ^ v; return o; } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
ty __tsan_atomic##N##_fetch_nand(volatile ty *a, ty v, int mo) { if (live()) { access((uintptr_t)a, sizeof(ty), true, true, PC); Guard g; at_rmw((uintptr_t)a, mo); ty o = *a; *a = ~(o & v); return o; } return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
static inline bool cas##N(volatile ty *a, ty *e, ty v, int mo, int fmo, bool weak, uintptr_t pc) { \
    if (!live()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    access((uintptr_t)a, sizeof(ty), true, true, pc); Guard g; ty o = *a; \
    if (o == *e && weak && fault(F_CASWEAK)) { at_load((uintptr_t)a, fmo); return false; } \
    if (o == *e) { at_rmw((uintptr_t)a, mo); *a = v; return true; } \
    at_load((uintptr_t)a, fmo); *e = o; return false; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int fmo) { return cas##N(a, e, v, mo, fmo, false, PC); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int fmo) { return cas##N(a, e, v, mo, fmo, true, PC); } \
ty __tsan_atomic##N##_compare_exchange_val(volatile ty *a, ty e, ty v, int mo, int fmo) { ty x = e; cas##N(a, &x, v, mo, fmo, false, PC); return x; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!live()) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
    Guard g;
    if (is_acq(mo)) vc_join(cur->vc, cur->acqp);
    if (is_rel(mo)) { cur->frel = cur->vc; cur->vc.c[cur->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
}

namespace sim {
void plan_init(uint64_t seed, bool replay, const std::vector<Sw> *sw, const std::vector<Fl> *fl) {
    g_replay = replay; r_sched = Rng(seed ^ 0x5C4ED); r_fault = Rng(seed ^ 0xFA017);
    for (int i = 0; i < MAXT; i++) rp_sw[i] = new std::vector<Sw>();
    rp_fl = new std::map<uint64_t, int>();
    if (replay) { for (auto &s : *sw) rp_sw[s.tid]->push_back(s); for (auto &f : *fl) (*rp_fl)[(uint64_t)f.site << 48 | f.n] = f.val; }
    sv_tab = (SyncVar **)host_alloc(sv_cap * sizeof(SyncVar *), 4096);   // fresh pages, zero
    gdata_lo = (uintptr_t)&__data_start & ~7ul; gdata_n = (uintptr_t)&_end - gdata_lo;
    Rng r(seed ^ 0x57A7);
    static const int strats[] = {0, 0, 1, 1, 1, 2, 2, 3, 4, 4};
    strat = strats[r.below(10)];
    static const long gaps[] = {2, 4, 10, 30, 100, 300, 1000}; mean_gap = gaps[r.below(7)];
    static const double pc[] = {0.02, 0.05, 0.1, 0.25, 0.5}; p_conf = (strat == 1 || strat == 4) ? pc[r.below(5)] : 0;
    static const double ps[] = {0.05, 0.15, 0.3, 0.6}; p_sync = (strat == 1 || strat == 3 || strat == 4) ? ps[r.below(4)] : 0; if (strat == 1 && r.chance(0.5)) p_sync = 0;
    if (strat == 4) mean_gap = 100 + r.below(2000);
    static const long caps[] = {100, 400, 2000, 8000}; slice_cap = caps[r.below(4)];
    if (strat == 3 || strat == 1) slice_cap = r.chance(0.5) ? 2000 : 8000;
    use_conf = true;
    static const long hor[] = {60, 250, 1000, 4000, 20000}; long h = hor[r.below(5)];
    pct_n = strat == 2 ? (int)r.below(6) : 0; pct_low = 0;
    std::vector<uint64_t> pts; for (int i = 0; i < pct_n; i++) pts.push_back(1 + r.below(h));
    for (size_t i = 0; i < pts.size(); i++) for (size_t j = i + 1; j < pts.size(); j++) if (pts[j] < pts[i]) { uint64_t x = pts[i]; pts[i] = pts[j]; pts[j] = x; }
    for (int i = 0; i < pct_n; i++) pct_points[i] = pts[i];
    bool slow = r.chance(0.3);
    for (int i = 0; i < MAXT; i++) { g_weight[i] = slow && r.chance(0.4) ? 0.05 : 1; T[i].prio = 1000 + (long)r.below(1000000); }
    for (int i = 0; i < F_NSITES; i++) if (cfg.rate[i] > 0 && r.chance(0.35)) cfg.rate[i] = 0;      // swarm: a random subset of fault kinds per run
    fair_from = cfg.step_cap / 2;
    shm->nknobs = 0;
    auto knob = [](const char *k, double v) { snprintf(shm->knobs[shm->nknobs].k, 40, "%s", k); shm->knobs[shm->nknobs++].v = v; };
    knob("strategy", strat); knob("mean_gap", mean_gap); knob("p_conflict", p_conf); knob("p_sync", p_sync); knob("pct_points", pct_n);
}
void race_shadow_init() {
    auto map = [](uintptr_t base, size_t n) { void *p = mmap((void *)base, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)base) { dprintf(2, "sim: cannot map %lx: %s\n", base, strerror(errno)); _exit(99); } };
    map(CELL_BASE, (HOST_SIZE + SIM_SIZE) / 8 * sizeof(Cell));
    map(CELL_BASE + ((STACK_BASE - HOST_BASE) >> 3) * sizeof(Cell), (STACK_SIZE * MAXT / 8) * sizeof(Cell));
    map(VALID_BASE, SIM_SIZE / 8);
    map(STACK_BASE, STACK_SIZE * MAXT);
    map(GCELL_BASE, ((uintptr_t)&_end - ((uintptr_t)&__data_start & ~7ul)) / 8 * sizeof(Cell) + 4096);
}
void *tramp_entry(Thread *t) { // runs in the new real thread
    await(t); t->last_switch_steps = t->steps; set_next_stop(t);
    return nullptr;
}
void start_main(Thread *t) { cur = t; set_next_stop(t); }
int runnable_count() { int n = 0; for (int i = 0; i < nT; i++) n += T[i].st == RUNNABLE; return n; }
int self() { return cur ? cur->id : -1; }
int threads_created() { return nT; }
bool exited(int id) { return T[id].st == FINISHED || T[id].st == DEAD; }
uint64_t mono_ns() { return g_now; }
int64_t real_ns() { return (int64_t)g_now + g_real_off; }
void set_real_ns(int64_t r) {     // waits with a wall-clock deadline move with the wall clock
    Guard g; int64_t d = r - (int64_t)g_now - g_real_off; g_real_off += d; hash_ev(r);
    for (int i = 0; i < nT; i++) if (T[i].st == BLOCKED && T[i].timed && T[i].dreal) { int64_t n = (int64_t)T[i].deadline - d; T[i].deadline = n < 0 ? 0 : n; }
    set_now(g_now);
}
void advance_ns(uint64_t d) { Guard g; set_now(g_now + d); }
void no_preempt(int d) { if (cur) cur->nopre += d; }
void alloc_faults(bool b) { if (cur) cur->allocf = b; }
void yield() { if (live()) sync_point(0x59); }
// history
static std::vector<Event> *g_hist;
std::vector<Event> &history() { if (!g_hist) { Guard g; g_hist = new std::vector<Event>(); } return *g_hist; }
int invoke(int op, long a, long b, long c) { sync_point(0x1A); Guard g; auto &h = history(); Event e; e.inv = ++g_stamp; e.ret = ~0ull; e.thread = cur->id; e.op = op; e.a = a; e.b = b; e.c = c; e.r = 0; e.done = false; e.threw = false; e.inv_t = g_now; e.ret_t = ~0ull; h.push_back(e); hash_ev(op * 31 + a * 7 + b); return (int)h.size() - 1; }
void ret(int i, long r) { { Guard g; auto &e = (*g_hist)[i]; e.ret = ++g_stamp; e.r = r; e.done = true; e.ret_t = g_now; hash_ev(r ^ (uint64_t)i << 40); } sync_point(0x1B); }
void ret_s(int i, const char *d, size_t n, long r) { { Guard g; auto &e = (*g_hist)[i]; e.s.assign(d, n); e.ret = ++g_stamp; e.r = r; e.done = true; e.ret_t = g_now; uint64_t h = 14695981039346656037ull; for (char ch : e.s) h = (h ^ (uint8_t)ch) * 1099511628211ull; hash_ev(h ^ (uint64_t)i << 40); } sync_point(0x1B); }
void ret_throw(int i) { { Guard g; auto &e = (*g_hist)[i]; e.ret = ++g_stamp; e.done = true; e.threw = true; e.ret_t = g_now; hash_ev(0x7707ull ^ (uint64_t)i << 40); } sync_point(0x1B); }
}
