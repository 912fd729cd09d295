// Threads, locks, condition variables, semaphores, futexes, guards, clocks and sleeps on the simulated scheduler.
#include "rt_internal.h"
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>
#include <linux/futex.h>

extern "C" { int __cxa_thread_atexit_impl(void (*)(void *), void *, void *); extern void *__dso_handle; void sim_mark_thread_dead(); }
extern "C" void *real_sym(const char *n) { static int depth; depth++; void *p = dlsym(RTLD_NEXT, n); depth--; return p; }
namespace sim {
void *tramp_entry(Thread *t); void thread_finished(Thread *t); void force_yield(bool spin = false); void start_main(Thread *t);
void sv_forget_proc(int proc); void thread_crashed_current(); void sv_forget_range(uintptr_t, uintptr_t); void cells_clear(uintptr_t, size_t);
void run_finished(); void stack_cells_clear(int slot);
static bool slot_used[MAXT];
static const int BIG = 1 << 30;

// ------------------------------------------------------------------ threads
static void fin(void *p) { Thread *t = (Thread *)p; sim_mark_thread_dead(); thread_finished(t); }
static stack_t altstacks[MAXT];
static void *trampoline(void *p) {
    Thread *t = (Thread *)p;
    tramp_entry(t);
    t->rt++;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = (void *)(STACK_BASE + t->slot * STACK_SIZE + 4096); ss.ss_size = 32768; sigaltstack(&ss, nullptr);
    __cxa_thread_atexit_impl(fin, t, &__dso_handle);
    t->rt--;
    t->retv = t->fn(t->arg);
    return t->retv;
}
static Thread *new_thread(void *(*fn)(void *), void *arg, int proc) {
    if (nT >= MAXT) { extern void inconclusive(const char *); inconclusive("too many threads"); }
    int slot = -1;
    if (cfg.slot_reuse) for (int i = nT - 1; i > 0; i--) if (T[i].st == FINISHED && T[i].slot >= 0 && (T[i].joined || T[i].detached)) { slot = T[i].slot; static auto rj = (int (*)(pthread_t, void **))real_sym("pthread_join"); rj(T[i].real, nullptr); stack_cells_clear(slot); T[i].slot = -1; T[i].real = 0; break; }
    if (slot < 0) { for (slot = 0; slot < MAXT && slot_used[slot]; slot++) ; }
    slot_used[slot] = true;
    Thread *t = &T[nT]; long prio = t->prio; memset((void *)t, 0, sizeof *t); t->prio = prio;
    t->id = nT; t->slot = slot; t->proc = proc; t->fn = fn; t->arg = arg; t->st = RUNNABLE;
    if (cur) { t->vc = cur->vc; cur->vc.c[cur->id]++; }
    t->vc.c[t->id] = 1;
    uintptr_t st = STACK_BASE + slot * STACK_SIZE;
    mprotect((void *)st, 4096, PROT_NONE);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *)(st + 4096 + 32768), STACK_SIZE - 4096 - 32768);
    static auto rc = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))real_sym("pthread_create");
    sigset_t all, old; sigfillset(&all); sigdelset(&all, SIGSEGV); sigdelset(&all, SIGBUS); sigdelset(&all, SIGFPE); sigdelset(&all, SIGILL); sigdelset(&all, SIGPROF);
    int r = rc(&t->real, &at, trampoline, t);
    (void)all; (void)old;
    if (r) { dprintf(2, "sim: real pthread_create failed: %d\n", r); _exit(97); }
    nT++;
    return t;
}
static Thread *by_handle(pthread_t h) { for (int i = nT - 1; i >= 0; i--) if (T[i].real == h && T[i].real && !T[i].joined) return &T[i]; return nullptr; }
static void *call_fn(void *p) { std::function<void()> *f = (std::function<void()> *)p; (*f)(); { Guard g; delete f; } return nullptr; }
static uint64_t g_procdead;
int spawn(std::function<void()> f, int proc) {
    sync_point(0x70); Guard g;
    auto *p = new std::function<void()>(std::move(f));
    Thread *t = new_thread(call_fn, p, proc); t->client = true; if (g_procdead >> proc & 1) t->st = DEAD;
    return t->id;
}
void join(int id) {
    sync_point(0x71);
    Thread *t = &T[id]; SyncVar *s; { Guard g; s = sv_get((uintptr_t)t); }
    while (t->st != FINISHED && t->st != DEAD) block_on(s, "a client thread to end", false, 0);
    Guard g; hb_acquire(s); t->joined = true;
}
Thread *make_main(void (*fn)(void *), void *arg) {
    struct M { void (*fn)(void *); void *arg; }; M *m = (M *)host_alloc(sizeof(M)); m->fn = fn; m->arg = arg;
    Thread *t = new_thread([](void *p) -> void * { M *m = (M *)p; m->fn(m->arg); run_finished(); return nullptr; }, m, 0);
    return t;
}
// processes
void fs_proc_died(int);
bool process_dead(int p) { return g_procdead >> p & 1; }
void kill_process(int proc) {
    g_procdead |= 1ull << proc; hash_ev(0xDEADull ^ proc); shm->fired[F_CRASH]++;
    for (int i = 0; i < nT; i++) if (T[i].proc == proc && T[i].st != FINISHED) { T[i].st = DEAD; SyncVar *s = sv_get((uintptr_t)&T[i]); wake_all(s); }
    fs_proc_died(proc);
    if (cur->st == DEAD) thread_crashed_current();
}
void crash_process(int proc) { Guard g; kill_process(proc); }
void statics_reset(int proc);
void statics_fork(int child); void fs_fork(int parent, int child); void fs_proc_new(int proc); pid_t fs_pid(int proc);
void new_process(int proc) { Guard g; g_procdead &= ~(1ull << proc); sv_forget_proc(proc); statics_reset(proc); fs_proc_new(proc); }
void fork_process(int child) { sync_point(0x72); Guard g; maybe_crash(); g_procdead &= ~(1ull << child); sv_forget_proc(child); statics_fork(child); fs_fork(cur->proc, child); }

// ------------------------------------------------------------------ blocking helpers
static void lock_sv(SyncVar *s, const char *what) {   // exclusive, non-recursive
    while (s->owner >= 0) block_on(s, what, false, 0);
    s->owner = cur->id; hb_acquire(s);
}
static void unlock_sv(SyncVar *s) { s->owner = -1; hb_release(s); wake_all(s); }
uint64_t clock_read(int clk) {
    long v;
    if (clk != CLOCK_MONOTONIC && clk != CLOCK_BOOTTIME && clk != CLOCK_MONOTONIC_RAW && clk != CLOCK_MONOTONIC_COARSE && fault(F_CLOCKJUMP, &v, 8)) {
        static const int64_t j[] = {-1, -1000000, -999999999, -3600000000000ll, 1000000, 5000000000ll, 86400000000000ll, -10000};
        set_real_ns(real_ns() + j[v & 7]);
    }
    if (cfg.clock_tick_ns) set_now(g_now + cfg.clock_tick_ns);
    bool real = clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE;
    return real ? (uint64_t)real_ns() : g_now;
}
#define BADTS(ts) ((ts)->tv_nsec < 0 || (ts)->tv_nsec > 999999999)
static uint64_t to_mono(int clk, const struct timespec *ts) { // absolute time on clk -> simulated monotonic
    int64_t v = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    cur->dreal = clk == CLOCK_REALTIME;
    if (cur->dreal) v -= g_real_off;
    if (ts->tv_sec > 4000000000ll * 2) return ~0ull >> 2;
    return v < 0 ? 0 : (uint64_t)v;
}
void sleep_ns(uint64_t d) { if (!live()) return; cur->dreal = false; sync_point(0x73); block_on(nullptr, "sleep", true, g_now + d); }
}
using namespace sim;
extern "C" {
// locks are checked for validity only; they are not data, so they never take part in race detection
#define CHK(p) do { if (!heap_addressable(p)) report_bad_access((uintptr_t)(p), 1, true); } while (0)

static int create_common(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    sync_point(0x70); Guard g;
    if (fault(F_THREAD)) return EAGAIN;
    Thread *t = new_thread(fn, arg, cur->proc);
    if (attr) { int d = 0; pthread_attr_getdetachstate(attr, &d); if (d == PTHREAD_CREATE_DETACHED) t->detached = true; }
    *out = t->real;
    return 0;
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!live()) { static auto r = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))real_sym("pthread_create"); return r(out, attr, fn, arg); }
    int r = create_common(out, attr, fn, arg);
    sync_point(0x70); return r;
}
static int join_common(pthread_t h, void **ret, bool timed, uint64_t dl) {
    sync_point(0x71); 
    Thread *t; SyncVar *s; { Guard g; t = by_handle(h); if (!t) return ESRCH; if (t->detached) return EINVAL; if (t == cur) return EDEADLK; s = sv_get((uintptr_t)t); }
    while (t->st != FINISHED && t->st != DEAD) { block_on(s, "a thread to end", timed, dl); if (timed && cur->timedout && t->st != FINISHED) return ETIMEDOUT; }
    Guard g; hb_acquire(s); t->joined = true; if (ret) *ret = t->retv; return 0;
}
int pthread_join(pthread_t h, void **ret) {
    if (!live()) { static auto r = (int (*)(pthread_t, void **))real_sym("pthread_join"); return r(h, ret); }
    return join_common(h, ret, false, 0);
}
int pthread_timedjoin_np(pthread_t h, void **ret, const struct timespec *ts) { return join_common(h, ret, true, to_mono(CLOCK_REALTIME, ts)); }
int pthread_tryjoin_np(pthread_t h, void **ret) { Thread *t = by_handle(h); if (!t) return ESRCH; if (t->st != FINISHED) return EBUSY; return join_common(h, ret, false, 0); }
int pthread_detach(pthread_t h) {
    if (!live()) { static auto r = (int (*)(pthread_t))real_sym("pthread_detach"); return r(h); }
    sync_point(0x72); Guard g; Thread *t = by_handle(h); if (!t) return ESRCH; if (t->detached) return EINVAL; t->detached = true; return 0;
}
// std::thread goes through the versioned symbols of libc; these definitions take their place.

// ---- mutex ----
static int mtype(pthread_mutex_t *m) { return m->__data.__kind & 3; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!live()) return 0;
    CHK(m); sync_point(0x10); SyncVar *s; { Guard g; s = sv_get((uintptr_t)m); CHK(m); }
    if (s->owner == cur->id) { if (mtype(m) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; } if (mtype(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
    if (s->owner >= 0) shm->blocks_contended++;
    while (s->owner >= 0) { block_on(s, "a mutex", false, 0); CHK(m); }
    Guard g; s->owner = cur->id; s->count = 1; hb_acquire(s); return 0;
}
static int mutex_timed(pthread_mutex_t *m, uint64_t dl) {
    sync_point(0x10); SyncVar *s; { Guard g; s = sv_get((uintptr_t)m); CHK(m); }
    if (s->owner == cur->id && mtype(m) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    while (s->owner >= 0) { if (dl <= g_now) return ETIMEDOUT; block_on(s, "a mutex (timed)", true, dl); CHK(m); if (cur->timedout && s->owner >= 0) return ETIMEDOUT; }
    Guard g; s->owner = cur->id; s->count = 1; hb_acquire(s); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { if (!live()) return 0; return mutex_timed(m, to_mono(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { if (!live()) return 0; return mutex_timed(m, to_mono(c, ts)); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!live()) return 0;
    CHK(m); sync_point(0x11); Guard g; SyncVar *s = sv_get((uintptr_t)m); CHK(m);
    if (s->owner == cur->id && mtype(m) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    if (s->owner >= 0) return EBUSY;
    s->owner = cur->id; s->count = 1; hb_acquire(s); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!live()) return 0;
    { Guard g; CHK(m); SyncVar *s = sv_get((uintptr_t)m);
      if (s->owner != cur->id) violation("lock-misuse", "unlock of a mutex the thread does not hold (owner %d)", s->owner);
      if (--s->count > 0) return 0;
      unlock_sv(s); }
    sync_point(0x12); return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } if (cur) { Guard g; SyncVar *s = sv_find((uintptr_t)m); if (s) sv_clear(s); } return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (live()) { Guard g; CHK(m); SyncVar *s = sv_find((uintptr_t)m); if (s && s->owner >= 0) violation("lock-misuse", "destroying a locked mutex"); } return 0; }
// ---- rwlock ----
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
static int rd(pthread_rwlock_t *l, bool tr) { sync_point(0x13); SyncVar *s; { Guard g; CHK(l); s = sv_get((uintptr_t)l); } while (s->owner >= 0) { if (tr) return EBUSY; block_on(s, "a read lock", false, 0); } Guard g; s->count++; hb_acquire(s); return 0; }
static int wr(pthread_rwlock_t *l, bool tr) { sync_point(0x14); SyncVar *s; { Guard g; CHK(l); s = sv_get((uintptr_t)l); } while (s->owner >= 0 || s->count > 0) { if (tr) return EBUSY; block_on(s, "a write lock", false, 0); } Guard g; s->owner = cur->id; hb_acquire(s); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return live() ? rd(l, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return live() ? wr(l, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return live() ? rd(l, true) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return live() ? wr(l, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!live()) return 0; { Guard g; SyncVar *s = sv_get((uintptr_t)l); hb_release(s); if (s->owner == cur->id) s->owner = -1; else s->count--; wake_all(s); } sync_point(0x12); return 0; }
// ---- condition variables ----
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { memset(c, 0, sizeof *c); if (a) { clockid_t k = CLOCK_REALTIME; pthread_condattr_getclock(a, &k); c->__data.__wrefs = k == CLOCK_MONOTONIC ? 2 : 0; } return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (!live()) return 0;
    Guard g; CHK(c); SyncVar *s = sv_find((uintptr_t)c);
    if (s) for (int i = 0; i < nT; i++) if (T[i].st == BLOCKED && T[i].wait == s) violation("lock-misuse", "destroying a condition variable thread %d waits on", i);
    return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t dl) {
    CHK(c); CHK(m); sync_point(0x20);
    SyncVar *sc, *sm; int cnt; bool spur; long sv = 0;
    { Guard g; sc = sv_get((uintptr_t)c); sm = sv_get((uintptr_t)m);
      if (sm->owner != cur->id) violation("lock-misuse", "waiting on a condition without holding its mutex");
      cnt = sm->count; spur = fault(F_SPURIOUS, &sv, 3); 
      sm->count = 0; unlock_sv(sm); }
    int r = 0; bool to = false;
    if (timed && dl <= g_now) { force_yield(); to = true; }
    else if (spur && sv == 0) force_yield();
    else {
        uint64_t d = dl; bool td = timed;
        if (spur) { uint64_t sd = g_now + (sv == 1 ? 1000 : 700000); if (!timed || sd < dl) { d = sd; td = true; } else spur = false; }
        block_on(sc, timed ? "a condition (timed)" : "a condition", td, d);
        if (cur->timedout && !spur) to = true;
    }
    if (to) r = ETIMEDOUT;
    CHK(m);
    while (sm->owner >= 0) block_on(sm, "a mutex", false, 0);
    Guard g; sm->owner = cur->id; sm->count = cnt; hb_acquire(sm);
    return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return live() ? cond_wait(c, m, false, 0) : 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (live() && BADTS(ts)) return EINVAL; return live() ? cond_wait(c, m, true, to_mono(c->__data.__wrefs & 2 ? CLOCK_MONOTONIC : CLOCK_REALTIME, ts)) : 0; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { if (live() && BADTS(ts)) return EINVAL; return live() ? cond_wait(c, m, true, to_mono(k, ts)) : 0; }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!live()) return 0;
    CHK(c); sync_point(0x21);
    { Guard g; CHK(c); SyncVar *s = sv_get((uintptr_t)c); Thread *w[MAXT]; int n = 0;
      for (int i = 0; i < nT; i++) if (T[i].st == BLOCKED && T[i].wait == s) { int j = n++; while (j > 0 && w[j - 1]->wseq > T[i].wseq) { w[j] = w[j - 1]; j--; } w[j] = &T[i]; }
      if (n) { long k = 0; if (n > 1) fault(F_SIGNALPICK, &k, 60); wake(w[k % n]); } }
    sync_point(0x22); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { if (!live()) return 0; CHK(c); sync_point(0x21); { Guard g; CHK(c); wake_all(sv_get((uintptr_t)c)); } sync_point(0x22); return 0; }
// ---- semaphores ----
int sem_init(sem_t *m, int, unsigned v) { memset(m, 0, sizeof *m); *(unsigned *)m = v; if (cur) { Guard g; SyncVar *s = sv_get((uintptr_t)m); s->val = v; } return 0; }
int sem_destroy(sem_t *m) { if (live()) { Guard g; CHK((char *)m); SyncVar *s = sv_get((uintptr_t)m); for (int i = 0; i < nT; i++) if (T[i].st == BLOCKED && T[i].wait == s) violation("lock-misuse", "destroying a semaphore thread %d waits on", i); } return 0; }
static int semwait(sem_t *m, bool timed, uint64_t dl, bool tr) {
    CHK((char *)m); sync_point(0x30); SyncVar *s; { Guard g; s = sv_get((uintptr_t)m); }
    for (;;) {
        CHK((char *)m);
        if (s->val > 0) { Guard g; s->val--; hb_acquire(s); return 0; }
        if (tr) { errno = EAGAIN; return -1; }
        { Guard g; if (fault(F_EINTR_SEM)) { errno = EINTR; return -1; } }
        if (timed && dl <= g_now) { errno = ETIMEDOUT; return -1; }
        block_on(s, "a semaphore", timed, dl);
        if (timed && cur->timedout && s->val <= 0) { errno = ETIMEDOUT; return -1; }
    }
}
int sem_wait(sem_t *m) { return live() ? semwait(m, false, 0, false) : 0; }
int sem_trywait(sem_t *m) { return live() ? semwait(m, false, 0, true) : 0; }
int sem_timedwait(sem_t *m, const struct timespec *ts) { if (live() && BADTS(ts)) { errno = EINVAL; return -1; } return live() ? semwait(m, true, to_mono(CLOCK_REALTIME, ts), false) : 0; }
int sem_clockwait(sem_t *m, clockid_t c, const struct timespec *ts) { if (live() && BADTS(ts)) { errno = EINVAL; return -1; } return live() ? semwait(m, true, to_mono(c, ts), false) : 0; }
int sem_post(sem_t *m) { if (!live()) return 0; CHK((char *)m); sync_point(0x31); { Guard g; SyncVar *s = sv_get((uintptr_t)m); s->val++; hb_release(s); wake_all(s); } sync_point(0x32); return 0; }
int sem_getvalue(sem_t *m, int *v) { Guard g; *v = cur ? (int)sv_get((uintptr_t)m)->val : 0; return 0; }
// ---- once, static guards ----
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!live()) { if (*o != 2) { *o = 2; f(); } return 0; }
    sync_point(0x40); SyncVar *s; { Guard g; s = sv_get((uintptr_t)o); }
    for (;;) {
        if (*(volatile int *)o == 2) { Guard g; hb_acquire(s); return 0; }
        if (s->owner < 0) break;
        block_on(s, "a once initialisation", false, 0);
    }
    s->owner = cur->id;
    try { f(); } catch (...) { Guard g; unlock_sv(s); throw; }
    { Guard g; *(volatile int *)o = 2; unlock_sv(s); }
    return 0;
}
int __cxa_guard_acquire(long long *gd) {
    char *d = (char *)gd;
    if (!live()) { return *d ? 0 : 1; }
    sync_point(0x41); SyncVar *s; { Guard g; s = sv_get((uintptr_t)gd); }
    for (;;) {
        if (*(volatile char *)d) { Guard g; hb_acquire(s); return 0; }
        if (s->owner < 0) break;
        if (s->owner == cur->id) violation("terminate", "recursive initialisation of a static");
        block_on(s, "the initialisation of a static", false, 0);
    }
    s->owner = cur->id; return 1;
}
void __cxa_guard_release(long long *gd) { char *d = (char *)gd; if (!live()) { *d = 1; return; } { Guard g; *d = 1; unlock_sv(sv_get((uintptr_t)gd)); } sync_point(0x42); }
void __cxa_guard_abort(long long *gd) { if (!live()) return; { Guard g; unlock_sv(sv_get((uintptr_t)gd)); } sync_point(0x42); }
// ---- futex users inside libstdc++ (futures) ----
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
    if (live()) {
        if (n == SYS_futex) {
            int op = a[1] & 127; SyncVar *s;
            sync_point(0x50);
            { Guard g; s = sv_get((uintptr_t)a[0]); }
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                if (*(volatile int *)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
                struct timespec *ts = (struct timespec *)a[3]; bool td = ts; uint64_t dl = 0;
                if (ts) { dl = op == FUTEX_WAIT ? g_now + ts->tv_sec * 1000000000ull + ts->tv_nsec : to_mono(a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); }
                block_on(s, "a futex", td, dl);
                if (td && cur->timedout) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { Guard g; int k = 0; for (int i = 0; i < nT && k < a[2]; i++) if (T[i].st == BLOCKED && T[i].wait == s) { wake(&T[i]); k++; } return k; }
        }
        if (n == SYS_gettid) return 5000 + cur->id;
        if (n == SYS_getrandom) { extern ssize_t getrandom(void *, size_t, unsigned); return getrandom((void *)a[0], a[1], a[2]); }
    }
    long r; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
// ---- time ----
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!live()) return sim::live() ? 0 : (int)syscall(SYS_clock_gettime, c, ts);
    sync_point(0x60); Guard g; uint64_t v = clock_read(c); ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0;
}
int gettimeofday(struct timeval *tv, void *) {
    if (!live()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    sync_point(0x61); Guard g; uint64_t v = clock_read(CLOCK_REALTIME); tv->tv_sec = v / 1000000000ull; tv->tv_usec = v % 1000000000ull / 1000; return 0;
}
time_t time(time_t *o) {
    time_t v; if (!live()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    else { sync_point(0x62); Guard g; v = clock_read(CLOCK_REALTIME) / 1000000000ull; }
    if (o) { *o = v; }
    return v;
}
clock_t clock(void) { if (!live()) return 0; Guard g; return clock_read(CLOCK_MONOTONIC) / 1000; }
static int do_sleep(uint64_t ns, struct timespec *rem) {
    cur->dreal = false;
    sync_point(0x63); long v; bool e; { Guard g; e = fault(F_EINTR_SLEEP, &v, 4); }
    if (e) { uint64_t part = ns / 4 * v; uint64_t t0 = g_now; if (part) block_on(nullptr, "sleep", true, g_now + part); else force_yield();
        uint64_t used = g_now - t0; uint64_t left = used < ns ? ns - used : 0; if (rem) { rem->tv_sec = left / 1000000000ull; rem->tv_nsec = left % 1000000000ull; } errno = EINTR; return -1; }
    if (ns == 0) { force_yield(true); return 0; }
    block_on(nullptr, "sleep", true, g_now + ns); return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) { if (!live()) return (int)syscall(SYS_nanosleep, ts, rem); if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec > 999999999) { errno = EINVAL; return -1; } struct timespec c = *ts; return do_sleep(c.tv_sec * 1000000000ull + c.tv_nsec, rem); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) {
    if (!live()) return (int)syscall(SYS_clock_nanosleep, c, fl, ts, rem);
    uint64_t d; if (fl & TIMER_ABSTIME) { uint64_t t = to_mono(c, ts); d = t > g_now ? t - g_now : 0; rem = nullptr; } else d = ts->tv_sec * 1000000000ull + ts->tv_nsec;
    return do_sleep(d, rem) ? errno : 0;
}
int usleep(useconds_t u) { if (!live()) { struct timespec ts = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&ts, nullptr); } return do_sleep(u * 1000ull, nullptr); }
unsigned sleep(unsigned s) { if (!live()) { struct timespec ts = {s, 0}; nanosleep(&ts, nullptr); return 0; } struct timespec rem = {0, 0}; if (do_sleep(s * 1000000000ull, &rem)) return rem.tv_sec + (rem.tv_nsec ? 1 : 0); return 0; }
int sched_yield(void) { if (live()) force_yield(true); return 0; }
pid_t getpid(void) { if (live()) return fs_pid(cur->proc); return (pid_t)syscall(SYS_getpid); }
pid_t getppid(void) { if (live()) return 1; return (pid_t)syscall(SYS_getppid); }
pid_t gettid(void) { if (live()) return 5000 + cur->id; return (pid_t)syscall(SYS_gettid); }
uid_t getuid(void) { return 1000; }
// ---- program end ----
void abort(void) {
    if (cur) { cur->rt = 0; violation("terminate", "abort() was called"); }
    signal(SIGABRT, SIG_DFL); kill((pid_t)syscall(SYS_getpid), SIGABRT); _exit(134);
}
void exit(int c) { if (live()) violation("exit", "exit(%d) was called by the program", c); static auto r = (void (*)(int))real_sym("exit"); r(c); __builtin_unreachable(); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { if (cur) violation("assert", "assertion %s failed at %s:%u", e, f, l); _exit(134); }
void __stack_chk_fail(void) { if (cur) violation("stack-smashing", "stack protector"); _exit(134); }
}
