// Batch runner and replayer: one forked process per simulated execution.
#include "rt_internal.h"
#include <cxxabi.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>
#include <typeinfo>

extern "C" { extern char __start_simproc_data[] __attribute__((weak)), __stop_simproc_data[] __attribute__((weak)); extern char __data_start; }
namespace sim {
void plan_init(uint64_t seed, bool replay, const std::vector<Sw> *sw, const std::vector<Fl> *fl);
void race_shadow_init(); void fs_reset(uint64_t); Thread *make_main(void (*fn)(void *), void *); void start_main(Thread *);
extern uintptr_t proc_lo, proc_hi;
static std::vector<Scenario> *scens;
void add_scenario(const Scenario &s) { if (!scens) scens = new std::vector<Scenario>(); scens->push_back(s); }

// ---- statics of simulated processes: one image per process, exchanged when the scheduler changes process ----
static const int MAXP = 32; static int img_cur; static char *img[MAXP], *imgc[MAXP], *pristine; static size_t img_n;
static char *cells_of(uintptr_t a) { return (char *)(GCELL_BASE + ((a - ((uintptr_t)&__data_start & ~7ul)) >> 3) * 32); }
static void statics_init() {
    if (!__start_simproc_data) return;
    proc_lo = (uintptr_t)__start_simproc_data; proc_hi = (uintptr_t)__stop_simproc_data; img_n = proc_hi - proc_lo;
    pristine = (char *)host_alloc(img_n); memcpy(pristine, (void *)proc_lo, img_n);
}
void statics_switch(int proc) {
    if (!img_n || proc == img_cur) return; Guard g;
    size_t cn = (img_n + 7) / 8 * 32;
    if (!img[img_cur]) { img[img_cur] = (char *)host_alloc(img_n); imgc[img_cur] = (char *)host_alloc(cn + 64); }
    memcpy(img[img_cur], (void *)proc_lo, img_n); memcpy(imgc[img_cur], cells_of(proc_lo), cn);
    if (!img[proc]) { memcpy((void *)proc_lo, pristine, img_n); memset(cells_of(proc_lo), 0, cn); }
    else { memcpy((void *)proc_lo, img[proc], img_n); memcpy(cells_of(proc_lo), imgc[proc], cn); }
    img_cur = proc;
}
void statics_fork(int child) {                                                      // the child starts with the statics of the running process
    if (!img_n) return; size_t cn = (img_n + 7) / 8 * 32; if (!img[child]) { img[child] = (char *)host_alloc(img_n); imgc[child] = (char *)host_alloc(cn + 64); }
    memcpy(img[child], (void *)proc_lo, img_n); memcpy(imgc[child], cells_of(proc_lo), cn);
}
void statics_reset(int proc) { if (img_n && proc != img_cur && img[proc]) { memcpy(img[proc], pristine, img_n); memset(imgc[proc], 0, (img_n + 7) / 8 * 32); } }

struct Replay { std::string prop, scen, cls; uint64_t seed, hash; Program prog; bool has_prog; std::vector<Sw> sw; std::vector<Fl> fl; };
static Program *g_prog; static const Scenario *g_sc;
static void main_body(void *) { g_sc->run(*g_prog); }
static void on_sig(int sig, siginfo_t *si, void *uc) {
    if (sig == SIGALRM) { shm->done = 4; snprintf(shm->cls, sizeof shm->cls, "stuck"); raw_syscall(SYS_exit_group, 5); }
    ucontext_t *u = (ucontext_t *)uc; char cls[40];
    if (sig == SIGPROF) { if (cur) cur->rt = 1; violation("hang", "no end after 10 s of processor time in one run, at @%lx", (unsigned long)u->uc_mcontext.gregs[REG_RIP]); }
    strcpy(cls, "crash");
    violation(cls, "signal %d at @%lx, address %p", sig, (unsigned long)u->uc_mcontext.gregs[REG_RIP], si->si_addr);
}
static void on_terminate() {
    std::type_info *ti = abi::__cxa_current_exception_type(); char cls[150];
    const char *n = ti ? ti->name() : "no exception"; 
    snprintf(cls, sizeof cls, "terminate-%s", n);
    if (cur) cur->rt++;
    violation(cls, "std::terminate, exception type %s", n);
}
static void defaults(Config &c) { for (double &r : c.rate) r = 0; c.p_adv = 0; c.races = true; c.leaks = false; c.liveness = true; c.step_cap = 1000000; c.clock_tick_ns = 100; c.heap_reuse = false; c.slot_reuse = false; c.malloc_fill = 0xA5; c.timed_only = false; }
static void child(const Scenario &sc, uint64_t seed, const Replay *rp) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGALRM}) sigaction(s, &sa, nullptr);
    struct itimerval it = {{0, 0}, {10, 0}}; setitimer(ITIMER_PROF, &it, nullptr); it.it_value.tv_sec = 120; setitimer(ITIMER_REAL, &it, nullptr);
    std::set_terminate(on_terminate);
    g_sc = &sc; g_prog = new Program();
    defaults(cfg);
    Rng k(seed ^ 0x1F0B5);
    { static const int fills[] = {0xA5, 0xFF, 0x00, 0x41, 0x7F}; cfg.malloc_fill = fills[k.below(5)]; cfg.heap_reuse = k.chance(0.25); cfg.slot_reuse = k.chance(0.5); static const long ticks[] = {0, 1, 100, 1000, 50000}; cfg.clock_tick_ns = ticks[k.below(5)]; }
    Rng w(seed ^ 0x3A8D); sc.gen(w, *g_prog, cfg);
    if (rp && rp->has_prog) *g_prog = rp->prog;
    { Program *n = new Program(); for (auto &q : g_prog->params) n->params[q.first] = q.second; n->ops.reserve(g_prog->ops.size() + 1); for (auto &q : g_prog->ops) n->ops.push_back(q); g_prog = n; }   // the same containers, however the program came about
    memset((void *)shm->oppo, 0, sizeof shm->oppo);
    shm->nparams = 0; for (auto &p : g_prog->params) if (shm->nparams < 64) { snprintf(shm->params[shm->nparams].k, 40, "%s", p.first.c_str()); shm->params[shm->nparams++].v = p.second; }
    shm->nops = 0; for (auto &o : g_prog->ops) if (shm->nops < 4096) shm->ops[shm->nops++] = o;
    g_now = 1000000000ull * 100; g_real_off = 1700000000ll * 1000000000ll + (int64_t)k.below(1000000000ull * 86400 * 365);
    plan_init(seed, rp != nullptr, rp ? &rp->sw : nullptr, rp ? &rp->fl : nullptr);
    fs_reset(seed);
    Thread *t = make_main(main_body, nullptr);
    start_main(t); raw_syscall(SYS_futex, 0, 0, 0);
    __atomic_store_n(&t->baton, 1, __ATOMIC_SEQ_CST); raw_syscall(SYS_futex, (long)&t->baton, 1 | 128, 1);
    for (;;) raw_syscall(SYS_pause);
}
static void reset_shm() { size_t off = offsetof(Shm, log); memset((void *)shm, 0, off); shm->log_overflow = false; shm->nfl = 0; shm->nprobe = 0; shm->ncov = 0; shm->nnote = 0; shm->nparams = 0; shm->nops = 0; shm->nknobs = 0; shm->truncated = 0; shm->nlog = 0; }
// The kernel here tears dead children down behind our back, slower than we can start them: wait for it when memory gets short.
static bool memory_short() { FILE *f = fopen("/proc/meminfo", "r"); if (!f) return false; char l[128]; long tot = 1, av = 1, v; while (fgets(l, sizeof l, f)) { if (sscanf(l, "MemTotal: %ld", &v) == 1) tot = v; if (sscanf(l, "MemAvailable: %ld", &v) == 1) av = v; } fclose(f); return av < tot / 100 * 55; }
static void run_one(const Scenario &sc, uint64_t seed, const Replay *rp) {
    static long started; if (!rp && ++started % 32 == 0) for (int i = 0; i < 100 && memory_short(); i++) usleep(10000);
    reset_shm();
    pid_t p = fork();
    if (p == 0) { child(sc, seed, rp); _exit(0); }
    if (p < 0) { dprintf(2, "sim: fork failed: %s\n", strerror(errno)); exit(96); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (!shm->done && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { shm->done = 1; shm->truncated = 1; return; }   // the machine ran out of memory
    if (!shm->done) { shm->done = 4; snprintf(shm->cls, sizeof shm->cls, "runner-error"); snprintf(shm->msg, sizeof shm->msg, "child ended without a verdict: wait status %x", st); }
}
static void save_replay(const char *path, const Scenario &sc, uint64_t seed) {
    FILE *f = fopen(path, "w"); if (!f) { dprintf(2, "sim: cannot write %s\n", path); return; }
    fprintf(f, "simreplay 1\nproperty %s\nscenario %s\nseed %lu\n", sc.prop, sc.name, seed);
    fprintf(f, "class %s\nhash %lx\n", shm->cls, shm->hash);
    for (int i = 0; i < shm->nparams; i++) fprintf(f, "param %s %ld\n", shm->params[i].k, shm->params[i].v);
    for (long i = 0; i < shm->nops; i++) { Op &o = shm->ops[i]; fprintf(f, "op %d %d %ld %ld %ld\n", o.t, o.op, o.a, o.b, o.c); }
    for (long i = 0; i < shm->nlog; i++) { Sw &s = shm->log[i]; fprintf(f, "sw %d %lu %d %d\n", s.tid, s.tstep, s.kind, s.val); }
    for (long i = 0; i < shm->nfl; i++) { Fl &x = shm->fl[i]; fprintf(f, "fault %s %lu %d\n", site_names[x.site], x.n, x.val); }
    fclose(f);
}
static bool load_replay(const char *path, Replay &r) {
    FILE *f = fopen(path, "r"); if (!f) return false; char line[4096]; r.has_prog = true; r.seed = 0; r.hash = 0;
    while (fgets(line, sizeof line, f)) {
        char a[256], b[1024]; long x, y, z; int t, o, k, v; unsigned long u;
        if (sscanf(line, "property %255s", a) == 1) r.prop = a;
        else if (sscanf(line, "scenario %255s", a) == 1) r.scen = a;
        else if (sscanf(line, "seed %lu", &u) == 1) r.seed = u;
        else if (sscanf(line, "hash %lx", &u) == 1) r.hash = u;
        else if (sscanf(line, "class %1023[^\n]", b) == 1) r.cls = b;
        else if (sscanf(line, "param %255s %ld", a, &x) == 2) r.prog.params[a] = x;
        else if (sscanf(line, "op %d %d %ld %ld %ld", &t, &o, &x, &y, &z) == 5) r.prog.ops.push_back(Op{t, o, x, y, z});
        else if (sscanf(line, "sw %d %lu %d %d", &t, &u, &k, &v) == 4) { if (t >= 0 && t < MAXT) r.sw.push_back(Sw{(uint16_t)t, (uint8_t)k, 0, v, u}); }
        else if (sscanf(line, "fault %255s %lu %d", a, &u, &v) == 3) { for (int i = 0; i < F_NSITES; i++) if (!strcmp(site_names[i], a)) r.fl.push_back(Fl{i, v, u}); }
    }
    fclose(f); return true;
}
static const Scenario *find(const std::string &n) { for (auto &s : *scens) if (n == s.name) return &s; return nullptr; }
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static double now_s() { struct timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
}
using namespace sim;
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15)); r.next(); return r.next() >> 1; }
int main(int argc, char **argv) {
    if (argc < 2) { for (auto &s : *scens) printf("%s %s\n", s.prop, s.name); return 0; }
    { int pers = personality(0xffffffff); if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } unsetenv("SIM_REEXEC"); }
    for (const char *e : {"LANG", "LANGUAGE", "LC_CTYPE"}) unsetenv(e);
    setenv("LC_ALL", "C.UTF-8", 1);                                  // one execution per seed, whatever the locale of the caller
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    race_shadow_init(); statics_init();
    std::string mode = argv[1];
    if (mode == "replay") {          // replay FILE [verbose]
        Replay r; if (argc < 3 || !load_replay(argv[2], r)) { fprintf(stderr, "cannot read replay\n"); return 2; }
        const Scenario *sc = find(r.scen); if (!sc) { fprintf(stderr, "unknown scenario %s\n", r.scen.c_str()); return 2; }
        run_one(*sc, r.seed, &r);
        printf("{\"done\":%d,\"class\":", shm->done); jstr(stdout, shm->cls); printf(",\"hash\":\"%lx\",\"steps\":%lu,\"switches\":%lu,\"threads\":%d,\"message\":", shm->hash, shm->steps, shm->nsw, shm->nthreads); jstr(stdout, shm->msg);
        shm->notes[shm->nnote] = 0; printf(",\"notes\":"); jstr(stdout, shm->notes); printf("}\n");
        return shm->done == 2 ? 1 : shm->done == 1 ? 0 : 2;
    }
    if (mode == "seed") {            // seed SCENARIO SEED [SAVE]: one recorded run
        const Scenario *sc = find(argv[2]); if (!sc) return 2; uint64_t seed = strtoull(argv[3], nullptr, 10);
        run_one(*sc, seed, nullptr);
        printf("{\"done\":%d,\"class\":", shm->done); jstr(stdout, shm->cls); printf(",\"hash\":\"%lx\",\"order\":\"%lx\",\"steps\":%lu,\"switches\":%lu,\"threads\":%d,\"truncated\":%d,\"nops\":%ld,\"simns\":%lu,\"message\":", shm->hash, shm->order_hash, shm->steps, shm->nsw, shm->nthreads, shm->truncated, shm->nops, shm->simns); jstr(stdout, shm->msg); shm->notes[shm->nnote] = 0; printf(",\"notes\":"); jstr(stdout, shm->notes); printf("}\n");
        if (argc > 4) save_replay(argv[4], *sc, seed);
        return 0;
    }
    if (mode == "seedof") { const Scenario *sc = find(argv[2]); if (!sc) return 2; uint64_t hb = 0; for (const char *p = sc->name; *p; p++) hb = hb * 131 + *p; printf("%lu\n", mix(strtoull(argv[3], nullptr, 10) ^ hb, atol(argv[4]))); return 0; }
    if (mode != "batch" || argc < 8) { fprintf(stderr, "usage: batch SCENARIO BASESEED FIRST STRIDE SECONDS OUTDIR [MAXRUNS]\n"); return 2; }
    const Scenario *sc = find(argv[2]); if (!sc) { fprintf(stderr, "unknown scenario %s\n", argv[2]); return 2; }
    uint64_t base = strtoull(argv[3], nullptr, 10); long first = atol(argv[4]), stride = atol(argv[5]); double secs = atof(argv[6]); std::string out = argv[7]; long maxruns = argc > 8 ? atol(argv[8]) : 1L << 60;
    { cpu_set_t all; CPU_ZERO(&all); if (!sched_getaffinity(0, sizeof all, &all)) { int n = CPU_COUNT(&all), want = n ? (int)(first % n) : 0; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && want-- == 0) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(i, &c); sched_setaffinity(0, sizeof c, &c); break; } } }
    uint64_t hb = 0; for (const char *p = sc->name; *p; p++) hb = hb * 131 + *p;
    double t0 = now_s();
    uint64_t runs = 0, nontriv = 0, steps = 0, sw = 0, simns = 0, incon = 0, rechecks = 0, contended = 0, faulty = 0; uint64_t fired[F_NSITES] = {0}, oppo[F_NSITES] = {0};
    std::unordered_set<uint64_t> orders, hashes, cov; std::map<std::string, uint64_t> probes, strat; std::map<std::string, std::string> viol; std::map<std::string, uint64_t> violn; std::vector<std::string> unrep; long nondet = 0, errors = 0; std::string errtext; int maxthreads = 0;
    for (long i = first; runs < (uint64_t)maxruns && now_s() - t0 < secs; i += stride) {
        uint64_t seed = mix(base ^ hb, i);
        run_one(*sc, seed, nullptr);
        runs++;
        if (shm->done == 4) { errors++; errtext = std::string(shm->cls) + ": " + shm->msg + " seed " + std::to_string(seed); if (errors > 20) break; continue; }
        steps += shm->steps; sw += shm->nsw; simns += std::min<uint64_t>(shm->simns - 100000000000ull, 3600000000000ull); incon += shm->truncated; if (shm->blocks_contended) contended++; if (shm->nthreads > maxthreads) maxthreads = shm->nthreads;
        bool f = false; for (int k = 0; k < F_NSITES; k++) { fired[k] += shm->fired[k]; oppo[k] += shm->oppo[k]; f |= shm->fired[k] > 0; } faulty += f;
        bool nt = (shm->nsw > 2 || f) && !shm->truncated; bool fresh = nt && orders.size() < 4000000 && orders.insert(shm->order_hash).second; 
        if (nt && fresh) nontriv++;
        for (int k = 0; k < shm->ncov; k++) if (cov.size() < 1000000) cov.insert(shm->cov[k]);
        for (int k = 0; k < shm->nprobe; k++) probes[shm->probes[k].name] += shm->probes[k].n;
        for (int k = 0; k < shm->nknobs; k++) if (!strcmp(shm->knobs[k].k, "strategy")) strat[std::to_string((int)shm->knobs[k].v)]++;
        if (shm->done == 2) {
            std::string c = shm->cls; violn[c]++;
            if (!viol.count(c) && viol.size() < 40) {
                std::string path = out + "/" + sc->name + "-" + std::to_string(seed) + ".replay"; save_replay(path.c_str(), *sc, seed); viol[c] = path;
                uint64_t h = shm->hash; std::string m = shm->msg; Replay r; load_replay(path.c_str(), r); run_one(*sc, seed, &r);
                if (shm->done == 1) { viol.erase(c); violn.erase(c); unrep.push_back(c + " in " + sc->name + ", seed " + std::to_string(seed)); }   // held when run again: what the machine did, not what the code does
                else if (shm->hash != h || c != shm->cls) { nondet++; errtext = "violation seed " + std::to_string(seed) + " not repeatable: " + c + " / " + shm->cls; }
            }
        } else if (runs % 50 == 1 && !shm->truncated) {
            uint64_t h = shm->hash; rechecks++;
            if (rechecks & 1) { std::string path = out + "/.recheck-" + std::to_string(first) + ".replay"; save_replay(path.c_str(), *sc, seed); Replay r; load_replay(path.c_str(), r); run_one(*sc, seed, &r); unlink(path.c_str()); }
            else run_one(*sc, seed, nullptr);
            if (shm->hash != h && !shm->truncated) { nondet++; errtext = "seed " + std::to_string(seed) + " hash differs"; }
        }
    }
    FILE *o = stdout;
    fprintf(o, "{\"scenario\":\"%s\",\"runs\":%lu,\"nontrivial\":%lu,\"steps\":%lu,\"switches\":%lu,\"sim_ns\":%lu,\"inconclusive\":%lu,\"rechecks\":%lu,\"nondet\":%ld,\"errors\":%ld,\"contended_runs\":%lu,\"faulty_runs\":%lu,\"max_threads\":%d,\"distinct_orders\":%zu,\"distinct_outcomes\":%zu,\"wall\":%.2f,\"errtext\":", sc->name, runs, nontriv, steps, sw, simns, incon, rechecks, nondet, errors, contended, faulty, maxthreads, orders.size(), cov.size(), now_s() - t0); jstr(o, errtext.c_str());
    fprintf(o, ",\"faults\":{"); bool c1 = false; for (int k = 0; k < F_NSITES; k++) if (oppo[k] || fired[k]) { fprintf(o, "%s\"%s\":[%lu,%lu]", c1 ? "," : "", site_names[k], fired[k], oppo[k]); c1 = true; }
    fprintf(o, "},\"probes\":{"); c1 = false; for (auto &p : probes) { fprintf(o, "%s\"%s\":%lu", c1 ? "," : "", p.first.c_str(), p.second); c1 = true; }
    fprintf(o, "},\"strategies\":{"); c1 = false; for (auto &p : strat) { fprintf(o, "%s\"%s\":%lu", c1 ? "," : "", p.first.c_str(), p.second); c1 = true; }
    fprintf(o, "},\"orders\":["); c1 = false; { long n = 0; for (auto h : orders) { if (n++ >= 300000) break; fprintf(o, "%s\"%lx\"", c1 ? "," : "", h); c1 = true; } }
    fprintf(o, "],\"violations\":["); c1 = false; for (auto &v : viol) { fprintf(o, "%s{\"class\":", c1 ? "," : ""); jstr(o, v.first.c_str()); fprintf(o, ",\"count\":%lu,\"replay\":", violn[v.first]); jstr(o, v.second.c_str()); fprintf(o, "}"); c1 = true; }
    fprintf(o, "],\"unrepeated\":["); for (size_t k = 0; k < unrep.size(); k++) { if (k) fputc(',', o); jstr(o, unrep[k].c_str()); }
    fprintf(o, "]}\n");
    return 0;
}
