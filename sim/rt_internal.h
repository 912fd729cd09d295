#pragma once
#include "simrt.h"
#include <pthread.h>
#include <time.h>
#include <stdarg.h>
static inline long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {   // usable by threads that do not hold the baton
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
namespace sim {
static const int MAXT = 64;
static const uintptr_t HOST_BASE = 0x10000000000ull, HOST_SIZE = 0x10000000ull;
static const uintptr_t SIM_BASE = HOST_BASE + HOST_SIZE, SIM_SIZE = 0x10000000ull;
static const uintptr_t STACK_BASE = 0x10080000000ull, STACK_SIZE = 0x100000ull;
static const uintptr_t VALID_BASE = 0x10100000000ull;      // one byte per 8 bytes of the simulated heap
static const uintptr_t CELL_BASE = 0x10200000000ull;       // race cells of both heaps
static const uintptr_t GCELL_BASE = 0x10600000000ull;      // race cells of the program's globals

enum State { UNUSED, RUNNABLE, BLOCKED, FINISHED, DEAD };
struct VC { uint32_t c[MAXT]; };
struct SyncVar { SyncVar *next; uintptr_t key; int owner; int count; int lastrel; long val; VC rel; };
struct Thread {
    int id, slot, proc;
    State st;
    pthread_t real; bool joined, detached, client;
    volatile int baton;
    uint64_t steps, next_stop, last_switch_steps;
    int rt, nopre, allocf;
    SyncVar *wait; const char *what; bool timed, timedout, signalled, dreal; uint64_t deadline, wseq;
    bool spur; 
    void *(*fn)(void *); void *arg; void *retv;
    VC vc, acqp, frel;
    long prio;
    uint32_t stk[256]; int sp;
    uint64_t waitkey; long nfault;
};
extern Thread T[MAXT]; extern int nT; extern Thread *cur;
struct Sw { uint16_t tid; uint8_t kind; uint8_t pad; int32_t val; uint64_t tstep; };
struct Fl { int32_t site; int32_t val; uint64_t n; };
enum { K_PREEMPT = 1, K_BLOCK = 2, K_ADV = 3 };
static const long MAXSW = 1 << 18, MAXFL = 1 << 16, MAXPROBE = 128, MAXCOV = 512, MAXNOTE = 1 << 16;
struct Shm {
    volatile int done;          // 1 = finished, 2 = violation
    char cls[160]; char msg[12000];
    uint64_t hash, order_hash, steps, simns, nsw, nblk, blocks_contended;
    uint64_t oppo[F_NSITES], fired[F_NSITES];
    int nthreads;
    long nlog; Sw log[MAXSW]; bool log_overflow;
    long nfl; Fl fl[MAXFL];
    int nprobe; struct { char name[48]; uint64_t n; } probes[MAXPROBE];
    int ncov; uint64_t cov[MAXCOV];
    int nnote; char notes[MAXNOTE];
    int nparams; struct { char k[40]; long v; } params[64];
    long nops; Op ops[4096];
    int nknobs; struct { char k[40]; double v; } knobs[64];
    int truncated;
};
extern Shm *shm;

struct Guard { Thread *t; Guard() : t(cur) { if (t) t->rt++; } ~Guard() { if (t) t->rt--; } };
inline bool live() { return cur && !cur->rt; }

// scheduler entry points
void sync_point(int kind);                    // a visible operation: maybe switch
void block_on(SyncVar *sv, const char *what, bool timed, uint64_t deadline);  // until woken or timed out
void wake(Thread *t);
void wake_all(SyncVar *sv);
SyncVar *sv_get(uintptr_t addr);
SyncVar *sv_find(uintptr_t addr);
void sv_clear(SyncVar *); void hb_acquire(SyncVar *); void hb_release(SyncVar *);
bool fault(Site s, long *val = nullptr, long nvals = 1);
void hash_ev(uint64_t);
void check_mem(uintptr_t a, size_t n, bool w, uintptr_t pc);       // validity + race on a range
void range_access(const void *p, size_t n, bool w, uintptr_t pc);   // point + check
void set_now(uint64_t);
void heap_shift(long n);
extern uint64_t g_now; extern int64_t g_real_off;
extern Config cfg;
extern bool g_faults;
void kill_process(int proc);
uint64_t clock_read(int clk);
// heap
void *host_alloc(size_t n, size_t al = 16);
void heap_reset();
// files
void fs_reset(); void fs_proc_died(int proc);
bool fs_is_sim(int fd);
extern "C" void *real_sym(const char *);
void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void vviolation(const char *cls, const char *fmt, va_list ap) __attribute__((noreturn));
void capture_stack(char *buf, size_t n, Thread *t);
void report_bad_access(uintptr_t, size_t, bool); bool heap_addressable(const void *); void inconclusive(const char *) __attribute__((noreturn)); void force_yield(bool spin); void maybe_crash();
void env_access(bool w);
void check_environ();
void with_tz(const char *tz, const std::function<void()> &f); void zone_is(const char *tz);
}
