// Allocator: a fixed-address arena for the simulated program (red zones, poisoned fresh memory, use-after-free and
// leak detection, failing allocations) and a host arena for the runtime itself; and checked mem*/str* functions.
#include "rt_internal.h"
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <malloc.h>

namespace sim {
extern uint8_t *const valid_map;
void cells_clear(uintptr_t a, size_t n); void range_point(const void *p, size_t n, bool w);
void sv_forget_range(uintptr_t lo, uintptr_t hi);
struct Hdr { uint64_t magic, id; size_t size, span; uint32_t tid, state; uint32_t apc[8], fpc[8]; uint64_t pad[3]; };   // 128 bytes
static_assert(sizeof(Hdr) == 128, "header");
static const uint64_t MAGIC = 0x51A110C8EADull;
static bool up; static uintptr_t host_brk = HOST_BASE, sim_brk = SIM_BASE; static uint64_t next_id;
static void *host_free_l[64]; static volatile int host_lock;
struct HostHdr { size_t size; size_t cls; };
static const int NBUCK = 64; static Hdr *buck[NBUCK];
uint64_t heap_allocs, heap_bytes;
static long live_blocks, live_bytes;

static void init() {
    if (up) return; up = true;
    void *p = mmap((void *)HOST_BASE, HOST_SIZE + SIM_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)HOST_BASE) { static const char m[] = "sim: cannot map heap\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
}
static void hlock() { while (__atomic_exchange_n(&host_lock, 1, __ATOMIC_ACQUIRE)) ; }
static void hunlock() { __atomic_store_n(&host_lock, 0, __ATOMIC_RELEASE); }
void *host_alloc(size_t n, size_t al) {
    init(); hlock();
    int c = 4; while (c < 40 && ((size_t)1 << c) < n) c++;
    if (al <= 16 && host_free_l[c]) { void *p = host_free_l[c]; host_free_l[c] = *(void **)p; ((HostHdr *)((uintptr_t)p - sizeof(HostHdr)))->size = n; hunlock(); return p; }
    uintptr_t a = (host_brk + sizeof(HostHdr) + al - 1) & ~(al - 1);
    size_t sz = n > (1u << 20) ? (n + 15) & ~15ul : (size_t)1 << c;
    host_brk = a + sz;
    if (host_brk > HOST_BASE + HOST_SIZE) { static const char m[] = "sim: host heap exhausted\n"; (void)!write(2, m, sizeof m - 1); _exit(98); }
    HostHdr *h = (HostHdr *)(a - sizeof(HostHdr)); h->size = n; h->cls = n > (1u << 20) || al > 16 ? 63 : c;
    hunlock(); return (void *)a;
}
static void host_free(void *p) { HostHdr *h = (HostHdr *)((uintptr_t)p - sizeof(HostHdr)); if (h->cls == 63) return; hlock(); *(void **)p = host_free_l[h->cls]; host_free_l[h->cls] = p; hunlock(); }
static inline bool in_host(void *p) { return (uintptr_t)p - HOST_BASE < HOST_SIZE; }
static inline bool in_sim(void *p) { return (uintptr_t)p - SIM_BASE < SIM_SIZE; }
void heap_describe(uintptr_t a, char *buf, size_t n);
static void mark(uintptr_t a, size_t n, bool on) {
    size_t g = (a - SIM_BASE) >> 3, k = n >> 3; 
    memset(valid_map + g, on ? 8 : 0, k);
    if (n & 7) valid_map[g + k] = on ? (uint8_t)(n & 7) : 0;
}
static void pcs(uint32_t *d) { Thread *t = cur; for (int i = 0; i < 8; i++) { int k = (t->sp > 256 ? 256 : t->sp) - 1 - i; d[i] = k >= 0 ? t->stk[k] : 0; } }
static void *sim_alloc(size_t n, size_t al) {
    Thread *t = cur;
    heap_allocs++;
    if (t->allocf && fault(F_MALLOC)) { errno = ENOMEM; return nullptr; }
    if (n > (64u << 20)) { errno = ENOMEM; return nullptr; }
    size_t span = sizeof(Hdr) + ((n + 15) & ~15ul) + 32;
    Hdr *h = nullptr;
    if (cfg.heap_reuse && al <= 16) { size_t b = ((n + 15) >> 4); if (b < NBUCK && buck[b]) { h = buck[b]; buck[b] = *(Hdr **)(h + 1); cells_clear((uintptr_t)(h + 1), h->span - sizeof(Hdr)); sv_forget_range((uintptr_t)(h + 1), (uintptr_t)h + h->span); } }
    if (!h) {
        uintptr_t u = (sim_brk + sizeof(Hdr) + al - 1) & ~(al - 1);
        if (u + span > SIM_BASE + SIM_SIZE) { errno = ENOMEM; return nullptr; }
        h = (Hdr *)(u - sizeof(Hdr)); sim_brk = u + span - sizeof(Hdr); h->span = span;
        // chain for walking: every header is found from its predecessor's end; padding of aligned blocks is skipped by magic search
    }
    h->magic = MAGIC; h->id = ++next_id; h->size = n; h->tid = t->id; h->state = 1; pcs(h->apc); memset(h->fpc, 0, sizeof h->fpc);
    mark((uintptr_t)(h + 1), n, true);
    if (cfg.malloc_fill >= 0) memset(h + 1, cfg.malloc_fill, n < 65536 ? n : 65536);
    live_blocks++; live_bytes += n;
    return h + 1;
}
void heap_shift(long n) { sim_brk += n & ~15ul; for (Hdr *&b : buck) b = nullptr; }
static void sim_free(void *p) {
    Hdr *h = (Hdr *)p - 1; char b[600];
    if (((uintptr_t)p & 15) || h->magic != MAGIC) { heap_describe((uintptr_t)p, b, sizeof b); violation("invalid-free", "free of %p, which is not the start of a heap block (%s)", p, b); }
    if (h->state != 1) { heap_describe((uintptr_t)p, b, sizeof b); violation("double-free", "second free of %p (%s)", p, b); }
    Thread *t = cur;
    check_mem((uintptr_t)p, h->size < 4096 ? h->size : 4096, true, t->sp > 0 && t->sp <= 256 ? t->stk[t->sp - 1] : 0x400000);
    h->state = 2; pcs(h->fpc); mark((uintptr_t)p, h->size, false);
    live_blocks--; live_bytes -= h->size;
    if (cfg.malloc_fill >= 0) memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
    if (cfg.heap_reuse) { size_t k = (h->size + 15) >> 4; if (k < NBUCK && k > 0 && h->span == sizeof(Hdr) + ((h->size + 15) & ~15ul) + 32) { *(Hdr **)(h + 1) = buck[k]; buck[k] = h; } }
}
static Hdr *find_hdr(uintptr_t a) { // nearest header at or below a
    for (uintptr_t p = a & ~15ul; p >= SIM_BASE && p + (1 << 20) > a; p -= 16) if (((Hdr *)p)->magic == MAGIC && ((Hdr *)p)->id) return (Hdr *)p;
    return nullptr;
}
void heap_describe(uintptr_t a, char *buf, size_t n) {
    buf[0] = 0;
    if (a - SIM_BASE >= SIM_SIZE) { snprintf(buf, n, a - HOST_BASE < HOST_SIZE ? "memory allocated before the run" : "static or stack memory"); return; }
    Hdr *h = find_hdr(a); if (!h) { snprintf(buf, n, "unallocated heap"); return; }
    size_t o = snprintf(buf, n, "offset %ld in %s block #%lu of %zu bytes allocated by thread %u:", (long)(a - (uintptr_t)(h + 1)), h->state == 1 ? "live" : "freed", h->id, h->size, h->tid);
    for (int i = 0; i < 8 && h->apc[i] && o + 12 < n; i++) o += snprintf(buf + o, n - o, " @%x", h->apc[i]);
    if (h->state != 1 && o + 20 < n) { o += snprintf(buf + o, n - o, "; freed:"); for (int i = 0; i < 8 && h->fpc[i] && o + 12 < n; i++) o += snprintf(buf + o, n - o, " @%x", h->fpc[i]); }
}
void report_bad_access(uintptr_t a, size_t sz, bool w) {
    char b[800]; Thread *t = cur; t->rt++;
    Hdr *h = find_hdr(a); heap_describe(a, b, sizeof b);
    violation(h && h->state != 1 ? "use-after-free" : "heap-out-of-bounds", "%s of %zu bytes at %lx: %s", w ? "write" : "read", sz, a, b);
}
HeapMark heap_mark() { HeapMark m; m.id = next_id; m.live_blocks = live_blocks; m.live_bytes = live_bytes; return m; }
long heap_leaked(const HeapMark &m, std::string *what) {
    Guard g; long n = 0;
    for (uintptr_t p = SIM_BASE; p < sim_brk; p += 16) {
        Hdr *h = (Hdr *)p; if (h->magic != MAGIC) continue;
        if (h->state == 1 && h->id > m.id) { n++; if (what && n <= 3) { char b[500]; heap_describe((uintptr_t)(h + 1), b, sizeof b); *what += b; *what += "; "; } }
        p += (h->span & ~15ul) - 16;
    }
    return n;
}
bool heap_addressable(const void *p) { uintptr_t a = (uintptr_t)p; return a - SIM_BASE >= SIM_SIZE || valid_map[(a - SIM_BASE) >> 3] > (a & 7); }
}
using namespace sim;
extern "C" {
void *malloc(size_t n) { if (!live()) return host_alloc(n); Guard g; return sim_alloc(n, 16); }
static __thread bool dead_thread __attribute__((tls_model("initial-exec")));
void sim_mark_thread_dead() { dead_thread = true; }
void free(void *p) {
    if (!p || dead_thread) return;
    if (in_host(p)) { host_free(p); return; }
    if (in_sim(p)) { if (!cur) return; Guard g; sim_free(p); return; }
    if (live()) violation("invalid-free", "free of %p, which is not heap memory", p);
}
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void *p = malloc(n); if (p) { Guard g; memset(p, 0, n); } return p; }
size_t malloc_usable_size(void *p) { if (!p) return 0; if (in_host(p)) return ((HostHdr *)((uintptr_t)p - sizeof(HostHdr)))->size; return ((Hdr *)p - 1)->size; }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (in_sim(p) && live()) { Hdr *h = (Hdr *)p - 1; if (((uintptr_t)p & 15) || h->magic != MAGIC || h->state != 1) { char b[600]; cur->rt++; heap_describe((uintptr_t)p, b, sizeof b); violation("invalid-free", "realloc of %p (%s)", p, b); } }
    if (n == 0) { free(p); return nullptr; }
    size_t o = malloc_usable_size(p);
    void *q = malloc(n); if (!q) return nullptr;
    { Guard g; memcpy(q, p, o < n ? o : n); }
    free(p); return q;
}
void *memalign(size_t al, size_t n) { if (al < 16) al = 16; if (!live()) return host_alloc(n, al); Guard g; return sim_alloc(n, al); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ul); }
void *reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }

// ---- checked memory functions (built with -fno-builtin) ----
#define PC ((uintptr_t)__builtin_return_address(0))
static inline void cp_fwd(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void cp_bwd(char *d, const char *s, size_t n) { d += n - 1; s += n - 1; asm volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
#define RPOINT(p, n, w) do { range_point(p, n, w); } while (0)
void *memcpy(void *d, const void *s, size_t n) {
    if (live() && n) { uintptr_t pc = PC; RPOINT(s, n, false); Guard g; check_mem((uintptr_t)s, n, false, pc); check_mem((uintptr_t)d, n, true, pc);
        if ((uintptr_t)d < (uintptr_t)s + n && (uintptr_t)s < (uintptr_t)d + n && d != s) violation("memcpy-overlap", "memcpy of %zu bytes between overlapping ranges %p and %p", n, d, s); }
    cp_fwd(d, s, n); return d;
}
void *memmove(void *d, const void *s, size_t n) {
    if (live() && n) { uintptr_t pc = PC; RPOINT(s, n, false); Guard g; check_mem((uintptr_t)s, n, false, pc); check_mem((uintptr_t)d, n, true, pc); }
    if ((uintptr_t)d <= (uintptr_t)s || (uintptr_t)d >= (uintptr_t)s + n) cp_fwd(d, s, n); else if (n) cp_bwd((char *)d, (const char *)s, n);
    return d;
}
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memset(void *d, int c, size_t n) {
    if (live() && n) { uintptr_t pc = PC; RPOINT(d, n, true); Guard g; check_mem((uintptr_t)d, n, true, pc); }
    void *r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}
int memcmp(const void *a, const void *b, size_t n) {
    if (live() && n) { uintptr_t pc = PC; RPOINT(a, n, false); Guard g; check_mem((uintptr_t)a, n, false, pc); check_mem((uintptr_t)b, n, false, pc); }
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
void *sim_memchr(const void *, int, size_t) asm("memchr");
void *sim_memchr(const void *a, int c, size_t n) {
    const unsigned char *x = (const unsigned char *)a; size_t i = 0;
    if (live() && n) RPOINT(a, 1, false);
    for (; i < n; i++) { if (live() && !heap_addressable(x + i)) { Guard g; check_mem((uintptr_t)(x + i), 1, false, PC); } if (x[i] == (unsigned char)c) break; }
    if (live() && n) { Guard g; check_mem((uintptr_t)a, i < n ? i + 1 : n, false, PC); }
    return i < n ? (void *)(x + i) : nullptr;
}
static size_t len_of(const char *s, size_t max, uintptr_t pc) {     // strlen that stops at the first byte the program may not read
    size_t i = 0; bool l = live() && (uintptr_t)s - SIM_BASE < SIM_SIZE;
    if (live()) RPOINT(s, 1, false);
    for (; i < max; i++) { if (l && !heap_addressable(s + i)) { Guard g; check_mem((uintptr_t)(s + i), 1, false, pc); } if (!s[i]) break; }
    if (live()) { Guard g; check_mem((uintptr_t)s, i < max ? i + 1 : max, false, pc); }
    return i;
}
size_t strlen(const char *s) { return len_of(s, ~0ul >> 1, PC); }
size_t strnlen(const char *s, size_t m) { return len_of(s, m, PC); }
char *strcpy(char *d, const char *s) { size_t n = len_of(s, ~0ul >> 1, PC); memcpy(d, s, n + 1); return d; }
char *stpcpy(char *d, const char *s) { size_t n = len_of(s, ~0ul >> 1, PC); memcpy(d, s, n + 1); return d + n; }
char *strncpy(char *d, const char *s, size_t m) { size_t n = len_of(s, m, PC); memcpy(d, s, n); if (n < m) memset(d + n, 0, m - n); return d; }
char *strcat(char *d, const char *s) { size_t o = len_of(d, ~0ul >> 1, PC); strcpy(d + o, s); return d; }
char *strncat(char *d, const char *s, size_t m) { size_t o = len_of(d, ~0ul >> 1, PC), n = len_of(s, m, PC); memcpy(d + o, s, n); memset(d + o + n, 0, 1); return d; }
static int cmp_n(const char *a, const char *b, size_t n, uintptr_t pc) {
    size_t i = 0; int r = 0; bool l = live();
    if (l) RPOINT(a, 1, false);
    for (; i < n; i++) {
        if (l && (!heap_addressable(a + i) || !heap_addressable(b + i))) { Guard g; check_mem((uintptr_t)(a + i), 1, false, pc); check_mem((uintptr_t)(b + i), 1, false, pc); }
        if (a[i] != b[i]) { r = (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; break; }
        if (!a[i]) break;
    }
    if (l && n) { Guard g; size_t k = i < n ? i + 1 : n; check_mem((uintptr_t)a, k, false, pc); check_mem((uintptr_t)b, k, false, pc); }
    return r;
}
int strcmp(const char *a, const char *b) { return cmp_n(a, b, ~0ul >> 1, PC); }
int strncmp(const char *a, const char *b, size_t n) { return cmp_n(a, b, n, PC); }
char *sim_strchr(const char *, int) asm("strchr"); char *sim_strrchr(const char *, int) asm("strrchr"); char *sim_strstr(const char *, const char *) asm("strstr");
char *sim_strchr(const char *s, int c) { const char *p = s; bool l = live(); for (;; p++) { if (l && !heap_addressable(p)) { Guard g; check_mem((uintptr_t)p, 1, false, PC); } if (*p == (char)c) break; if (!*p) { p = nullptr; break; } } if (l) { Guard g; check_mem((uintptr_t)s, p ? p - s + 1 : 1, false, PC); } return (char *)p; }
char *sim_strrchr(const char *s, int c) { if (live()) len_of(s, ~0ul >> 1, PC); const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *sim_strstr(const char *a, const char *b) { size_t n, m; { n = len_of(a, ~0ul >> 1, PC); m = len_of(b, ~0ul >> 1, PC); } if (m > n) return nullptr; for (size_t i = 0; i + m <= n; i++) { size_t j = 0; while (j < m && a[i + j] == b[j]) j++; if (j == m) return (char *)a + i; } return nullptr; }
char *strdup(const char *s) { size_t n = len_of(s, ~0ul >> 1, PC) + 1; char *p = (char *)malloc(n); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = len_of(s, m, PC); char *p = (char *)malloc(n + 1); if (p) { memcpy(p, s, n); memset(p + n, 0, 1); } return p; }
}
