// Formatted text: what the C library writes into (or reads from) the program's memory is checked like the program's own accesses.
#include "rt_internal.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#include <limits.h>
using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
typedef int (*vsn_t)(char *, size_t, const char *, va_list);
static vsn_t real_vsn() { static vsn_t r = (vsn_t)real_sym("vsnprintf"); return r; }
static void read_args(const char *f, va_list in) {                 // the text arguments are read: walk the format
    va_list ap; va_copy(ap, in);
    for (; *f; f++) {
        if (*f != '%') continue;
        long prec = -1; int len = 0; f++;
        while (*f && strchr("-+ #0'", *f)) f++;
        if (*f == '*') { va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') f++;
        if (*f == '$') break;
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') len++; else if (*f == 'L') len = 9; else if (*f != 'h') break; }
        switch (*f) {
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'c': case 'b': case 'B': if (len) va_arg(ap, long); else va_arg(ap, int); break;
        case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': case 'A': if (len == 9) va_arg(ap, long double); else va_arg(ap, double); break;
        case 's': { const char *s = va_arg(ap, const char *); if (s && !len) { if (prec < 0) (void)strlen(s); else (void)strnlen(s, prec); } break; }
        case 'p': va_arg(ap, void *); break;
        case 'n': va_arg(ap, int *); break;
        case '%': break;
        default: va_end(ap); return;
        }
    }
    va_end(ap);
}
static int fmt(char *d, size_t n, const char *f, va_list ap, uintptr_t pc) {
    if (!live()) return real_vsn()(d, n, f, ap);
    (void)strlen(f); read_args(f, ap);
    char small[2048], *b = small; int len; va_list q; va_copy(q, ap);
    { Guard g; len = real_vsn()(small, sizeof small, f, q); if (len >= (int)sizeof small) { b = (char *)host_alloc(len + 1); va_list r; va_copy(r, ap); real_vsn()(b, len + 1, f, r); va_end(r); } }
    va_end(q);
    if (len >= 0 && n && d) { size_t k = (size_t)len < n ? (size_t)len : n - 1; range_access(d, k + 1, true, pc); Guard g; memcpy(d, b, k); d[k] = 0; }
    if (b != small) { Guard g; free(b); }
    return len;
}
static int afmt(char **out, const char *f, va_list ap, uintptr_t pc) {
    va_list q; va_copy(q, ap); int n = fmt(nullptr, 0, f, q, pc); va_end(q); if (n < 0) return n;
    char *p = (char *)malloc(n + 1); if (!p) return -1;
    fmt(p, n + 1, f, ap, pc); range_access(out, sizeof *out, true, pc); *out = p; return n;
}
#define VARG(call) va_list ap; va_start(ap, f); int n_ = call; va_end(ap); return n_
extern "C" {
int vsnprintf(char *d, size_t n, const char *f, va_list ap) { return fmt(d, n, f, ap, PC); }
int __vsnprintf_chk(char *d, size_t n, int, size_t m, const char *f, va_list ap) { if (live() && n > m) violation("bad-buffer", "vsnprintf into %zu bytes was told of %zu", m, n); return fmt(d, n, f, ap, PC); }
int snprintf(char *d, size_t n, const char *f, ...) { VARG(fmt(d, n, f, ap, PC)); }
int __snprintf_chk(char *d, size_t n, int, size_t m, const char *f, ...) { if (live() && n > m) violation("bad-buffer", "snprintf into %zu bytes was told of %zu", m, n); VARG(fmt(d, n, f, ap, PC)); }
int vsprintf(char *d, const char *f, va_list ap) { return fmt(d, INT_MAX, f, ap, PC); }
int sprintf(char *d, const char *f, ...) { VARG(fmt(d, INT_MAX, f, ap, PC)); }
int __vsprintf_chk(char *d, int, size_t m, const char *f, va_list ap) { int n = fmt(d, m < INT_MAX ? m : INT_MAX, f, ap, PC); if (live() && n >= 0 && (size_t)n >= m) violation("bad-buffer", "sprintf wrote %d bytes into %zu", n + 1, m); return n; }
int __sprintf_chk(char *d, int fl, size_t m, const char *f, ...) { VARG(__vsprintf_chk(d, fl, m, f, ap)); }
int vasprintf(char **o, const char *f, va_list ap) { return afmt(o, f, ap, PC); }
int asprintf(char **o, const char *f, ...) { VARG(afmt(o, f, ap, PC)); }
int __vasprintf_chk(char **o, int, const char *f, va_list ap) { return afmt(o, f, ap, PC); }
int __asprintf_chk(char **o, int, const char *f, ...) { VARG(afmt(o, f, ap, PC)); }
// numbers from text: the library reads up to the character that ends the number
#define NUM(T, name, proto, ...) T sim_##name proto asm(#name); T sim_##name proto { static auto r = (T(*) proto)real_sym(#name); if (live()) (void)strlen(s); Guard g; return r(__VA_ARGS__); }
NUM(long, strtol, (const char *s, char **e, int b), s, e, b) NUM(long, __isoc23_strtol, (const char *s, char **e, int b), s, e, b)
NUM(long long, strtoll, (const char *s, char **e, int b), s, e, b) NUM(long long, __isoc23_strtoll, (const char *s, char **e, int b), s, e, b)
NUM(unsigned long, strtoul, (const char *s, char **e, int b), s, e, b) NUM(unsigned long, __isoc23_strtoul, (const char *s, char **e, int b), s, e, b)
NUM(unsigned long long, strtoull, (const char *s, char **e, int b), s, e, b) NUM(unsigned long long, __isoc23_strtoull, (const char *s, char **e, int b), s, e, b)
NUM(double, strtod, (const char *s, char **e), s, e) NUM(float, strtof, (const char *s, char **e), s, e)
NUM(int, atoi, (const char *s), s) NUM(long, atol, (const char *s), s) NUM(double, atof, (const char *s), s)
struct NoFail { int was; NoFail() : was(cur ? cur->allocf : 0) { if (cur) cur->allocf = 0; } ~NoFail() { if (cur) cur->allocf = was; } };   // the C library's own use of memory while it works on an expression
// regular expressions: the compiled form is locked by the C library while it is used, but not while it is made or freed
int sim_regcomp(void *r, const char *p, int fl) asm("regcomp"); int sim_regexec(const void *r, const char *s, size_t n, void *m, int fl) asm("regexec"); void sim_regfree(void *r) asm("regfree");
int sim_regcomp(void *r, const char *p, int fl) { static auto f = (int (*)(void *, const char *, int))real_sym("regcomp"); if (live()) { (void)strlen(p); range_access(r, 64, true, PC); if (cur->allocf && fault_here(F_MALLOC)) return 12; } NoFail nf; return f(r, p, fl); }
int sim_regexec(const void *r, const char *s, size_t n, void *m, int fl) { static auto f = (int (*)(const void *, const char *, size_t, void *, int))real_sym("regexec"); if (live()) { (void)strlen(s); range_access(r, 64, false, PC); if (cur->allocf && fault_here(F_MALLOC)) return 12; } NoFail nf; int k = f(r, s, n, m, fl); if (live() && n && m) range_access(m, n * 8, true, PC); return k; }
void sim_regfree(void *r) { static auto f = (void (*)(void *))real_sym("regfree"); if (live()) range_access(r, 64, true, PC); f(r); }
}
