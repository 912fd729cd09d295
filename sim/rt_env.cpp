// Simulated files, entropy, console, environment and calendar functions.
#include "rt_internal.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <unistd.h>
#include <time.h>
#include <wctype.h>
#include <utime.h>

extern "C" char **environ;
namespace sim {
struct Inode { std::string data; bool exists; };
struct Ofd { Inode *ino; int dev; size_t pos; int flags; int proc; int lock; int refs; };   // dev: 0 file, 1 entropy
static std::map<std::string, Inode *> *files; static std::vector<std::vector<Ofd *>> *tables; static std::map<FILE *, int> *streams;
static std::vector<Ofd *> &fds_of(int proc) { if (tables->size() <= (size_t)proc) tables->resize(proc + 1); return (*tables)[proc]; }     // every process has its descriptors
static const int MAXP = 32; static struct Rnd { struct random_data d; char st[128]; bool on; } rnds[MAXP]; static int births[MAXP];     // and its rand(), and its number
static int ent_mode = 1; static Rng ent_rng; static std::string *con;
static SyncVar *lock_wait;
static const int FD0 = 1000;
static std::string *pendb;
void fs_reset(uint64_t seed) { files = new std::map<std::string, Inode *>(); tables = new std::vector<std::vector<Ofd *>>(); streams = new std::map<FILE *, int>(); con = new std::string(); pendb = new std::string(); ent_rng = Rng(seed ^ 0xE27); lock_wait = sv_get(0x10); }
bool fs_is_sim(int fd) { return tables && fd >= FD0; }
static Ofd *get(int fd) { size_t i = fd - FD0; if (!tables || fd < FD0) return nullptr; auto &t = fds_of(cur->proc); return i < t.size() ? t[i] : nullptr; }
static int put_fd(Ofd *o) { auto &t = fds_of(cur->proc); for (size_t i = 0; i < t.size(); i++) if (!t[i]) { t[i] = o; return FD0 + i; } t.push_back(o); return FD0 + t.size() - 1; }
static void drop(Ofd *o) { if (--o->refs == 0) delete o; }
std::string *file_content(const char *p) { auto i = files->find(p); return i == files->end() ? nullptr : &i->second->data; }
void file_put(const char *p, const std::string &c) { Guard g; Inode *&n = (*files)[p]; if (!n) n = new Inode(); n->data = c; }
void file_remove(const char *p) { Guard g; files->erase(p); }
int open_fds(int proc) { int n = 0; for (auto o : fds_of(proc)) if (o) n++; return n; }
void entropy(int m, uint64_t s) { Guard g; ent_mode = m; ent_rng = Rng(s); }
std::string &console() { return *con; }
static std::map<std::pair<int, FILE *>, std::pair<int, FILE *>> *inherited;      // streams a forked process has from its parent: its own copies, made at first use
void fs_proc_died(int proc) {
    for (auto &o : fds_of(proc)) if (o) { drop(o); o = nullptr; }
    for (auto i = streams->begin(); i != streams->end();) if (i->second / 100000 == proc) i = streams->erase(i); else ++i;
    if (inherited) for (auto i = inherited->begin(); i != inherited->end();) if (i->first.first == proc) i = inherited->erase(i); else ++i;
    wake_all(lock_wait);
}
void fs_proc_new(int proc) { rnds[proc].on = false; births[proc]++; }
pid_t fs_pid(int proc) { return 4200 + proc + MAXP * births[proc]; }
void fs_fork(int parent, int child) {
    fs_proc_died(child); fs_proc_new(child); std::vector<Ofd *> t = fds_of(parent); for (auto o : t) if (o) o->refs++; fds_of(child) = t;
    if (!inherited) inherited = new std::map<std::pair<int, FILE *>, std::pair<int, FILE *>>();
    for (auto &i : *streams) if (i.second / 100000 == parent) (*inherited)[{child, i.first}] = {i.second % 100000, nullptr};
    std::map<FILE *, int> more; for (auto &i : *inherited) if (i.first.first == parent) more[i.first.second] = i.second.first;
    for (auto &m : more) (*inherited)[{child, m.first}] = {m.second, nullptr};
    if (rnds[parent].on) { struct Rnd &q = rnds[child]; memset(&q.d, 0, sizeof q.d); initstate_r(1, q.st, sizeof q.st, &q.d); ptrdiff_t f = rnds[parent].d.fptr - rnds[parent].d.state, r = rnds[parent].d.rptr - rnds[parent].d.state; memcpy(q.st, rnds[parent].st, sizeof q.st); q.d.fptr = q.d.state + f; q.d.rptr = q.d.state + r; q.on = true; }
}
static int do_open(const char *path, int fl) {
    sync_point(0x80); Guard g; maybe_crash();
    long v; if (fault(F_OPEN, &v, 4)) { static const int e[] = {EMFILE, EACCES, ENOENT, EINTR}; errno = e[v & 3]; return -1; }
    Ofd *o = new Ofd(); o->flags = fl; o->proc = cur->proc; o->refs = 1; o->lock = 0; o->pos = 0;
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) { if (!ent_mode) { delete o; errno = ENOENT; return -1; } o->dev = 1; o->ino = nullptr; }
    else {
        o->dev = 0; auto i = files->find(path);
        if (i == files->end()) { if (!(fl & O_CREAT)) { delete o; errno = ENOENT; return -1; } i = files->insert({path, new Inode()}).first; }
        else if ((fl & O_CREAT) && (fl & O_EXCL)) { delete o; errno = EEXIST; return -1; }
        o->ino = i->second; if (fl & O_TRUNC) o->ino->data.clear();
    }
    return put_fd(o);
}
static ssize_t do_read(Ofd *o, void *b, size_t n) {
    long v;
    if (fault(F_READ_EINTR)) { errno = EINTR; return -1; }
    if (fault(F_READ_FAIL)) { errno = EIO; return -1; }
    if (o->dev == 1) { if (ent_mode >= 2) { errno = EIO; return ent_mode == 2 ? -1 : 0; } if (n > 1 && fault(F_READ_SHORT, &v, 15)) { n = v % n; } for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = ent_rng.next() >> 32; return n; }
    size_t av = o->pos < o->ino->data.size() ? o->ino->data.size() - o->pos : 0; if (n > av) n = av;
    if (n > 1 && fault(F_READ_SHORT, &v, 60)) n = 1 + v % (n - 1);
    memcpy(b, o->ino->data.data() + o->pos, n); o->pos += n; return n;
}
static ssize_t do_write(Ofd *o, const void *b, size_t n) {
    long v;
    if (fault(F_WRITE_FAIL)) { errno = ENOSPC; return -1; }
    if (n > 1 && fault(F_WRITE_SHORT, &v, 60)) n = 1 + v % (n - 1);
    if (o->dev) return n;
    if (o->flags & O_APPEND) o->pos = o->ino->data.size();
    if (o->pos + n > o->ino->data.size()) o->ino->data.resize(o->pos + n);
    memcpy(&o->ino->data[o->pos], b, n); o->pos += n; return n;
}
static int do_close(int fd) {
    Ofd *o = get(fd);
    if (!o) { cur->rt = 0; violation("bad-close", "close() of descriptor %d, which is not open (closed twice: it may meanwhile be another thread's)", fd); }
    fds_of(cur->proc)[fd - FD0] = nullptr; drop(o); wake_all(lock_wait); return 0;
}
static void con_out(const void *p, size_t n) { con->append((const char *)p, n); }
// Standard output as the C library keeps it: fully buffered (a file or pipe) or line buffered (a terminal). A failed write
// delivers a part of the buffer and drops the rest, which is what glibc does.
static std::string &pend() { return *pendb; }
static bool con_flush(size_t n) {
    std::string &b = pend(); if (n > b.size()) n = b.size(); long v; if (!n) return true;
    if (fault(F_OUT, &v, 8)) { con_out(b.data(), v == 0 ? 0 : v == 1 ? n - 1 : (size_t)v * n / 8); b.clear(); static const int e[] = {EIO, ENOSPC, EINTR, EAGAIN}; errno = e[v & 3]; return false; }
    con_out(b.data(), n); b.erase(0, n); return true;
}
static size_t con_write(const void *p, size_t n) {
    if (!cfg.console_buf) { if (fault(F_OUT)) { errno = EIO; return 0; } con_out(p, n); return n; }
    std::string &b = pend(); b.append((const char *)p, n); size_t k = b.size() >= (size_t)cfg.console_buf ? b.size() / cfg.console_buf * cfg.console_buf : 0;
    if (cfg.console_tty) { size_t nl = b.rfind('\n'); if (nl != std::string::npos && nl + 1 > k) k = nl + 1; }
    return con_flush(k) ? n : 0;
}
// stdio on simulated descriptors
static std::map<std::pair<int, FILE *>, int> *closed_streams;
static void chk_stream(FILE *f, const char *fn) { if (!closed_streams || closed_streams->empty()) return; Guard g; if (closed_streams->count({cur->proc, f})) { cur->rt = 0; violation("closed-stream", "%s() on a stream that was closed", fn); } }
static ssize_t ck_read(void *c, char *b, size_t n) { Guard g; Ofd *o = get((int)(long)c); if (!o) { errno = EBADF; return -1; } return do_read(o, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { Guard g; Ofd *o = get((int)(long)c); if (!o) { errno = EBADF; return 0; } ssize_t r = do_write(o, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *p, int wh) { Guard g; Ofd *o = get((int)(long)c); if (!o || o->dev) { errno = EBADF; return -1; } off64_t q = wh == SEEK_SET ? *p : wh == SEEK_CUR ? (off64_t)o->pos + *p : (off64_t)o->ino->data.size() + *p; if (q < 0) { errno = EINVAL; return -1; } o->pos = q; *p = q; return 0; }
static int ck_close(void *c) { Guard g; return do_close((int)(long)c); }
static FILE *mkstream(int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(long)fd, mode, io);
    if (f) { (*streams)[f] = fd + 100000 * cur->proc; if (closed_streams) closed_streams->erase({cur->proc, f}); if (inherited) inherited->erase({cur->proc, f}); }
    return f;
}
static FILE *own(FILE *f) {                                                       // the copy of an inherited stream that this process has
    if (!inherited || inherited->empty()) return f;
    Guard g; auto i = inherited->find({cur->proc, f}); if (i == inherited->end()) return f;
    if (!i->second.second) { int fd = i->second.first; FILE *n = mkstream(fd, "r+"); streams->erase(n); i = inherited->insert({{cur->proc, f}, {fd, n}}).first; i->second.second = n; }
    return i->second.second;
}
static uint64_t env_cell[2], locale_cell[2];
void check_environ() { for (char **e = environ; e && *e; e++) if (!heap_addressable(*e)) { cur->rt = 0; violation("dangling-environment", "the environment contains a pointer to freed memory (%p)", *e); } }
void env_access(bool w) { range_access(env_cell, 8, w, (uintptr_t)__builtin_return_address(0)); }
static struct tm *tm_buf() { static struct tm *b; if (!b) { b = (struct tm *)host_alloc(sizeof(struct tm)); memset(b, 0, sizeof *b); } return b; }
void env_snapshot(std::map<std::string, std::string> &out) { Guard g; check_environ(); for (char **e = environ; e && *e; e++) { const char *q = *e; const char *s = q; while (*s && *s != '=') s++; out[std::string(q, s - q)] = *s ? std::string(s + 1) : std::string(); } }
static std::string *eff_zone;                                                    // the TZ value libc last looked at; null: unset
void zone_is(const char *z) { Guard g; eff_zone = z ? new std::string(z) : nullptr; }
static void zone_read() { const char *v = nullptr; for (char **e = environ; e && *e; e++) if (!strncmp(*e, "TZ=", 3)) v = *e + 3; zone_is(v); }
void with_tz(const char *tz, const std::function<void()> &f) {                   // libc in another zone for a moment, unnoticed by the program
    static auto z = (void (*)())real_sym("tzset"); Guard g; char **keep = environ; std::string s = std::string("TZ=") + (tz ? tz : ""), b; char *env[2] = {tz ? &s[0] : nullptr, nullptr};
    environ = env; z(); f(); if (eff_zone) { b = "TZ=" + *eff_zone; env[0] = &b[0]; } else env[0] = nullptr; z(); environ = keep;
}
}
using namespace sim;
#define RSYS(...) ({ long r_ = raw_syscall(__VA_ARGS__); if (r_ < 0 && r_ > -4096) { errno = -r_; r_ = -1; } r_; })
extern "C" {
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (live()) return do_open(p, fl); return (int)RSYS(SYS_openat, AT_FDCWD, (long)p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (live()) return do_open(p, fl); return (int)RSYS(SYS_openat, AT_FDCWD, (long)p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (live()) return do_open(p, fl); return (int)RSYS(SYS_openat, d, (long)p, fl, m); }
int creat(const char *p, mode_t m) { if (live()) return do_open(p, O_CREAT | O_WRONLY | O_TRUNC); return (int)RSYS(SYS_openat, AT_FDCWD, (long)p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) { if (!live()) return RSYS(SYS_read, fd, (long)b, n); sync_point(0x81); Guard g; maybe_crash(); Ofd *o = get(fd); if (!o) { errno = EBADF; return -1; } check_mem((uintptr_t)b, n, true, (uintptr_t)__builtin_return_address(0)); return do_read(o, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    if (!live()) return RSYS(SYS_write, fd, (long)b, n);
    sync_point(0x82); Guard g; maybe_crash();
    if (fd == 1 || fd == 2) { if (fault(F_OUT)) { errno = EIO; return -1; } if (fd == 1) con_out(b, n); return n; }
    Ofd *o = get(fd); if (!o) { errno = EBADF; return -1; } return do_write(o, b, n);
}
int close(int fd) { if (!live() ) { return (int)RSYS(SYS_close, fd); } sync_point(0x83); Guard g; maybe_crash(); return do_close(fd); }
off_t lseek(int fd, off_t p, int wh) { if (!live() || !fs_is_sim(fd)) return RSYS(SYS_lseek, fd, p, wh); Guard g; off64_t q = p; if (ck_seek((void *)(long)fd, &q, wh)) return -1; return q; }
off64_t lseek64(int fd, off64_t p, int wh) { return lseek(fd, p, wh); }
ssize_t pread(int fd, void *b, size_t n, off_t p) { if (!live()) return RSYS(SYS_pread64, fd, (long)b, n, p); Guard g; Ofd *o = get(fd); if (!o) { errno = EBADF; return -1; } size_t s = o->pos; o->pos = p; ssize_t r = do_read(o, b, n); o->pos = s; return r; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t p) { if (!live()) return RSYS(SYS_pwrite64, fd, (long)b, n, p); Guard g; Ofd *o = get(fd); if (!o) { errno = EBADF; return -1; } size_t s = o->pos; o->pos = p; ssize_t r = do_write(o, b, n); o->pos = s; return r; }
int ftruncate(int fd, off_t n) { if (!live()) return (int)RSYS(SYS_ftruncate, fd, n); sync_point(0x84); Guard g; maybe_crash(); if (fault(F_TRUNC)) { errno = EIO; return -1; } Ofd *o = get(fd); if (!o || o->dev) { errno = EBADF; return -1; } o->ino->data.resize(n); return 0; }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int flock(int fd, int op) {
    if (!live()) return (int)RSYS(SYS_flock, fd, op);
    sync_point(0x85); Ofd *o; { Guard g; maybe_crash(); long v; if ((op & ~LOCK_NB) != LOCK_UN && fault(F_FLOCK, &v, 4)) { errno = v == 3 ? ENOLCK : v == 2 ? EAGAIN : EINTR; return -1; } }
    o = get(fd); if (!o) { errno = EBADF; return -1; }
    if ((op & ~LOCK_NB) == LOCK_UN) { Guard g; o->lock = 0; wake_all(lock_wait); return 0; }
    bool ex = (op & LOCK_EX);
    for (;;) {
        bool busy = false; for (auto &t : *tables) for (auto p : t) if (p && p != o && p->ino == o->ino && p->lock && (ex || p->lock == 2)) busy = true;
        if (!busy) break;
        if (op & LOCK_NB) { errno = EWOULDBLOCK; return -1; }
        shm->blocks_contended++;
        block_on(lock_wait, "a file lock", false, 0);
        o = get(fd); if (!o) { errno = EBADF; return -1; }
    }
    o->lock = ex ? 2 : 1; return 0;
}
int lockf(int fd, int cmd, off_t) { return flock(fd, cmd == F_ULOCK ? LOCK_UN : cmd == F_TLOCK ? LOCK_EX | LOCK_NB : LOCK_EX); }
static int do_fcntl(int fd, int c, long a) {
    if (!live()) return (int)RSYS(SYS_fcntl, fd, c, a);
    if (c == F_SETLKW || c == F_SETLK) { struct flock *f = (struct flock *)a; return flock(fd, f->l_type == F_UNLCK ? LOCK_UN : (f->l_type == F_RDLCK ? LOCK_SH : LOCK_EX) | (c == F_SETLK ? LOCK_NB : 0)); }
    if (c == F_DUPFD || c == F_DUPFD_CLOEXEC) { Guard g; Ofd *o = get(fd); if (!o) { errno = EBADF; return -1; } o->refs++; return put_fd(o); }
    return get(fd) ? 0 : (errno = EBADF, -1);
}
int fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, c, a); }
int fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, c, a); }
int dup(int fd) { return do_fcntl(fd, F_DUPFD, 0); }
mode_t umask(mode_t m) { if (live()) return 022; return (mode_t)RSYS(SYS_umask, m); }
int fchmod(int fd, mode_t m) { if (live()) return 0; return (int)RSYS(SYS_fchmod, fd, m); }
int unlink(const char *p) { if (!live()) return (int)RSYS(SYS_unlink, (long)p); sync_point(0x86); Guard g; return files->erase(p) ? 0 : (errno = ENOENT, -1); }
int remove(const char *p) { return unlink(p); }
int rename(const char *a, const char *b) { if (!live()) return (int)RSYS(SYS_rename, (long)a, (long)b); sync_point(0x87); Guard g; auto i = files->find(a); if (i == files->end()) { errno = ENOENT; return -1; } Inode *n = i->second; files->erase(i); (*files)[b] = n; return 0; }
int access(const char *p, int m) { if (!live()) return (int)RSYS(SYS_access, (long)p, m); return files->count(p) ? 0 : (errno = ENOENT, -1); }
int mkdir(const char *p, mode_t m) { if (!live()) return (int)RSYS(SYS_mkdir, (long)p, m); return 0; }
int stat(const char *p, struct stat *st) { if (!live()) return (int)RSYS(SYS_stat, (long)p, (long)st); memset(st, 0, sizeof *st); auto i = files->find(p); if (i == files->end()) { errno = ENOENT; return -1; } st->st_mode = S_IFREG | 0644; st->st_size = i->second->data.size(); return 0; }
int fstat(int fd, struct stat *st) { if (!live()) return (int)RSYS(SYS_fstat, fd, (long)st); memset(st, 0, sizeof *st); Ofd *o = get(fd); if (!o) { errno = EBADF; return -1; } st->st_mode = o->dev ? S_IFCHR | 0666 : S_IFREG | 0644; st->st_size = o->dev ? 0 : o->ino->data.size(); return 0; }
static Rnd &rnd() { Rnd &q = rnds[cur->proc]; if (!q.on) { memset(&q.d, 0, sizeof q.d); initstate_r(1, q.st, sizeof q.st, &q.d); q.on = true; } return q; }
int rand(void) { static auto r = (int (*)())real_sym("rand"); if (!live()) return r(); Guard g; int32_t v; random_r(&rnd().d, &v); return v; }
void srand(unsigned x) { static auto r = (void (*)(unsigned))real_sym("srand"); if (!live()) return r(x); Guard g; srandom_r(x, &rnd().d); }
long random(void) { return rand(); }
void srandom(unsigned x) { srand(x); }
int socket(int a, int b, int c) { if (live()) { errno = EAFNOSUPPORT; return -1; } return (int)RSYS(SYS_socket, a, b, c); }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!live()) return RSYS(SYS_getrandom, (long)b, n, fl);
    sync_point(0x88); Guard g; long v; if (fault(F_READ_EINTR)) { errno = EINTR; return -1; } if (n > 1 && fault(F_READ_SHORT, &v, 15)) n = 1 + v % (n - 1);
    if (!ent_mode) { errno = ENOSYS; return -1; }
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = ent_rng.next() >> 32; return n;
}
int getentropy(void *b, size_t n) { if (!live()) return RSYS(SYS_getrandom, (long)b, n, 0) == (long)n ? 0 : -1; sync_point(0x88); Guard g; if (!ent_mode) { errno = ENOSYS; return -1; } for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = ent_rng.next() >> 32; return 0; }
FILE *fdopen(int fd, const char *mode) {
    if (!live()) { static auto r = (FILE * (*)(int, const char *))real_sym("fdopen"); return r(fd, mode); }
    sync_point(0x89); Guard g; maybe_crash(); if (!get(fd)) { errno = EBADF; return nullptr; } if (fault(F_FDOPEN)) { errno = ENOMEM; return nullptr; } return mkstream(fd, mode);
}
static FILE *do_fopen(const char *p, const char *mode) {
    int fl = mode[0] == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY) : mode[0] == 'w' ? O_CREAT | O_TRUNC | O_RDWR : O_CREAT | O_APPEND | O_RDWR;
    int fd = do_open(p, fl); if (fd < 0) return nullptr; Guard g; return mkstream(fd, mode);
}
FILE *fopen(const char *p, const char *mode) { if (!live()) { static auto r = (FILE * (*)(const char *, const char *))real_sym("fopen"); return r(p, mode); } return do_fopen(p, mode); }
FILE *fopen64(const char *p, const char *mode) { return fopen(p, mode); }
int fclose(FILE *f) {
    static auto r = (int (*)(FILE *))real_sym("fclose"); if (!live()) return r(f); sync_point(0x8A); chk_stream(f, "fclose"); FILE *w = own(f); Guard g; maybe_crash();
    if (w != f || streams->erase(f)) { if (!closed_streams) closed_streams = new std::map<std::pair<int, FILE *>, int>(); (*closed_streams)[{cur->proc, f}] = 1; if (w != f) inherited->erase({cur->proc, f}); } return r(w);
}
int fileno(FILE *f) { if (live()) { auto i = streams->find(f); if (inherited) { auto q = inherited->find({cur->proc, f}); if (q != inherited->end()) return q->second.first; } if (i != streams->end()) return i->second % 100000; } static auto r = (int (*)(FILE *))real_sym("fileno"); return r(f); }
// standard output
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
    static auto r = (size_t(*)(const void *, size_t, size_t, FILE *))real_sym("fwrite");
    if (!live()) return r(p, s, n, f); if (f != stdout && f != stderr) { chk_stream(f, "fwrite"); return r(p, s, n, own(f)); }
    sync_point(0x8B); Guard g; check_mem((uintptr_t)p, s * n, false, (uintptr_t)__builtin_return_address(0)); if (f == stderr) { if (fault(F_OUT)) { errno = EIO; return 0; } return n; } return s ? con_write(p, s * n) / s : n;
}
size_t fwrite_unlocked(const void *p, size_t s, size_t n, FILE *f) { return fwrite(p, s, n, f); }
int fputs(const char *s, FILE *f) { static auto r = (int (*)(const char *, FILE *))real_sym("fputs"); if (!live()) return r(s, f); if (f != stdout && f != stderr) { chk_stream(f, "fputs"); return r(s, own(f)); } size_t n = strlen(s); return fwrite(s, 1, n, f) == n ? 1 : EOF; }
static int do_putc(int c, FILE *f) { unsigned char ch = c; return fwrite(&ch, 1, 1, f) == 1 ? ch : EOF; }
int putc(int c, FILE *f) { static auto r = (int (*)(int, FILE *))real_sym("putc"); if (!live()) return r(c, f); if (f != stdout && f != stderr) { chk_stream(f, "fputc"); return r(c, own(f)); } return do_putc(c, f); }
int fputc(int c, FILE *f) { return putc(c, f); }
int putchar(int c) { return putc(c, stdout); }
int puts(const char *s) { static auto r = (int (*)(const char *))real_sym("puts"); if (!live()) return r(s); size_t n = strlen(s); sync_point(0x8B); Guard g; std::string t(s, n); t += '\n'; return con_write(t.data(), n + 1) == n + 1 ? 1 : EOF; }
int vprintf(const char *f, va_list ap) { static auto r = (int (*)(const char *, va_list))real_sym("vprintf"); if (!live()) return r(f, ap); char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); if (n > 4095) n = 4095; fwrite(b, 1, n, stdout); return n; }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = vprintf(f, ap); va_end(ap); return n; }
int fflush(FILE *f) { static auto r = (int (*)(FILE *))real_sym("fflush"); if (!live() || (f != stdout && f != stderr)) { if (live()) { sync_point(0x8C); chk_stream(f, "fflush"); f = own(f); Guard g; maybe_crash(); return r(f); } return r(f); } sync_point(0x8D); if (f == stdout && cfg.console_buf) { Guard g; return con_flush(~0ul) ? 0 : EOF; } return 0; }
void rewind(FILE *f) { static auto r = (void (*)(FILE *))real_sym("rewind"); if (live()) { chk_stream(f, "rewind"); f = own(f); } r(f); }
int fseek(FILE *f, long o, int w) { static auto r = (int (*)(FILE *, long, int))real_sym("fseek"); if (live()) { chk_stream(f, "fseek"); f = own(f); } return r(f, o, w); }
char *fgets(char *b, int n, FILE *f) { static auto r = (char *(*)(char *, int, FILE *))real_sym("fgets"); if (live()) { chk_stream(f, "fgets"); f = own(f); } return r(b, n, f); }
#define SCAN(name) int name(FILE *f, const char *fmt, ...) { if (live()) { chk_stream(f, "fscanf"); f = own(f); } va_list ap; va_start(ap, fmt); int n = vfscanf(f, fmt, ap); va_end(ap); return n; }
int scan_plain(FILE *, const char *, ...) __asm__("fscanf"); int scan_99(FILE *, const char *, ...) __asm__("__isoc99_fscanf"); int scan_23(FILE *, const char *, ...) __asm__("__isoc23_fscanf");
SCAN(scan_plain) SCAN(scan_99) SCAN(scan_23)
int vfprintf(FILE *f, const char *fmt, va_list ap) { static auto r = (int (*)(FILE *, const char *, va_list))real_sym("vfprintf"); if (!live()) return r(f, fmt, ap); if (f == stdout || f == stderr) { char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); if (n > 4095) n = 4095; fwrite(b, 1, n, f); return n; } chk_stream(f, "fprintf"); f = own(f); return r(f, fmt, ap); }
int fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfprintf(f, fmt, ap); va_end(ap); return n; }
int __fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfprintf(f, fmt, ap); va_end(ap); return n; }
// environment and calendar
int putenv(char *s) { static auto r = (int (*)(char *))real_sym("putenv"); if (!live()) return r(s); sync_point(0x90); env_access(true); Guard g; return r(s); }
int setenv(const char *k, const char *v, int o) { static auto r = (int (*)(const char *, const char *, int))real_sym("setenv"); if (!live()) return r(k, v, o); sync_point(0x90); env_access(true); Guard g; check_environ(); return r(k, v, o); }
int unsetenv(const char *k) { static auto r = (int (*)(const char *))real_sym("unsetenv"); if (!live()) return r(k); sync_point(0x90); env_access(true); Guard g; check_environ(); return r(k); }
char *getenv(const char *k) { static auto r = (char *(*)(const char *))real_sym("getenv"); if (!live()) return r(k); sync_point(0x91); env_access(false); Guard g; check_environ(); return r(k); }
static bool cal() { sync_point(0x92); env_access(false); check_environ(); return true; }
static struct tm *local(const time_t *t, struct tm *o, bool reads) { static auto r = (struct tm * (*)(const time_t *, struct tm *))real_sym("localtime_r"); static auto z = (void (*)())real_sym("tzset"); if (!live()) { if (reads) z(); return r(t, o); } if (reads) cal(); else sync_point(0x92); Guard g; if (reads) { zone_read(); z(); } return r(t, o); }
struct tm *localtime_r(const time_t *t, struct tm *o) { return local(t, o, false); }   // like the C library's, it does not look at TZ again
size_t strftime(char *b, size_t n, const char *f, const struct tm *t) { static auto r = (size_t (*)(char *, size_t, const char *, const struct tm *))real_sym("strftime"); if (!live()) return r(b, n, f, t); cal(); check_mem((uintptr_t)b, n, true, (uintptr_t)__builtin_return_address(0)); check_mem((uintptr_t)t, sizeof *t, false, (uintptr_t)__builtin_return_address(0)); Guard g; zone_read(); return r(b, n, f, t); }
struct tm *gmtime_r(const time_t *t, struct tm *o) { static auto r = (struct tm * (*)(const time_t *, struct tm *))real_sym("gmtime_r"); if (live()) { sync_point(0x92); Guard g; return r(t, o); } return r(t, o); }
struct tm *localtime(const time_t *t) { if (!live()) { static auto r = (struct tm * (*)(const time_t *))real_sym("localtime"); return r(t); } struct tm x, *b = tm_buf(); if (!local(t, &x, true)) return nullptr; range_access(b, sizeof *b, true, (uintptr_t)__builtin_return_address(0)); { Guard g; *b = x; } sync_point(0x93); return b; }
struct tm *gmtime(const time_t *t) { if (!live()) { static auto r = (struct tm * (*)(const time_t *))real_sym("gmtime"); return r(t); } struct tm x, *b = tm_buf(); if (!gmtime_r(t, &x)) return nullptr; range_access(b, sizeof *b, true, (uintptr_t)__builtin_return_address(0)); { Guard g; *b = x; } sync_point(0x93); return b; }
static char *asc_buf() { static char *b; if (!b) b = (char *)host_alloc(64); return b; }
char *asctime(const struct tm *t) { char x[64]; char *b = asc_buf(); { Guard g; if (!asctime_r(t, x)) return nullptr; } if (live()) range_access(b, 26, true, (uintptr_t)__builtin_return_address(0)); { Guard g; memcpy(b, x, strlen(x) + 1); } if (live()) sync_point(0x93); return b; }
char *ctime(const time_t *t) { struct tm *p = localtime(t); return p ? asctime(p) : nullptr; }
time_t mktime(struct tm *t) { static auto r = (time_t(*)(struct tm *))real_sym("mktime"); if (live()) { cal(); Guard g; zone_read(); return r(t); } return r(t); }
void tzset(void) { static auto r = (void (*)())real_sym("tzset"); if (live()) { cal(); Guard g; zone_read(); r(); return; } r(); }
#define WIDE(name) wint_t name(wint_t c) { static auto r = (wint_t (*)(wint_t))real_sym(#name); if (live()) range_access(locale_cell, 8, false, (uintptr_t)__builtin_return_address(0)); return r(c); }
WIDE(towupper) WIDE(towlower)
locale_t newlocale(int m, const char *l, locale_t base) { static auto r = (locale_t (*)(int, const char *, locale_t))real_sym("newlocale"); if (!live()) return r(m, l, base); sync_point(0x95); env_access(false); Guard g; if (cur->allocf && fault(F_MALLOC)) { errno = ENOMEM; return nullptr; } return r(m, l, base); }
char *setlocale(int c, const char *l) { static auto r = (char *(*)(int, const char *))real_sym("setlocale"); if (live()) { sync_point(0x94); range_access(locale_cell, 8, l != nullptr, (uintptr_t)__builtin_return_address(0)); Guard g; return r(c, l); } return r(c, l); }
}
