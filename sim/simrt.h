// Deterministic simulation runtime: the interface scenarios use.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Rng {  // splitmix64: one stream per purpose, all derived from the run's seed
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};

struct Op { int t; int op; long a, b, c; };          // one generated operation of client thread t

struct Program {                                       // the generated workload of a run; shrinkable
    std::map<std::string, long> params;
    std::vector<Op> ops;
    long get(const char *k, long d = 0) const { auto i = params.find(k); return i == params.end() ? d : i->second; }
};

enum Site {                                            // fault kinds
    F_SPURIOUS, F_CASWEAK, F_THREAD, F_MALLOC, F_EINTR_SLEEP, F_EINTR_SEM, F_CLOCKJUMP,
    F_OPEN, F_READ_SHORT, F_READ_EINTR, F_READ_FAIL, F_WRITE_SHORT, F_WRITE_FAIL, F_FLOCK, F_FDOPEN,
    F_SIGNALPICK, F_TIMEWARP, F_CRASH, F_THROW, F_TRUNC, F_OUT, F_LEFTOVER, F_NSITES
};
extern const char *site_names[F_NSITES];

struct Config {                                        // what a scenario asks of the runtime
    double rate[F_NSITES];                             // fault probability per opportunity; 0 = off
    double p_adv;                                      // chance, per scheduling event, that time jumps to the next deadline although others can run
    bool races;                                        // data races are violations
    bool leaks;                                        // leaks are violations (scenario marks the window)
    bool liveness;                                     // deadlock / no progress are violations
    long step_cap;
    long clock_tick_ns;                                // every clock read advances the clock by this much
    bool heap_reuse, slot_reuse;
    int malloc_fill;                                   // byte fresh memory is filled with
    int console_buf; bool console_tty;                 // standard output: size of the C library's buffer (0: none), line buffered
    bool timed_only;                                   // p_adv only if no thread runnable
};
Config &config();

// ---- history -------------------------------------------------------------------------------------------------
struct Event { uint64_t inv, ret; int thread; int op; long a, b, c; long r; std::string s; bool done; bool threw; uint64_t inv_t, ret_t; };
int  invoke(int op, long a = 0, long b = 0, long c = 0);                  // returns the index of the event
void ret(int ev, long r = 0);
void ret_s(int ev, const char *data, size_t n, long r = 0);
void ret_throw(int ev);
std::vector<Event> &history();
uint64_t stamp();                                                          // global event sequence number

// ---- verdicts and measurement ----------------------------------------------------------------------------------
void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void probe(const char *name);                                              // "this rare condition was reached"
void cover(uint64_t state);                                                // a state / outcome reached
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));     // text kept for reports only
void observe(uint64_t v);                                                  // folded in the run's event hash

// ---- threads, time, processes ------------------------------------------------------------------------------------
int  spawn(std::function<void()> f, int proc = 0);                         // client thread (never fault-injected); returns simulated id
void join(int id);
bool exited(int id);
int  self();
int  threads_created();
uint64_t mono_ns();                                                        // simulated time, without touching it
int64_t  real_ns();
void set_real_ns(int64_t);                                                       // wall-clock jump
void advance_ns(uint64_t);                                                 // simulated time passes
void sleep_ns(uint64_t);
void yield();                                                              // always offers a switch
bool fault_here(Site s, long *value = nullptr, long nvalues = 1);          // scenario-level fault point
void faults_on(bool);                                                      // "once faults stop"
void alloc_faults(bool);                                                   // failing allocations for the calling thread
void no_preempt(int delta);                                                // scenario bookkeeping regions
void new_process(int proc);                                                // reset statics of simulated process
struct SoloEnv { int fill; bool reuse; long shift; uint64_t later_ns; };          // what the copy finds: contents of fresh memory, reuse of freed memory, where the heap begins, the time
void scribble(int pattern);                                                // fills the unused stack
bool solo(const std::function<void(std::string &)> &f, std::string &out, const SoloEnv *env = nullptr);   // runs f alone in a copy of this process as it is now; false: it did not end normally
void fork_process(int child);                                              // fork(), called by the only thread of its process: statics, descriptors, streams and rand() of the child are copies
void crash_process(int proc);                                              // kill -9: all its threads stop at once
bool process_dead(int proc);

// ---- heap ---------------------------------------------------------------------------------------------------------
struct HeapMark { uint64_t id; long live_blocks; long live_bytes; };
HeapMark heap_mark();
long heap_leaked(const HeapMark &m, std::string *what = nullptr);          // blocks allocated since the mark and still live
uint64_t fault_count(Site s);

// ---- simulated files --------------------------------------------------------------------------------------------
std::string *file_content(const char *path);                                // nullptr: does not exist
void file_put(const char *path, const std::string &content);
void file_remove(const char *path);
int  open_fds(int proc);
void entropy(int mode, uint64_t seed);                                      // 0 = no device, 1 = normal, 2 = every read fails, 3 = every read is empty
void race_exempt(const void *p, size_t n);                                   // accesses to this object are no data races (standard streams)
long thread_faults();                                                       // faults injected into calls of this thread so far
std::string &console();                                                     // bytes that reached standard output
void env_snapshot(std::map<std::string, std::string> &out);

struct Scenario { const char *prop, *name; void (*gen)(Rng &, Program &, Config &); void (*run)(const Program &); };
void add_scenario(const Scenario &);
struct Registrar { Registrar(const char *p, const char *n, void (*g)(Rng &, Program &, Config &), void (*r)(const Program &)) { add_scenario(Scenario{p, n, g, r}); } };
}
#define SCENARIO(prop, name, gen, run) static sim::Registrar reg_##name(prop, #name, gen, run)
