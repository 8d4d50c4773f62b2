// Deterministic simulation runtime: public interface for the harness.
#ifndef SIM_RT_H
#define SIM_RT_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return hi <= lo ? lo : lo + (long) below((uint64_t) (hi - lo + 1)); }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    bool chance(double p) { return u01() < p; }
};
uint64_t hash64(uint64_t a, uint64_t b);
uint64_t hash_str(const char* s);

// ---------------------------------------------------------------- run control
enum Strategy { ST_SERIAL = 0, ST_RANDORDER, ST_RANDWALK, ST_PCT, ST_RR, ST_STALL, ST_REPLAY, ST_COUNT };
extern const char* strategy_name[];

struct Switch { int64_t step; int32_t to; int32_t pad; };

struct Config {
    uint64_t seed = 1;          // whole-run seed
    int strategy = ST_SERIAL;
    int64_t quantum = 1000;     // random walk / rr mean quantum
    double conflict_p = 0;      // chance of a switch at an access conflicting with another fiber's
    double sync_p = 0;          // chance of a switch at a synchronisation point
    int pct_depth = 3;
    int64_t pct_len = 100000;
    int nthreads = 4;           // simulated machine: omp default thread count
    int max_active = 1;         // the application's limit of nested parallel levels
    int team_mode = 0;          // 0 exact, 1 random fewer, 2 always one
    int64_t max_steps = 300000000;
    int garbage = 0;            // heap fill kind
    uint64_t garbage_seed = 1;
    // allocation faults: indexes (1-based over library allocations while armed)
    std::vector<int64_t> fail_at;
    int64_t fail_from = 0;      // all allocations from this one (0: off)
    int64_t fail_size = 0;      // all allocations of at least this size (0: off)
    // clock faults
    int clock_mode = 0;         // 0 steady, 1 fast ticks, 2 wall jumps (forward and back)
    // stream faults: 0 none, 1 failing writes, 2 short writes, 3 slow
    int stream_mode = 0;
    // explicit schedule (replay)
    std::vector<Switch> sched;
    std::vector<int> teams;     // replay: explicit team sizes, else requested
    uintptr_t watch = 0;        // address to log accesses of
};

struct NetStats { int64_t sent, lost, duplicated, reordered, restarts, partitioned; };
struct Stats {
    int64_t steps, switches, conflict_switches, conflicts, sync_ops, accesses;
    int64_t allocs, frees, alloc_faults, stream_faults, clock_jumps, team_shrunk, regions, fibers;
    int64_t stalls, forced_yields, atomics, locks, cutoff;
    int64_t sim_ns;
    NetStats net;
    uint64_t sched_hash;        // hash of the switch sequence
    int max_team;
};

enum { MAX_VIOL = 8 };
struct Violation {
    char kind[32];      // race, bounds, uaf, leak, deadlock, result, ...
    char sig[256];      // stable signature: kind|function|detail
    char msg[1024];
};
struct Result {
    volatile int done;
    int n_viol;
    Violation viol[MAX_VIOL];
    Stats st;
    uint64_t out_hash;          // hash of the outputs
    uint64_t trace_hash;        // everything
    int64_t n_switch_log;
    int n_team_log;
    int team_log[4096];
    int n_fault_log;
    int64_t fault_log[1024];    // allocation indexes failed
    char params[24576];          // drawn parameters name=value;
    char note[512];
    int n_filtered; char filtered[256];
    int nontrivial;             // reached its precondition
    int64_t probes[32];
};
extern Result* R;               // shared with the parent
extern Switch* switch_log;      // shared
extern int64_t switch_log_cap;
extern uint8_t* func_bitmap;    // shared, indexed by text offset
extern uintptr_t text_base; extern size_t text_size;

void process_init();            // once in the parent
void run_begin(const Config& c);// in the child
void run_threads(const std::vector<std::function<void()>>& fns); // run root fibers to completion
bool in_fiber();
int fiber_id();

extern const char* kind_filter;  // space separated kinds that count; null: all
void violation(const char* kind, const char* sig, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void fatal_violation(const char* kind, const char* sig, const char* fmt, ...);
[[noreturn]] void child_finish();

// Library call context. Everything the code under test executes runs inside one.
struct LibScope { LibScope(); ~LibScope(); };
bool lib_call(const std::function<void()>& f, const char* name); // false if an exception escaped

// Allocation from the harness for memory handed to the library.
void* arena_alloc(size_t bytes, const char* name);
void arena_mark_external(void* p);   // caller-owned: not counted as a leak
void arena_release(void* p);         // harness frees (library must not touch it afterwards)
bool arena_is_live(const void* p);
size_t arena_block_size(const void* p);
void race_exempt(void* p, size_t n); // words exempt from the race rule (status)
void alloc_arm(bool on);             // count/fail allocations only while armed
int64_t alloc_count();
int64_t live_blocks(bool report_leaks, const char* sig);
int64_t live_mark();                 // sequence number; leaks reported for blocks after a mark
void report_leaks(int64_t mark, const char* sig);
void yield_point();                  // harness-level scheduling point
void advance_clock(int64_t ns);
int64_t mono_ns();
int64_t wall_ns();
void wall_jump(int64_t ns);
extern bool g_collect_races, g_collect_bounds;
// Simulated network between workers of one operation (harness side): ordering
// edges from a sender to whoever takes the message, and blocking for one.
Rng& fault_rng();
void msg_publish(const void* key);
void msg_observe(const void* key);
void msg_wait(const void* key);
const std::string& captured(int fd);  // text the library wrote to stdout/stderr
struct LogRec { int fd; size_t pos, len; int fiber; int64_t wall, mono; };
void check_locks_released();
const char* symbol_of(const void* pc);
int omp_icv_max_active();
int omp_icv_nthreads();
int omp_icv_dynamic();
} // namespace sim
#endif
