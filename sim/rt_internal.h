// Runtime internals shared by the runtime's own files.
#ifndef SIM_RT_INTERNAL_H
#define SIM_RT_INTERNAL_H
#include "rt.h"
#include <cstdlib>
#include <ctime>
#define RTHIDDEN __attribute__((visibility("hidden")))
namespace sim {

enum { MAXT = 64 };
static const uintptr_t REGION_BASE = 0x100000000000ull;
static const size_t ARENA_SIZE = 2048ull << 20;
static const size_t STACK_SIZE = 512 << 10;
static const size_t STACKS_SIZE = MAXT * STACK_SIZE;
static const uintptr_t STACK_BASE = REGION_BASE + ARENA_SIZE;
static const uintptr_t REGION_END = STACK_BASE + STACKS_SIZE;
static const uintptr_t SHADOW_BASE = 0x200000000000ull;
static const uintptr_t DSHADOW_BASE = 0x300000000000ull;

struct VC { uint32_t c[MAXT]; };

struct Cell {
    uint32_t w, r0, r1;              // epochs: tid << 26 | clock (0: none)
    uint32_t wm : 4, m0 : 4, m1 : 4; // byte masks
    uint32_t wat : 1, at0 : 1, at1 : 1;
    uint32_t state : 4;              // 0 unaddressable, 1..4 valid bytes, 15 freed
    uint32_t pad : 13;
};
static_assert(sizeof(Cell) == 16, "cell");
static const int CLK_BITS = 26;
static const uint32_t CLK_MASK = (1u << CLK_BITS) - 1;

struct WorkShare {
    int64_t seq;            // which workshare of the team (0: free)
    int entered, left;
    bool up;
    int64_t next, end, incr, chunk;
    int sect_next, sect_n;
    bool single_taken;
    void* copy_data; bool copy_ready;
    int64_t ordered_next;
    int kind;
};
struct Team {
    int n;
    int arrived; int64_t gen;     // barrier
    VC bar_vc, bar_out;
    int n_done;
    VC done_vc;
    WorkShare ws[32];
    int level, active_level;
    Team* parent; int parent_id;
    bool used;
};

enum FState { F_FREE = 0, F_READY, F_BLOCKED, F_DONE };

struct Fiber {
    int id;                 // creation order in the run
    int tid;                // clock slot
    int root;               // the caller (root fiber) it works for
    FState st;
    void* sp;
    uintptr_t stk_lo, stk_hi;
    uintptr_t stk_min;      // lowest tracked stack address
    void (*fn)(void*); void* arg;
    const std::function<void()>* root_fn;
    VC vc;
    int in_lib;
    const void* wait_obj; const char* wait_kind;
    const void* cond; bool signalled; // in pthread_cond_wait
    int64_t sleep_until;    // simulated mono ns; 0 none
    bool yielding;
    int64_t last_run;            // step at which it last gave up the processor
    bool stalled;           // victim of the stall strategy
    int64_t prio;
    int spin;
    // OpenMP context
    Team* team; int team_id; int64_t ws_seq; int ws_cur; int64_t st_iter; int64_t ord_cur;
    int icv_nthreads, icv_max_active, icv_dynamic;
    bool is_member;         // created for a parallel region
    bool is_pthread; void* pt_ret; bool pt_detached; bool pt_joined;
    void* (*pt_fn)(void*);
    // saved per-thread state
    void* cxa[4];
    unsigned char* tls_copy;
    int tls_key;            // which of the simulated system threads it runs on: 1 + 64 * caller + member, 0 a new one
    int saved_errno;
    // call stack of the code under test
    const void* cs[64]; int csn;
    uint64_t rng_dummy;
};

extern Fiber fibers[MAXT];
extern Fiber* cur;
extern Config cfg;
extern int64_t g_step, g_next;
extern bool g_in_rt;

static inline bool lib_ctx() { return cur && cur->in_lib > 0; }

// scheduling
void sched_point(bool conflict, bool sync);
void block_on(const void* obj, const char* kind);
void wake_all(const void* obj);
Fiber* fiber_create(void (*fn)(void*), void* arg);
void tls_bind(Fiber* f, int key); // run on the system thread of that key, with its thread-local variables
int free_slots();
void fiber_yield(bool strong);

// clocks
void vc_join(VC& a, const VC& b);
void hb_release(VC& v);  // v := v join cur; cur tick
void hb_acquire(const VC& v);
VC* sync_var(const void* addr);

// memory access
void access_range(const void* a, size_t n, bool w, const void* pc);
void reset_shadow(uintptr_t a, size_t n);
void set_state(uintptr_t a, size_t n, int state);
void mark_write(uintptr_t a, size_t n);
void describe_addr(uintptr_t a, char* buf, size_t n);
const char* top_func(const void* pc, char* buf, size_t n);

// alloc
void* lib_alloc(size_t n, size_t align, bool zero, const void* pc, bool* failed);
void lib_free(void* p, const void* pc);
bool in_arena(const void* p);
void alloc_reset();
bool describe_block(uintptr_t a, char* buf, size_t n);
void gomp_reset();
void libc_reset();
int64_t omp_locks_held(char* buf, size_t n);
int root_team_init(Fiber* f);
void release_team(Team* t);
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void __real_free(void*);
} // namespace sim
#endif
