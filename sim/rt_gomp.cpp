// The OpenMP run-time the code under test runs on: team members are fibers,
// every construct is a scheduling point and an ordering edge.
#include "rt_internal.h"
#include <omp.h>

namespace sim {

static Team teams[MAXT * 2];
static int team_regions;
struct Lock { const void* a; int owner; int count; VC vc; bool nest; bool used; int kind; };
enum { NLOCK = 512 };
static Lock locks[NLOCK];

void gomp_reset()
{
    memset((void*) teams, 0, sizeof teams);
    memset((void*) locks, 0, sizeof locks);
    team_regions = 0;
}

static Team* new_team(int n)
{
    for (auto& t : teams) if (!t.used) { memset((void*) &t, 0, sizeof t); t.used = true; t.n = n; return &t; }
    violation("harness", "harness|teams", "out of team slots"); child_finish();
}
void release_team(Team* t) { t->used = false; }
int root_team_init(Fiber* f)
{
    f->team = new_team(1); f->team_id = 0;
    return 0;
}

static void op() { ++g_step; ++R->st.sync_ops; sched_point(false, true); }

static int pick_team(unsigned requested)
{
    int want = requested ? (int) requested : cur->icv_nthreads;
    if (want < 1) want = 1;
    if (cur->team->active_level >= cur->icv_max_active) return 1;
    int n = want;
    if (cfg.strategy == ST_REPLAY)
    {
        if (team_regions < (int) cfg.teams.size() && cfg.teams[team_regions] > 0 && cfg.teams[team_regions] < n) n = cfg.teams[team_regions];
    }
    else if (cfg.team_mode == 1 && n > 1 && fault_rng().chance(0.5)) n = 1 + (int) fault_rng().below(n);
    else if (cfg.team_mode == 2) n = 1;
    int fs = free_slots();
    if (n - 1 > fs) n = fs + 1;
    if (n < 1) n = 1;
    if (n > 32) n = 32;
    if (n < want) ++R->st.team_shrunk;
    if (team_regions < 4096) { R->team_log[team_regions] = n; R->n_team_log = team_regions + 1; }
    ++team_regions;
    if (n > R->st.max_team) R->st.max_team = n;
    ++R->st.regions;
    return n;
}

static void team_barrier()
{
    Team* t = cur->team;
    op();
    if (t->n <= 1) return;
    vc_join(t->bar_vc, cur->vc); cur->vc.c[cur->tid]++;
    int64_t g = t->gen;
    if (++t->arrived == t->n)
    {
        t->arrived = 0; t->gen++;
        t->bar_out = t->bar_vc;
        memset((void*) &t->bar_vc, 0, sizeof(VC));
        hb_acquire(t->bar_out);
        wake_all(t);
        op();
        return;
    }
    while (t->gen == g) block_on(t, "barrier");
    hb_acquire(t->bar_out);
}

struct Launch { void (*fn)(void*); void* data; Team* t; };
static void member_main(void* p)
{
    Launch* l = (Launch*) p;
    l->fn(l->data);
    Team* t = cur->team;
    vc_join(t->done_vc, cur->vc);
    if (++t->n_done == t->n - 1) wake_all(&t->n_done);
}


static void parallel(void (*fn)(void*), void* data, unsigned nthreads, const std::function<void(Team*)>* pre)
{
    if (!cur) { fn(data); return; }
    Fiber* f = cur;
    op();
    Team* parent = f->team; int pid = f->team_id; int64_t pseq = f->ws_seq; int pcur = f->ws_cur; int64_t piter = f->st_iter;
    int n = pick_team(nthreads);
    Team* t = new_team(n);
    t->parent = parent; t->parent_id = pid;
    t->level = parent->level + 1;
    t->active_level = parent->active_level + (n > 1 ? 1 : 0);
    if (pre && *pre) (*pre)(t);
    Launch* l = (Launch*) __real_malloc(sizeof(Launch));
    l->fn = fn; l->data = data; l->t = t;
    int csn = f->csn;
    for (int i = 1; i < n; ++i)
    {
        Fiber* m = fiber_create(member_main, l);
        if (!m) { violation("harness", "harness|slots", "out of fibers"); child_finish(); }
        m->team = t; m->team_id = i; m->is_member = true;
        if (t->level == 1 && f->tls_key && i < 64) tls_bind(m, f->tls_key + i);
        if (pre) { m->ws_seq = 1; m->ws_cur = 0; }
        if (csn > 0) { int k = csn > 64 ? 64 : csn; m->cs[0] = f->cs[k - 1]; m->csn = 1; }
    }
    f->team = t; f->team_id = 0; f->ws_seq = pre ? 1 : 0; f->ws_cur = 0; f->st_iter = 0;
    op();
    fn(data);
    while (t->n_done < t->n - 1) block_on(&t->n_done, "end of parallel region");
    hb_acquire(t->done_vc);
    f->csn = csn;
    f->team = parent; f->team_id = pid; f->ws_seq = pseq; f->ws_cur = pcur; f->st_iter = piter;
    release_team(t);
    __real_free(l);
    op();
}

// ---------------------------------------------------------- work-sharing
enum { WS_STATIC = 1, WS_DYNAMIC, WS_GUIDED, WS_SECTIONS, WS_SINGLE };

static WorkShare* ws_slot(Team* t, int64_t seq) { return &t->ws[seq % 32]; }
static WorkShare* enter_ws(bool* first)
{
    Team* t = cur->team;
    int64_t seq = ++cur->ws_seq;
    WorkShare* w = ws_slot(t, seq);
    // a slot is reusable when the whole team has left it
    while (w->seq && w->seq != seq && w->left < t->n) block_on(w, "work-share slot");
    if (w->seq != seq) { memset((void*) w, 0, sizeof *w); w->seq = seq; *first = true; }
    else *first = false;
    w->entered++;
    cur->ws_cur = (int) (seq % 32);
    cur->st_iter = 0;
    return w;
}
static void leave_ws()
{
    WorkShare* w = &cur->team->ws[cur->ws_cur];
    if (++w->left >= cur->team->n) wake_all(w);
}
static void init_ws(WorkShare* w, int kind, bool up, int64_t s, int64_t e, int64_t inc, int64_t chunk)
{
    w->kind = kind; w->up = up; w->next = s; w->end = e; w->incr = inc; w->chunk = chunk;
    if ((inc > 0 && s > e) || (inc < 0 && s < e)) w->end = s;
}
static bool loop_next(long* is, long* ie)
{
    op();
    Team* t = cur->team;
    WorkShare* w = &t->ws[cur->ws_cur];
    if (w->kind == WS_STATIC)
    {
        int64_t total = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
        if (total <= 0) return false;
        int64_t lo, hi;
        if (w->chunk <= 0)
        {
            if (cur->st_iter) return false;
            int64_t q = total / t->n, r = total % t->n, me = cur->team_id;
            lo = me * q + (me < r ? me : r); hi = lo + q + (me < r ? 1 : 0);
            cur->st_iter = 1;
        }
        else
        {
            int64_t ch = w->incr > 0 ? w->chunk : w->chunk;
            lo = (cur->st_iter * t->n + cur->team_id) * ch; hi = lo + ch;
            cur->st_iter++;
            if (hi > total) hi = total;
        }
        if (lo >= hi) return false;
        *is = w->next + lo * w->incr; *ie = w->next + hi * w->incr;
        return true;
    }
    if (w->next == w->end || (w->incr > 0 ? w->next > w->end : w->next < w->end)) return false;
    int64_t left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    int64_t c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == WS_GUIDED) { int64_t g = (left + t->n - 1) / t->n; if (g > c) c = g; }
    if (c > left) c = left;
    *is = w->next; w->next += c * w->incr; *ie = w->next;
    if (c == left) *ie = w->end;
    return true;
}
static bool loop_start(int kind, long s, long e, long inc, long chunk, long* is, long* ie)
{
    op();
    bool first; WorkShare* w = enter_ws(&first);
    if (first) init_ws(w, kind, inc > 0, s, e, inc, chunk);
    if (!is) return true;
    return loop_next(is, ie);
}
static int sections_next()
{
    op();
    WorkShare* w = &cur->team->ws[cur->ws_cur];
    if (w->sect_next >= w->sect_n) return 0;
    return ++w->sect_next;
}

// ---------------------------------------------------------- locks
static Lock* find_lock(const void* a, bool create)
{
    Lock* fr = 0;
    for (auto& l : locks) { if (l.used && l.a == a) return &l; if (!l.used && !fr) fr = &l; }
    if (!create) return 0;
    if (!fr) { violation("harness", "harness|locks", "out of lock slots"); child_finish(); }
    memset((void*) fr, 0, sizeof *fr); fr->used = true; fr->a = a; fr->owner = -1;
    return fr;
}
void lock_acquire(const void* a, const char* kind, bool recursive)
{
    ++R->st.locks;
    op();
    Lock* l = find_lock(a, true);
    if (recursive && l->owner == cur->id) { ++l->count; return; }
    while (l->owner >= 0) { block_on(a, kind); l = find_lock(a, true); }
    l->owner = cur->id; l->count = 1; l->kind = kind[0];
    hb_acquire(l->vc);
    op();
}
bool lock_try(const void* a, const char* kind, bool recursive)
{
    op();
    Lock* l = find_lock(a, true);
    if (recursive && l->owner == cur->id) { ++l->count; return true; }
    if (l->owner >= 0) { if (++cur->spin > 100) { cur->spin = 0; fiber_yield(true); } return false; }
    l->owner = cur->id; l->count = 1; l->kind = kind[0];
    hb_acquire(l->vc);
    return true;
}
void lock_release(const void* a, const char* kind)
{
    op();
    Lock* l = find_lock(a, false);
    if (!l || l->owner != cur->id)
    {
        char sg[128]; snprintf(sg, sizeof sg, "lock|unlock-not-owner|%s", kind);
        violation("lock", sg, "%s released by thread %d which does not hold it", kind, cur->id);
        return;
    }
    if (--l->count > 0) return;
    l->owner = -1;
    hb_release(l->vc);
    wake_all(a);
    op();
}
// Locks which no function keeps for its caller: streams and critical sections.
void locks_left(const char* name)
{
    if (cur->in_lib) return;
    for (auto& l : locks)
        if (l.used && l.owner == cur->id && (l.kind == 's' || l.kind == 'c' || l.kind == 'a'))
        {
            char sg[160]; snprintf(sg, sizeof sg, "lock|kept|%s|%s", l.kind == 's' ? "stream" : "critical", name);
            violation("lock", sg, "%s returned while it still holds a %s", name, l.kind == 's' ? "stream's lock" : "critical section");
        }
}
void lock_destroy(const void* a, const char* kind)
{
    Lock* l = find_lock(a, false);
    if (!l) return;
    if (l->owner >= 0)
    {
        char sg[128]; snprintf(sg, sizeof sg, "lock|destroy-held|%s", kind);
        violation("lock", sg, "%s destroyed while held by thread %d", kind, l->owner);
    }
    l->used = false;
}
void check_locks_released()
{
    for (auto& l : locks)
        if (l.used && l.owner >= 0)
        {
            // a thread of the library's own which still runs may hold one for the moment
            bool busy = false;
            for (int i = 0; i < MAXT; ++i)
                busy |= fibers[i].id == l.owner && fibers[i].is_pthread && fibers[i].st == F_READY;
            if (busy) continue;
            violation("lock", "lock|leaked", "a lock is still held (by thread %d) after all calls returned", l.owner);
            l.used = false;
        }
}
int omp_icv_max_active() { return cur ? cur->icv_max_active : 1; }
int omp_icv_nthreads() { return cur ? cur->icv_nthreads : 1; }
int omp_icv_dynamic() { return cur ? cur->icv_dynamic : 0; }

} // namespace sim
using namespace sim;

static char crit_anon, atomic_lock;
static int run_sched_kind = WS_DYNAMIC; static long run_sched_chunk = 1;

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, 0); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, 0); return n ? n : 1; }
#define PLOOP(name, kind) \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, long chunk, unsigned) { \
    std::function<void(Team*)> pre = [=](Team* t) { WorkShare* w = ws_slot(t, 1); w->seq = 1; w->entered = t->n; init_ws(w, kind, inc > 0, s, e, inc, chunk); }; \
    /* workshare 1 is already entered by every member */ \
    struct A { void (*fn)(void*); void* d; } a = {fn, data}; \
    parallel([](void* p) { A* a = (A*) p; cur->ws_seq = 1; cur->ws_cur = 1; cur->st_iter = 0; a->fn(a->d); }, &a, n, &pre); }
PLOOP(static, WS_STATIC) PLOOP(dynamic, WS_DYNAMIC) PLOOP(guided, WS_GUIDED)
PLOOP(nonmonotonic_dynamic, WS_DYNAMIC) PLOOP(nonmonotonic_guided, WS_GUIDED)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, unsigned fl) { GOMP_parallel_loop_dynamic(fn, data, n, s, e, inc, run_sched_chunk, fl); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name, kind) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long chunk, long* is, long* ie) { return loop_start(kind, s, e, inc, chunk, is, ie); } \
bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next(is, ie); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk, unsigned long long* is, unsigned long long* ie) { (void) up; return loop_start(kind, (long) s, (long) e, (long) inc, (long) chunk, (long*) is, (long*) ie); } \
bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return loop_next((long*) is, (long*) ie); }
LOOP(static, WS_STATIC) LOOP(dynamic, WS_DYNAMIC) LOOP(guided, WS_GUIDED)
LOOP(nonmonotonic_dynamic, WS_DYNAMIC) LOOP(nonmonotonic_guided, WS_GUIDED)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long* is, long* ie) { return loop_start(run_sched_kind, s, e, inc, run_sched_chunk, is, ie); } \
bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next(is, ie); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long* is, unsigned long long* ie) { (void) up; return loop_start(run_sched_kind, (long) s, (long) e, (long) inc, run_sched_chunk, (long*) is, (long*) ie); } \
bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return loop_next((long*) is, (long*) ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
bool GOMP_loop_start(long s, long e, long inc, long sched, long chunk, long* is, long* ie, uintptr_t*, void**)
{
    int k = (sched & 0xff) == 1 ? WS_STATIC : (sched & 0xff) == 3 ? WS_GUIDED : WS_DYNAMIC;
    return loop_start(k, s, e, inc, chunk, is, ie);
}
void GOMP_loop_end(void) { leave_ws(); team_barrier(); }
void GOMP_loop_end_nowait(void) { leave_ws(); op(); }
bool GOMP_loop_end_cancel(void) { leave_ws(); team_barrier(); return false; }
unsigned GOMP_sections_start(unsigned n)
{
    op(); bool first; WorkShare* w = enter_ws(&first);
    if (first) { w->kind = WS_SECTIONS; w->sect_n = (int) n; w->sect_next = 0; }
    return (unsigned) sections_next();
}
unsigned GOMP_sections_next(void) { return (unsigned) sections_next(); }
void GOMP_sections_end(void) { leave_ws(); team_barrier(); }
void GOMP_sections_end_nowait(void) { leave_ws(); op(); }
bool GOMP_sections_end_cancel(void) { leave_ws(); team_barrier(); return false; }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{
    std::function<void(Team*)> pre = [=](Team* t) { WorkShare* w = ws_slot(t, 1); w->seq = 1; w->entered = t->n; w->kind = WS_SECTIONS; w->sect_n = (int) count; };
    struct A { void (*fn)(void*); void* d; } a = {fn, data};
    parallel([](void* p) { A* a = (A*) p; cur->ws_seq = 1; cur->ws_cur = 1; a->fn(a->d); }, &a, n, &pre);
}
bool GOMP_single_start(void)
{
    op(); bool first; enter_ws(&first);
    leave_ws();
    return first;
}
void* GOMP_single_copy_start(void)
{
    op(); bool first; WorkShare* w = enter_ws(&first);
    if (first) return 0;
    while (!w->copy_ready) block_on(&w->copy_ready, "single copyprivate");
    void* d = w->copy_data;
    hb_acquire(*sync_var(&w->copy_ready));
    leave_ws();
    return d;
}
void GOMP_single_copy_end(void* d)
{
    WorkShare* w = &cur->team->ws[cur->ws_cur];
    w->copy_data = d; w->copy_ready = true; hb_release(*sync_var(&w->copy_ready));
    wake_all(&w->copy_ready); leave_ws();
    team_barrier();
}
void GOMP_barrier(void) { if (cur) team_barrier(); }
bool GOMP_barrier_cancel(void) { team_barrier(); return false; }
void GOMP_critical_start(void) { if (cur) lock_acquire(&crit_anon, "critical section", false); }
void GOMP_critical_end(void) { if (cur) lock_release(&crit_anon, "critical section"); }
void GOMP_critical_name_start(void** p) { if (cur) lock_acquire(p, "critical section", false); }
void GOMP_critical_name_end(void** p) { if (cur) lock_release(p, "critical section"); }
void GOMP_atomic_start(void) { if (cur) lock_acquire(&atomic_lock, "atomic", false); }
void GOMP_atomic_end(void) { if (cur) lock_release(&atomic_lock, "atomic"); }
void GOMP_ordered_start(void) { op(); }
void GOMP_ordered_end(void) { op(); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, bool, unsigned, void**, int, void*)
{
    op();
    if (cpyfn)
    {
        char* buf = (char*) __real_malloc(arg_size + arg_align);
        char* a = (char*) (((uintptr_t) buf + arg_align - 1) & ~(uintptr_t) (arg_align - 1));
        cpyfn(a, data); fn(a); __real_free(buf);
    }
    else fn(data);
    op();
}
void GOMP_taskwait(void) { op(); }
void GOMP_taskwait_depend(void**) { op(); }
void GOMP_taskyield(void) { op(); }
void GOMP_taskgroup_start(void) { op(); }
void GOMP_taskgroup_end(void) { op(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_thread_num(void) { return cur ? cur->team_id : 0; }
int omp_get_num_threads(void) { return cur ? cur->team->n : 1; }
int omp_get_max_threads(void) { return cur ? cur->icv_nthreads : 1; }
int omp_get_num_procs(void) { return cfg.nthreads; }
int omp_in_parallel(void) { return cur ? cur->team->active_level > 0 : 0; }
void omp_set_num_threads(int n) { if (cur && n > 0) cur->icv_nthreads = n; }
void omp_set_dynamic(int d) { if (cur) cur->icv_dynamic = d; }
int omp_get_dynamic(void) { return cur ? cur->icv_dynamic : 0; }
void omp_set_nested(int n) { if (cur) cur->icv_max_active = n ? 255 : 1; }
int omp_get_nested(void) { return cur ? cur->icv_max_active > 1 : 0; }
void omp_set_max_active_levels(int n) { if (cur && n >= 0) cur->icv_max_active = n; }
int omp_get_max_active_levels(void) { return cur ? cur->icv_max_active : 1; }
int omp_get_supported_active_levels(void) { return 255; }
int omp_get_level(void) { return cur ? cur->team->level : 0; }
int omp_get_active_level(void) { return cur ? cur->team->active_level : 0; }
int omp_get_ancestor_thread_num(int l)
{
    if (!cur || l < 0 || l > cur->team->level) return -1;
    Team* t = cur->team; int id = cur->team_id;
    while (t && t->level > l) { id = t->parent_id; t = t->parent; }
    return t && t->level == 0 ? 0 : id;
}
int omp_get_team_size(int l)
{
    if (!cur || l < 0 || l > cur->team->level) return -1;
    Team* t = cur->team; while (t && t->level > l) t = t->parent;
    return t ? t->n : 1;
}
int omp_get_thread_limit(void) { return 32; }
int omp_in_final(void) { return 0; }
int omp_get_cancellation(void) { return 0; }
omp_proc_bind_t omp_get_proc_bind(void) { return (omp_proc_bind_t) 0; }
void omp_set_schedule(omp_sched_t k, int c) { run_sched_kind = k == 1 ? WS_STATIC : k == 3 ? WS_GUIDED : WS_DYNAMIC; run_sched_chunk = c; }
void omp_get_schedule(omp_sched_t* k, int* c) { *k = (omp_sched_t) 2; *c = (int) run_sched_chunk; }
double omp_get_wtime(void) { ++g_step; return (double) mono_ns() * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(omp_lock_t* l) { if (!cur) return; lock_destroy(l, "lock"); memset(l, 0, sizeof *l); mark_write((uintptr_t) l, sizeof *l); }
void omp_destroy_lock(omp_lock_t* l) { if (!cur) return; access_range(l, 1, false, __builtin_return_address(0)); lock_destroy(l, "lock"); }
void omp_set_lock(omp_lock_t* l) { if (!cur) return; access_range(l, 1, false, __builtin_return_address(0)); lock_acquire(l, "lock", false); }
void omp_unset_lock(omp_lock_t* l) { if (!cur) return; access_range(l, 1, false, __builtin_return_address(0)); lock_release(l, "lock"); }
int omp_test_lock(omp_lock_t* l) { return cur ? lock_try(l, "lock", false) : 1; }
void omp_init_nest_lock(omp_nest_lock_t* l) { if (!cur) return; lock_destroy(l, "lock"); memset(l, 0, sizeof *l); mark_write((uintptr_t) l, sizeof *l); }
void omp_destroy_nest_lock(omp_nest_lock_t* l) { if (cur) lock_destroy(l, "lock"); }
void omp_set_nest_lock(omp_nest_lock_t* l) { if (cur) lock_acquire(l, "lock", true); }
void omp_unset_nest_lock(omp_nest_lock_t* l) { if (cur) lock_release(l, "lock"); }
int omp_test_nest_lock(omp_nest_lock_t* l) { return cur ? lock_try(l, "lock", true) : 1; }
}

void omp_set_num_threads_(int n) { omp_set_num_threads(n); }
void omp_set_max_active_levels_(int n) { omp_set_max_active_levels(n); }
