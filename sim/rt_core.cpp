// Fibers, scheduler, vector clocks, shadow memory and the instrumentation
// callbacks. The code under test is compiled with -fsanitize=thread (compile
// step only) so that every memory access calls in here; no sanitizer or
// OpenMP runtime is linked.
#include "rt_internal.h"
#include <cxxabi.h>
#include <algorithm>
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <elf.h>
#include <exception>
#include <link.h>
#include <mutex>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <new>

extern "C" char __executable_start, etext, __data_start, _end;

namespace sim {

const char* strategy_name[] = {"serial", "random-order", "random-walk", "pct", "round-robin", "stall", "replay"};

Result* R;
Switch* switch_log;
int64_t switch_log_cap;
uint8_t* func_bitmap;
uintptr_t text_base;
size_t text_size;

Fiber fibers[MAXT];
static int n_slots;              // slots ever used, all below this
Fiber* cur;
Config cfg;
int64_t g_step, g_next;
bool g_collect_races = true, g_collect_bounds = true;

static void* main_sp;
static Rng sched_rng(1), f_rng(1);
static int next_fid;
static int n_root_live;
static int64_t prio_low;
static size_t replay_pos;
static uintptr_t data_lo, data_hi;
static unsigned char* tls_base; static size_t tls_size;
static bool conflict_on;
static uint64_t conflict_thresh, sync_thresh;
static bool want_resched;
static uint64_t out_sched_hash;

Rng& fault_rng() { return f_rng; }

uint64_t hash64(uint64_t a, uint64_t b)
{
    uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t hash_str(const char* s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char) *s) * 1099511628211ull;
    return h;
}

// ------------------------------------------------------------- violations
[[noreturn]] void child_finish()
{
    R->st.steps = g_step;
    R->st.sim_ns = mono_ns();
    R->st.sched_hash = out_sched_hash;
    uint64_t h = hash64(out_sched_hash, R->out_hash);
    h = hash64(h, (uint64_t) g_step);
    h = hash64(h, (uint64_t) R->st.allocs);
    h = hash64(h, (uint64_t) R->n_fault_log);
    h = hash64(h, (uint64_t) R->st.sim_ns);
    for (int i = 0; i < R->n_viol; ++i) h = hash64(h, hash_str(R->viol[i].sig));
    R->trace_hash = h;
    __sync_synchronize();
    R->done = 1;
    _exit(0);
}

const char* kind_filter = 0;
static bool counts(const char* kind)
{
    if (!kind_filter || !strcmp(kind, "harness")) return true;
    size_t n = strlen(kind);
    for (const char* p = kind_filter; (p = strstr(p, kind)); ++p)
        if ((p == kind_filter || p[-1] == ' ') && (p[n] == ' ' || !p[n])) return true;
    return false;
}
static void add_violation(const char* kind, const char* sig, const char* fmt, va_list ap)
{
    if (!counts(kind))
    {
        if (!R->n_filtered++) vsnprintf(R->filtered, sizeof R->filtered, fmt, ap);
        return;
    }
    for (int i = 0; i < R->n_viol; ++i)
        if (!strcmp(R->viol[i].sig, sig)) return;
    if (R->n_viol >= MAX_VIOL) return;
    Violation& v = R->viol[R->n_viol++];
    snprintf(v.kind, sizeof v.kind, "%s", kind);
    snprintf(v.sig, sizeof v.sig, "%s", sig);
    vsnprintf(v.msg, sizeof v.msg, fmt, ap);
}
void violation(const char* kind, const char* sig, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    add_violation(kind, sig, fmt, ap);
    va_end(ap);
}
void fatal_violation(const char* kind, const char* sig, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    add_violation(kind, sig, fmt, ap);
    va_end(ap);
    child_finish();
}

// ------------------------------------------------------------- symbols
// Own symbol table from /proc/self/exe: deterministic names for signatures.
struct Sym { uintptr_t a; size_t n; const char* name; const char* file; };
static Sym* syms; static size_t n_syms;
static void load_symbols()
{
    FILE* f = fopen("/proc/self/exe", "rb");
    if (!f) return;
    fseek(f, 0, SEEK_END); long sz = ftell(f); rewind(f);
    char* b = (char*) __real_malloc(sz);
    if (fread(b, 1, sz, f) != (size_t) sz) { fclose(f); return; }
    fclose(f);
    Elf64_Ehdr* eh = (Elf64_Ehdr*) b;
    Elf64_Shdr* sh = (Elf64_Shdr*) (b + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i)
        if (sh[i].sh_type == SHT_SYMTAB)
        {
            Elf64_Sym* s = (Elf64_Sym*) (b + sh[i].sh_offset);
            size_t n = sh[i].sh_size / sizeof(Elf64_Sym);
            const char* str = b + sh[sh[i].sh_link].sh_offset;
            syms = (Sym*) __real_malloc(n * sizeof(Sym));
            const char* file = 0;
            for (size_t k = 0; k < n; ++k)
            {
                int t = ELF64_ST_TYPE(s[k].st_info);
                if (t == STT_FILE) file = str + s[k].st_name;
                if ((t == STT_FUNC || t == STT_OBJECT) && s[k].st_value)
                { Sym& y = syms[n_syms++]; y.a = s[k].st_value; y.n = s[k].st_size; y.name = str + s[k].st_name; y.file = ELF64_ST_BIND(s[k].st_info) == STB_LOCAL ? file : 0; }
            }
        }
    std::sort(syms, syms + n_syms, [](const Sym& x, const Sym& y) { return x.a != y.a ? x.a < y.a : strcmp(x.name, y.name) < 0; });
}
static const Sym* find_sym(uintptr_t a)
{
    size_t lo = 0, hi = n_syms; // first symbol above a
    while (lo < hi) { size_t m = (lo + hi) / 2; if (syms[m].a <= a) lo = m + 1; else hi = m; }
    const Sym* best = 0;
    for (size_t i = lo, k = 0; i-- > 0 && k < 8; ++k)
        if (a < syms[i].a + (syms[i].n ? syms[i].n : 1))
        {
            // aliases at the same address: the alphabetically first name
            if (!best) best = &syms[i];
            else if (syms[i].a == best->a) best = &syms[i];
            else break;
        }
    return best;
}
const char* symbol_of(const void* pc)
{
    static char buf[4][200]; static int bi;
    char* o = buf[bi++ & 3];
    const Sym* s = find_sym((uintptr_t) pc);
    if (!s) { snprintf(o, 200, "?"); return o; }
    int st = 0;
    Fiber* keep = cur; cur = 0;
    char* d = abi::__cxa_demangle(s->name, 0, 0, &st);
    snprintf(o, 200, "%s", d ? d : s->name);
    if (d) free(d);
    cur = keep;
    // cut the parameter list, template arguments and OpenMP outlining suffixes
    char* q = strstr(o, "._omp_fn"); if (q) *q = 0;
    int depth = 0; char* w = o;
    for (char* p = o; *p; ++p)
    {
        if (*p == '<') { ++depth; continue; }
        if (*p == '>') { if (depth) --depth; continue; }
        if (!depth) { if (*p == '(' && strncmp(p, "(anon", 5)) break; *w++ = *p; }
    }
    *w = 0;
    q = strstr(o, " [clone"); if (q) *q = 0;
    q = strstr(o, ".constprop"); if (q) *q = 0;
    q = strstr(o, ".part"); if (q) *q = 0;
    q = strstr(o, ".isra"); if (q) *q = 0;
    if (!strncmp(o, "void ", 5)) memmove(o, o + 5, strlen(o + 5) + 1);
    return o;
}
const char* top_func(const void* pc, char* buf, size_t n)
{
    snprintf(buf, n, "%s", symbol_of(pc));
    return buf;
}
static void stack_text(Fiber* f, const void* pc, char* buf, size_t n)
{
    size_t k = snprintf(buf, n, "%s", symbol_of(pc));
    for (int i = f->csn - 1, c = 0; i >= 0 && i < 64 && c < 5; --i, ++c)
        if (k < n) k += snprintf(buf + k, n - k, " < %s", symbol_of(f->cs[i]));
}

// ------------------------------------------------------------- context switch
extern "C" void sim_swap(void** save, void* load);
asm(".text\n.globl sim_swap\n.type sim_swap,@function\nsim_swap:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size sim_swap, .-sim_swap\n");

struct CxaG { void* a; unsigned int b; };
static void* main_cxa[4];
static unsigned char* main_tls;

static void save_thread_state(Fiber* f)
{
    CxaG* g = (CxaG*) abi::__cxa_get_globals();
    void** s = f ? f->cxa : main_cxa;
    s[0] = g->a; s[1] = (void*) (uintptr_t) g->b;
    s[2] = std::__once_callable; s[3] = (void*) std::__once_call; // what std::call_once passes to pthread_once
    if (tls_size) memcpy(f ? f->tls_copy : main_tls, tls_base, tls_size);
    if (f) f->saved_errno = errno;
}
static void load_thread_state(Fiber* f)
{
    CxaG* g = (CxaG*) abi::__cxa_get_globals();
    void** s = f ? f->cxa : main_cxa;
    g->a = s[0]; g->b = (unsigned) (uintptr_t) s[1];
    std::__once_callable = s[2]; std::__once_call = (void (*)()) s[3];
    if (tls_size) memcpy(tls_base, f ? f->tls_copy : main_tls, tls_size);
    if (f) errno = f->saved_errno;
}

static void log_switch(int to)
{
    out_sched_hash = hash64(out_sched_hash, hash64((uint64_t) g_step, (uint64_t) to));
    if (R->n_switch_log < switch_log_cap)
    { switch_log[R->n_switch_log].step = g_step; switch_log[R->n_switch_log].to = to; }
    R->n_switch_log++;
}

static void set_next();

static void switch_to(Fiber* f)
{
    Fiber* from = cur;
    if (f == from) return;
    if (from) from->last_run = g_step;
    save_thread_state(from);
    ++R->st.switches;
    cur = f;
    load_thread_state(f);
    set_next();
    if (from) sim_swap(&from->sp, f->sp);
    else sim_swap(&main_sp, f->sp);
}

// ------------------------------------------------------------- vector clocks
static inline uint32_t epoch(Fiber* f) { return ((uint32_t) f->tid << CLK_BITS) | f->vc.c[f->tid]; }
void vc_join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void hb_release(VC& v) { vc_join(v, cur->vc); cur->vc.c[cur->tid]++; }
void hb_acquire(const VC& v) { vc_join(cur->vc, v); }

struct SV { const void* a; VC* v; };
enum { NSV = 1 << 14 };
static SV sv_tab[NSV];
static int n_sv;
VC* sync_var(const void* a)
{
    size_t i = (((uintptr_t) a) * 0x9E3779B97F4A7C15ull) >> 50;
    for (int k = 0; k < NSV; ++k, i = (i + 1) & (NSV - 1))
    {
        if (sv_tab[i].a == a) return sv_tab[i].v;
        if (!sv_tab[i].a)
        {
            if (n_sv > NSV * 3 / 4) break;
            ++n_sv;
            sv_tab[i].a = a;
            sv_tab[i].v = (VC*) __real_calloc(1, sizeof(VC));
            return sv_tab[i].v;
        }
    }
    // table full: one shared variable (adds ordering, never removes it)
    static VC shared; return &shared;
}

// ------------------------------------------------------------- scheduler
static int64_t geom(int64_t mean)
{
    if (mean <= 1) return 1;
    double u = sched_rng.u01();
    if (u < 1e-12) u = 1e-12;
    int64_t d = (int64_t) (-__builtin_log(u) * (double) mean);
    return d < 1 ? 1 : d;
}
static int64_t pct_points[16]; static int n_pct, pct_i;

static void set_next()
{
    switch (cfg.strategy)
    {
    case ST_RANDWALK: case ST_STALL: g_next = g_step + geom(cfg.quantum); break;
    case ST_RR: g_next = g_step + cfg.quantum; break;
    case ST_PCT: g_next = pct_i < n_pct ? pct_points[pct_i] : INT64_MAX; break;
    case ST_REPLAY:
        while (replay_pos < cfg.sched.size() && cfg.sched[replay_pos].step <= g_step) ++replay_pos;
        g_next = replay_pos < cfg.sched.size() ? cfg.sched[replay_pos].step : INT64_MAX;
        break;
    default: g_next = INT64_MAX;
    }
    if (g_next > cfg.max_steps) g_next = cfg.max_steps;
    if (g_next <= g_step) g_next = g_step + 1;
}

static bool runnable(Fiber* f) { return f->st == F_READY; }

static int ready_list(Fiber** out)
{
    int n = 0;
    for (int i = 0; i < n_slots; ++i) if (fibers[i].st == F_READY) out[n++] = &fibers[i];
    // order by creation id
    for (int i = 1; i < n; ++i)
        for (int j = i; j > 0 && out[j]->id < out[j - 1]->id; --j) { Fiber* t = out[j]; out[j] = out[j - 1]; out[j - 1] = t; }
    return n;
}

static int64_t n_yields = 0;
static Fiber* choose(Fiber** r, int n, bool blocked)
{
    Fiber* cand[MAXT]; int m = 0;
    // Threads that spin while others wait for the processor must not starve
    // them: every so often the thread that has waited longest runs.
    if (blocked && cur && cur->yielding && ++n_yields % 8 == 0)
    {
        Fiber* b = 0;
        for (int i = 0; i < n; ++i) if (r[i] != cur && (!b || r[i]->last_run < b->last_run)) b = r[i];
        if (b) { b->stalled = false; return b; }
    }
    // stalled fibers run only when nobody else can; yielding ones give way
    for (int i = 0; i < n; ++i) if (!r[i]->stalled && !r[i]->yielding) cand[m++] = r[i];
    if (!m) for (int i = 0; i < n; ++i) if (!r[i]->stalled) cand[m++] = r[i];
    if (!m) for (int i = 0; i < n; ++i) cand[m++] = r[i];
    switch (cfg.strategy)
    {
    case ST_SERIAL: case ST_REPLAY: return cand[0];
    case ST_RANDORDER: return cand[sched_rng.below(m)];
    case ST_RANDWALK: case ST_STALL: return cand[sched_rng.below(m)];
    case ST_RR:
        for (int i = 0; i < m; ++i) if (cur && cand[i]->id > cur->id) return cand[i];
        return cand[0];
    case ST_PCT:
    {
        Fiber* b = cand[0];
        for (int i = 1; i < m; ++i) if (cand[i]->prio > b->prio) b = cand[i];
        return b;
    }
    }
    return cand[0];
}

static void out_of_steps()
{
    char sig[256], fn[128] = "?";
    if (cur && cur->csn > 0) top_func(cur->cs[cur->csn > 64 ? 63 : cur->csn - 1], fn, sizeof fn);
    snprintf(sig, sizeof sig, "no-progress|steps");
    fatal_violation("no-progress", sig, "run did not finish within %ld steps (running in %s)", (long) cfg.max_steps, fn);
}

// A place where the scheduler may switch.
void sched_point(bool conflict, bool sync)
{
    if (!cur) return;
    if (g_step >= cfg.max_steps) out_of_steps();
    bool due = g_step >= g_next;
    if (cfg.strategy == ST_REPLAY)
    {
        if (!due) return;
        while (replay_pos < cfg.sched.size() && cfg.sched[replay_pos].step < g_step) ++replay_pos;
        if (replay_pos < cfg.sched.size() && cfg.sched[replay_pos].step == g_step)
        {
            int to = cfg.sched[replay_pos].to;
            for (int i = 0; i < n_slots; ++i)
                if (fibers[i].st == F_READY && fibers[i].id == to && &fibers[i] != cur)
                { log_switch(to); switch_to(&fibers[i]); return; }
        }
        set_next();
        return;
    }
    bool want = due || want_resched;
    if (!want && conflict && conflict_on && (sched_rng.next() >> 32) < conflict_thresh)
    { want = true; ++R->st.conflict_switches; }
    if (!want && sync && sync_thresh && (sched_rng.next() >> 32) < sync_thresh) want = true;
    if (!want) return;
    if (cfg.strategy == ST_PCT && due && pct_i < n_pct && g_step >= pct_points[pct_i])
    { while (pct_i < n_pct && g_step >= pct_points[pct_i]) ++pct_i; cur->prio = prio_low--; }
    want_resched = false;
    Fiber* r[MAXT]; int n = ready_list(r);
    Fiber* f = choose(r, n, false);
    if (f && f != cur) { log_switch(f->id); switch_to(f); }
    else set_next();
}

static void deadlock()
{
    char buf[700]; size_t k = 0; buf[0] = 0; const char* kinds[8]; int nk = 0;
    for (int i = 0; i < MAXT; ++i)
        if (fibers[i].st == F_BLOCKED && k < sizeof buf)
        {
            char st[200]; Fiber* f = &fibers[i];
            snprintf(st, sizeof st, "%s", f->csn > 0 ? symbol_of(f->cs[(f->csn > 64 ? 64 : f->csn) - 1]) : "harness");
            k += snprintf(buf + k, sizeof buf - k, " [thread %d waits for %s in %s]", f->id, f->wait_kind, st);
            if (nk < 8) kinds[nk++] = f->wait_kind;
        }
    char sig[256]; snprintf(sig, sizeof sig, "deadlock|%s", nk ? kinds[nk - 1] : "?");
    fatal_violation("deadlock", sig, "no thread can run:%s", buf);
}

// current fiber cannot continue: run somebody else
static void switch_away()
{
    ++g_step;
    if (g_step >= cfg.max_steps) out_of_steps();
    for (;;)
    {
        Fiber* r[MAXT]; int n = ready_list(r);
        if (!n)
        {
            // everybody blocked: let the clock run to the next sleeper
            int64_t best = 0;
            for (int i = 0; i < MAXT; ++i)
                if (fibers[i].st == F_BLOCKED && fibers[i].sleep_until && (!best || fibers[i].sleep_until < best)) best = fibers[i].sleep_until;
            if (!best) deadlock();
            int64_t d = best - mono_ns();
            if (d > 0) advance_clock(d);
            for (int i = 0; i < MAXT; ++i)
                if (fibers[i].st == F_BLOCKED && fibers[i].sleep_until && fibers[i].sleep_until <= best)
                { fibers[i].st = F_READY; fibers[i].sleep_until = 0; }
            continue;
        }
        Fiber* f = 0;
        if (cfg.strategy == ST_REPLAY)
        {
            while (replay_pos < cfg.sched.size() && cfg.sched[replay_pos].step < g_step) ++replay_pos;
            if (replay_pos < cfg.sched.size() && cfg.sched[replay_pos].step == g_step)
                for (int i = 0; i < n; ++i) if (r[i]->id == cfg.sched[replay_pos].to) f = r[i];
        }
        if (!f) f = choose(r, n, true);
        log_switch(f->id);
        if (f == cur) { set_next(); return; }
        switch_to(f);
        return;
    }
}

void block_on(const void* obj, const char* kind)
{
    cur->st = F_BLOCKED; cur->wait_obj = obj; cur->wait_kind = kind;
    switch_away();
    cur->wait_obj = 0;
}
void wake_all(const void* obj)
{
    for (int i = 0; i < MAXT; ++i)
        if (fibers[i].st == F_BLOCKED && fibers[i].wait_obj == obj)
        {
            fibers[i].st = F_READY; fibers[i].sleep_until = 0;
            if (cfg.strategy == ST_PCT && cur && fibers[i].prio > cur->prio) want_resched = true;
        }
}
void fiber_yield(bool strong)
{
    if (!cur) return;
    if (strong) { cur->yielding = true; ++R->st.forced_yields; if (cfg.strategy == ST_PCT) cur->prio = prio_low--; }
    switch_away();
    cur->yielding = false;
}
void msg_publish(const void* k) { ++g_step; hb_release(*sync_var(k)); wake_all(k); sched_point(false, true); }
void msg_observe(const void* k) { ++g_step; hb_acquire(*sync_var(k)); sched_point(false, true); }
void msg_wait(const void* k) { block_on(k, "message"); }
void yield_point() { if (cur) { ++g_step; sched_point(false, true); } }

// ------------------------------------------------------------- fibers
static void fiber_exit();
extern "C" void sim_fiber_main()
{
    Fiber* f = cur;
    if (f->root_fn) (*f->root_fn)();
    else if (f->is_pthread) f->pt_ret = f->pt_fn(f->arg);
    else f->fn(f->arg);
    fiber_exit();
    abort();
}
asm(".text\n.globl sim_fiber_entry\n.type sim_fiber_entry,@function\nsim_fiber_entry:\n"
    "  .cfi_startproc\n  .cfi_undefined rip\n  xorl %ebp, %ebp\n  subq $8, %rsp\n  call sim_fiber_main\n  hlt\n  .cfi_endproc\n");
extern "C" void sim_fiber_entry();

int free_slots()
{
    int n = 0;
    for (int i = 0; i < MAXT; ++i) if (fibers[i].st == F_FREE) ++n;
    return n;
}

Fiber* fiber_create(void (*fn)(void*), void* arg)
{
    // prefer a slot last used by the same caller, then one never used
    int s = -1, root = cur ? cur->root : -1, best = 4;
    for (int i = 0; i < MAXT; ++i)
    {
        if (fibers[i].st != F_FREE) continue;
        int k = !fibers[i].vc.c[i] ? 2 : cur && fibers[i].root == root ? 1 : 3;
        if (k < best) { best = k; s = i; }
    }
    if (s < 0) return 0;
    Fiber* f = &fibers[s];
    if (s >= n_slots) n_slots = s + 1;
    uint32_t keep = f->vc.c[s];
    unsigned char* tc = f->tls_copy;
    uintptr_t old_min = f->stk_min;
    memset((void*) f, 0, sizeof *f);
    f->tls_copy = tc;
    f->tid = s;
    f->id = next_fid++;
    f->root = cur ? root : f->id;
    f->last_run = g_step;
    ++R->st.fibers;
    f->stk_lo = STACK_BASE + s * STACK_SIZE;
    f->stk_hi = f->stk_lo + STACK_SIZE;
    // forget the accesses of the previous user of this stack
    if (old_min && old_min < f->stk_hi) reset_shadow(old_min, f->stk_hi - old_min);
    f->stk_min = f->stk_hi;
    f->fn = fn; f->arg = arg;
    if (cur) { f->vc = cur->vc; cur->vc.c[cur->tid]++; f->in_lib = cur->in_lib; }
    f->vc.c[s] = (keep > f->vc.c[s] ? keep : f->vc.c[s]) + 1;
    f->icv_nthreads = cfg.nthreads; f->icv_max_active = cfg.max_active; f->icv_dynamic = 0;
    if (cur) { f->icv_nthreads = cur->icv_nthreads; f->icv_max_active = cur->icv_max_active; f->icv_dynamic = cur->icv_dynamic; }
    f->prio = (int64_t) (sched_rng.next() >> 33);
    if (tls_size) { extern unsigned char* tls_init_image(); memcpy(f->tls_copy, tls_init_image(), tls_size); }
    // stack contents: deterministic rubbish (only the part previously used is dirty anyway)
    uint64_t* top = (uint64_t*) f->stk_hi;
    if (cfg.garbage >= 2)
    {
        Rng g(hash64(cfg.garbage_seed, f->id));
        for (int i = 1; i <= 2048; ++i) top[-i] = g.next();
    }
    else memset(top - 2048, 0, 2048 * 8);
    uint64_t* sp = top - 4;
    *--sp = 0;
    *--sp = (uint64_t) (uintptr_t) &sim_fiber_entry;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f->sp = sp;
    f->st = F_READY;
    if (cfg.strategy == ST_PCT && cur && f->prio > cur->prio) want_resched = true;
    if (cfg.strategy == ST_STALL && sched_rng.chance(0.3)) { f->stalled = true; ++R->st.stalls; }
    return f;
}

// Callers and the members of their teams keep their system threads (and
// thread-local variables) between calls and between parallel regions.
static unsigned char* tls_pool[1 + 64 * MAXT];
void tls_bind(Fiber* f, int key)
{
    if (!tls_size || key <= 0 || key > 64 * MAXT) return;
    f->tls_key = key;
    if (tls_pool[key]) memcpy(f->tls_copy, tls_pool[key], tls_size);
}

static void fiber_exit()
{
    Fiber* f = cur;
    if (f->tls_key && tls_size)
    {
        if (!tls_pool[f->tls_key]) tls_pool[f->tls_key] = (unsigned char*) __real_malloc(tls_size);
        memcpy(tls_pool[f->tls_key], tls_base, tls_size);
    }
    bool root = f->root_fn != 0;
    f->st = F_DONE;
    if (f->is_pthread) { wake_all(f); }
    if (root && --n_root_live == 0)
    {
        // all roots done: back to main (member fibers cannot outlive their master)
        f->st = F_FREE;
        save_thread_state(f); cur = 0; load_thread_state(0);
        sim_swap(&f->sp, main_sp);
    }
    if (!f->is_pthread || f->pt_detached) f->st = F_FREE;
    switch_away();
    abort();
}

static unsigned char* tls_image;
unsigned char* tls_init_image() { return tls_image; }

static int phdr_cb(struct dl_phdr_info* info, size_t, void*)
{
    if (info->dlpi_name && info->dlpi_name[0]) return 0; // the executable only
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data)
        { tls_base = (unsigned char*) info->dlpi_tls_data; tls_size = info->dlpi_phdr[i].p_memsz; }
    return 0;
}

static void crash_handler(int sig, siginfo_t* si, void* uc)
{
    ucontext_t* u = (ucontext_t*) uc;
    const void* pc = (const void*) u->uc_mcontext.gregs[REG_RIP];
    if (sig == SIGVTALRM)
    {
        char b[100], s[256]; top_func(cur && cur->csn > 0 ? cur->cs[(cur->csn > 64 ? 64 : cur->csn) - 1] : pc, b, sizeof b);
        snprintf(s, sizeof s, "no-progress|cpu");
        fatal_violation("no-progress", s, "run used its CPU time limit without finishing (near %s)", b);
    }
    char f1[160], sg[256];
    top_func(pc, f1, sizeof f1);
    if (f1[0] == '?' && cur && cur->csn > 0) top_func(cur->cs[(cur->csn > 64 ? 64 : cur->csn) - 1], f1, sizeof f1);
    bool lib = cur && cur->in_lib;
    snprintf(sg, sizeof sg, "crash|%s|%s", sig == SIGSEGV ? "SEGV" : sig == SIGFPE ? "FPE" : sig == SIGBUS ? "BUS" : sig == SIGABRT ? "ABRT" : "ILL", f1);
    if (!lib) snprintf(sg, sizeof sg, "harness-crash|%s", f1);
    char st[600]; st[0] = 0;
    if (cur) stack_text(cur, pc, st, sizeof st);
    fatal_violation(lib ? "crash" : "harness", sg, "%s at address %p in %s", strsignal(sig), si->si_addr, st[0] ? st : f1);
}

static void on_terminate()
{
    char f1[160] = "?", sg[256];
    if (cur && cur->csn > 0) top_func(cur->cs[(cur->csn > 64 ? 64 : cur->csn) - 1], f1, sizeof f1);
    bool lib = cur && cur->in_lib;
    snprintf(sg, sizeof sg, "terminate|%s", f1);
    fatal_violation(lib ? "terminate" : "harness", sg, "std::terminate called (unhandled exception) in %s", f1);
}

static void must_map(uintptr_t a, size_t n)
{
    void* p = mmap((void*) a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*) a) { fprintf(stderr, "simrun: cannot map %p\n", (void*) a); _exit(3); }
}

void process_init()
{
    load_symbols();
    must_map(REGION_BASE, REGION_END - REGION_BASE);
    must_map(SHADOW_BASE, (REGION_END - REGION_BASE) * 4);
    data_lo = (uintptr_t) &__data_start & ~15ull;
    data_hi = ((uintptr_t) &_end + 15) & ~15ull;
    must_map(DSHADOW_BASE, (data_hi - data_lo) * 4 + 4096);
    text_base = (uintptr_t) &__executable_start;
    text_size = (uintptr_t) &etext - text_base;
    R = (Result*) mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    switch_log_cap = 4 << 20;
    switch_log = (Switch*) mmap(0, switch_log_cap * sizeof(Switch), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    func_bitmap = (uint8_t*) mmap(0, text_size + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    dl_iterate_phdr(phdr_cb, 0);
    if (tls_size)
    {
        tls_image = (unsigned char*) __real_malloc(tls_size);
        memcpy(tls_image, tls_base, tls_size);
        main_tls = (unsigned char*) __real_malloc(tls_size);
        for (int i = 0; i < MAXT; ++i) fibers[i].tls_copy = (unsigned char*) __real_malloc(tls_size);
    }
    for (int i = 0; i < MAXT; ++i)
        mprotect((void*) (STACK_BASE + i * STACK_SIZE), 4096, PROT_NONE);
}

void run_begin(const Config& c)
{
    cfg = c;
    sched_rng = Rng(hash64(c.seed, 0x5ced));
    f_rng = Rng(hash64(c.seed, 0xfa17));
    g_step = 0; replay_pos = 0; next_fid = 0; prio_low = -1; pct_i = 0; n_yields = 0; out_sched_hash = 1;
    n_pct = 0;
    if (c.strategy == ST_PCT)
    {
        n_pct = c.pct_depth > 16 ? 16 : c.pct_depth;
        for (int i = 0; i < n_pct; ++i) pct_points[i] = 1 + (int64_t) sched_rng.below(c.pct_len);
        for (int i = 1; i < n_pct; ++i)
            for (int j = i; j > 0 && pct_points[j] < pct_points[j - 1]; --j) { int64_t t = pct_points[j]; pct_points[j] = pct_points[j - 1]; pct_points[j - 1] = t; }
    }
    conflict_on = c.conflict_p > 0 && (c.strategy == ST_RANDWALK || c.strategy == ST_STALL);
    conflict_thresh = (uint64_t) (c.conflict_p * 4294967296.0);
    sync_thresh = (c.strategy == ST_RANDWALK || c.strategy == ST_STALL) ? (uint64_t) (c.sync_p * 4294967296.0) : 0;
    alloc_reset(); gomp_reset(); libc_reset();
    set_next();
    static char altstack[64 << 10];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM};
    for (int s : sigs) sigaction(s, &sa, 0);
    std::set_terminate(on_terminate);
}

void run_threads(const std::vector<std::function<void()>>& fns)
{
    if (fns.empty()) return;
    n_root_live = (int) fns.size();
    Fiber* first = 0;
    static VC base; // harness main acts as the forking thread for every batch
    for (size_t i = 0; i < fns.size(); ++i)
    {
        Fiber* f = fiber_create(0, 0);
        if (!f) { violation("harness", "harness|slots", "out of fiber slots"); child_finish(); }
        vc_join(f->vc, base);
        f->root_fn = &fns[i];
        root_team_init(f);
        tls_bind(f, 1 + 64 * (int) (i % MAXT));
        if (!first) first = f;
    }
    ++g_step;
    Fiber* r[MAXT]; int n = ready_list(r);
    Fiber* f = 0;
    if (cfg.strategy == ST_REPLAY)
    {
        while (replay_pos < cfg.sched.size() && cfg.sched[replay_pos].step < g_step) ++replay_pos;
        if (replay_pos < cfg.sched.size() && cfg.sched[replay_pos].step == g_step)
            for (int i = 0; i < n; ++i) if (r[i]->id == cfg.sched[replay_pos].to) f = r[i];
    }
    if (!f) f = choose(r, n, true);
    log_switch(f->id);
    switch_to(f);
    // back: everything the roots did happens before what follows
    for (int i = 0; i < MAXT; ++i) vc_join(base, fibers[i].vc);
}
bool in_fiber() { return cur != 0; }
int fiber_id() { return cur ? cur->id : -1; }

LibScope::LibScope() { if (cur) { ++cur->in_lib; } }
LibScope::~LibScope() { if (cur) --cur->in_lib; }

void locks_left(const char* name);
void stream_call_starts();
bool lib_call(const std::function<void()>& f, const char* name)
{
    stream_call_starts();
    int csn = cur ? cur->csn : 0;
    const int icv[] = {omp_icv_max_active(), omp_icv_nthreads(), omp_icv_dynamic()};
    try { LibScope s; f(); }
    catch (const std::bad_alloc&)
    {
        if (cur) cur->csn = csn;
        char sg[256]; snprintf(sg, sizeof sg, "exception|bad_alloc|%s", name);
        violation("exception", sg, "std::bad_alloc escaped from the C interface of %s", name);
        return false;
    }
    catch (const std::exception& e)
    {
        if (cur) cur->csn = csn;
        char sg[256]; snprintf(sg, sizeof sg, "exception|%s|%s", e.what(), name);
        violation("exception", sg, "exception '%s' escaped from the C interface of %s", e.what(), name);
        return false;
    }
    if (cur) { cur->csn = csn; locks_left(name); }
    const int now[] = {omp_icv_max_active(), omp_icv_nthreads(), omp_icv_dynamic()};
    static const char* nm[] = {"maximum active levels", "number of threads", "dynamic adjustment"};
    for (int k = 0; cur && !cur->in_lib && k < 3; ++k)
        if (now[k] != icv[k])
        {
            char sg[160]; snprintf(sg, sizeof sg, "icv|%s|%d", name, k);
            violation("icv", sg, "%s changed its caller's OpenMP %s from %d to %d", name, nm[k], icv[k], now[k]);
        }
    return true;
}

// ------------------------------------------------------------- shadow
static inline Cell* cell_of(uintptr_t a)
{
    if (a - REGION_BASE < REGION_END - REGION_BASE)
        return (Cell*) (SHADOW_BASE + ((a - REGION_BASE) & ~3ull) * 4);
    if (a - data_lo < data_hi - data_lo)
        return (Cell*) (DSHADOW_BASE + ((a - data_lo) & ~3ull) * 4);
    return 0;
}
void reset_shadow(uintptr_t a, size_t n)
{
    uintptr_t lo = a & ~3ull, hi = (a + n + 3) & ~3ull;
    Cell* c = cell_of(lo);
    if (c) memset((void*) c, 0, (hi - lo) * 4);
}
void set_state(uintptr_t a, size_t n, int state)
{
    uintptr_t end = a + n;
    for (uintptr_t g = a; g < end; g += 4)
    {
        Cell* c = cell_of(g);
        memset((void*) c, 0, sizeof *c);
        if (state == 15) c->state = 15;
        else c->state = end - g >= 4 ? 4 : (unsigned) (end - g);
    }
}
void mark_freed(uintptr_t a, size_t n)
{
    for (uintptr_t g = a; g < a + n; g += 4) cell_of(g)->state = 15;
}

struct Exempt { uintptr_t lo, hi; };
static Exempt exempt[64]; static int n_exempt;
void race_exempt(void* p, size_t n)
{
    if (n_exempt < 64) { exempt[n_exempt].lo = (uintptr_t) p; exempt[n_exempt].hi = (uintptr_t) p + n; ++n_exempt; }
}
static bool is_exempt(uintptr_t a)
{
    for (int i = 0; i < n_exempt; ++i) if (a >= exempt[i].lo && a < exempt[i].hi) return true;
    if (a >= data_lo && a < data_hi)
    {
        // the cached log level: a word-sized static of the logging translation unit
        const Sym* s = find_sym(a);
        if (s && s->n <= 4 && s->file && strstr(s->file, "logging")) return true;
    }
    return false;
}

void describe_addr(uintptr_t a, char* buf, size_t n)
{
    if (a >= STACK_BASE && a < REGION_END)
    { snprintf(buf, n, "stack of thread %d", fibers[(a - STACK_BASE) / STACK_SIZE].id); return; }
    if (in_arena((void*) a)) { if (describe_block(a, buf, n)) return; }
    if (a >= data_lo && a < data_hi)
    {
        const Sym* s = find_sym(a);
        snprintf(buf, n, "static variable %s", s ? s->name : "?"); return;
    }
    snprintf(buf, n, "address %p", (void*) a);
}

static __attribute__((noinline)) void report_race(uintptr_t a, bool w, uint32_t other, bool ow, const void* pc)
{
    if (!g_collect_races || is_exempt(a)) return;
    if (!counts(cur->root != fibers[other >> CLK_BITS].root ? "xrace" : "race")) { ++R->n_filtered; return; }
    char d[200], st[500], fn[160], sg[256];
    describe_addr(a, d, sizeof d);
    stack_text(cur, pc, st, sizeof st);
    top_func(pc, fn, sizeof fn);
    bool x = cur->root != fibers[other >> CLK_BITS].root;
    snprintf(sg, sizeof sg, "%s|%s", x ? "xrace" : "race", fn);
    violation(x ? "xrace" : "race", sg, "data race on %s: %s by thread %d at %s, unordered with an earlier %s by the thread in slot %u",
            d, w ? "write" : "read", cur->id, st, ow ? "write" : "read", other >> CLK_BITS);
}
static __attribute__((noinline)) void report_bounds(uintptr_t a, unsigned n, bool w, int state, const void* pc)
{
    if (!g_collect_bounds) return;
    if (!(w && state != 15) && !counts(state == 15 ? "uaf" : "bounds")) { ++R->n_filtered; return; }
    char d[300], st[500], fn[160], sg[256];
    describe_addr(a, d, sizeof d);
    stack_text(cur, pc, st, sizeof st);
    top_func(pc, fn, sizeof fn);
    const char* k = state == 15 ? "uaf" : "bounds";
    const char* t = state == 15 ? "use-after-free" : "out-of-bounds";
    snprintf(sg, sizeof sg, "%s|%s|%s", k, w ? "write" : "read", fn);
    if (w && state != 15)
        fatal_violation(k, sg, "%s %s of %u bytes at %s in %s", t, w ? "write" : "read", n, d, st);
    violation(k, sg, "%s %s of %u bytes at %s in %s", t, w ? "write" : "read", n, d, st);
}

static inline bool ordered(uint32_t e) { return (e & CLK_MASK) <= cur->vc.c[e >> CLK_BITS]; }

// Returns true if another fiber touched the granule in a conflicting way.
static inline bool check_cell(Cell* c, unsigned mask, bool w, bool at, bool heap, uintptr_t a, unsigned n, const void* pc)
{
    Fiber* f = cur;
    if (heap)
    {
        unsigned st = c->state;
        if (__builtin_expect(st != 4, 0))
        {
            unsigned hi = 32 - __builtin_clz(mask);
            if (st == 15 || hi > st) { report_bounds(a, n, w, (int) st, pc); return false; }
        }
    }
    uint32_t me = epoch(f);
    bool conflict = false;
    uint32_t ow = c->w;
    if (ow && (ow >> CLK_BITS) != (uint32_t) f->tid)
    {
        conflict = true;
        if ((c->wm & mask) && !(at && c->wat) && !ordered(ow)) report_race(a, w, ow, true, pc);
    }
    if (w)
    {
        uint32_t o0 = c->r0, o1 = c->r1;
        if (o0 && (o0 >> CLK_BITS) != (uint32_t) f->tid)
        {
            conflict = true;
            if ((c->m0 & mask) && !(at && c->at0) && !ordered(o0)) report_race(a, w, o0, false, pc);
        }
        if (o1 && (o1 >> CLK_BITS) != (uint32_t) f->tid)
        {
            conflict = true;
            if ((c->m1 & mask) && !(at && c->at1) && !ordered(o1)) report_race(a, w, o1, false, pc);
        }
        if (c->w == me && !at == !c->wat) c->wm |= mask;
        else { c->w = me; c->wm = mask; c->wat = at; }
    }
    else
    {
        if (c->r0 == me && c->at0 == at) c->m0 |= mask;
        else if (!c->r0 || (c->r0 >> CLK_BITS) == (uint32_t) f->tid) { c->r0 = me; c->m0 = mask; c->at0 = at; }
        else if (c->r1 == me && c->at1 == at) c->m1 |= mask;
        else if (!c->r1 || (c->r1 >> CLK_BITS) == (uint32_t) f->tid || ordered(c->r1)) { c->r1 = me; c->m1 = mask; c->at1 = at; }
        else if (ordered(c->r0)) { c->r0 = me; c->m0 = mask; c->at0 = at; }
        else if (g_step & 1) { c->r1 = me; c->m1 = mask; c->at1 = at; }
        else { c->r0 = me; c->m0 = mask; c->at0 = at; }
    }
    return conflict;
}

static inline void acc(uintptr_t a, unsigned n, bool w, bool at, const void* pc)
{
    Fiber* f = cur;
    if (!f || !f->in_lib) return;
    ++R->st.accesses;
    bool conflict = false;
    if (a - REGION_BASE < REGION_END - REGION_BASE)
    {
        bool heap = a < STACK_BASE;
        if (!heap) { Fiber* o = &fibers[(a - STACK_BASE) / STACK_SIZE]; if (a < o->stk_min) o->stk_min = a; }
        Cell* c = cell_of(a);
        unsigned off = a & 3;
        if (cfg.watch && cfg.watch - (a & ~3ull) < n + off)
            fprintf(stderr, "watch: step %ld thread %d %s%s %u bytes in %s\n", (long) g_step, f->id, at ? "atomic " : "", w ? "write" : "read", n, symbol_of(pc));
        if (off == 0 && n >= 4)
        {
            for (unsigned k = 0; k < n; k += 4, ++c)
                conflict |= check_cell(c, n - k >= 4 ? 15u : ((1u << (n - k)) - 1), w, at, heap, a + k, n, pc);
        }
        else
        {
            unsigned left = n; uintptr_t x = a;
            while (left)
            {
                unsigned o = x & 3, m = 4 - o < left ? 4 - o : left;
                conflict |= check_cell(c, ((1u << m) - 1) << o, w, at, heap, x, n, pc);
                x += m; left -= m; ++c;
            }
        }
    }
    else if (a - data_lo < data_hi - data_lo)
    {
        unsigned left = n; uintptr_t x = a;
        while (left)
        {
            unsigned o = x & 3, m = 4 - o < left ? 4 - o : left;
            conflict |= check_cell(cell_of(x), ((1u << m) - 1) << o, w, at, false, x, n, pc);
            x += m; left -= m;
        }
    }
    if (conflict) ++R->st.conflicts;
    if (++g_step >= g_next || (conflict && conflict_on) || want_resched) sched_point(conflict, false);
}

void access_range(const void* p, size_t n, bool w, const void* pc)
{
    if (!cur || !cur->in_lib || !n) return;
    uintptr_t a = (uintptr_t) p;
    if (a - REGION_BASE >= REGION_END - REGION_BASE && a - data_lo >= data_hi - data_lo) { ++g_step; return; }
    while (n)
    {
        unsigned m = 16 - (a & 15);
        if (m > n) m = (unsigned) n;
        acc(a, m, w, false, pc);
        a += m; n -= m;
    }
}
void mark_write(uintptr_t a, size_t n) { access_range((void*) a, n, true, __builtin_return_address(0)); }

} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    if (!cur) return;
    if (cur->csn < 64) cur->cs[cur->csn] = PC;
    cur->csn++;
    uintptr_t o = (uintptr_t) PC - text_base;
    if (o < text_size) func_bitmap[o] = 1;
    (void) pc;
}
void __tsan_func_exit(void) { if (cur && cur->csn > 0) cur->csn--; }
#define RW(n) \
void __tsan_read##n(void* a) { acc((uintptr_t) a, n, false, false, PC); } \
void __tsan_write##n(void* a) { acc((uintptr_t) a, n, true, false, PC); } \
void __tsan_unaligned_read##n(void* a) { acc((uintptr_t) a, n, false, false, PC); } \
void __tsan_unaligned_write##n(void* a) { acc((uintptr_t) a, n, true, false, PC); } \
void __tsan_volatile_read##n(void* a) { acc((uintptr_t) a, n, false, false, PC); } \
void __tsan_volatile_write##n(void* a) { acc((uintptr_t) a, n, true, false, PC); } \
void __tsan_unaligned_volatile_read##n(void* a) { acc((uintptr_t) a, n, false, false, PC); } \
void __tsan_unaligned_volatile_write##n(void* a) { acc((uintptr_t) a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access_range(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access_range(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { acc((uintptr_t) a, 8, true, false, PC); }
void __tsan_vptr_read(void** a) { acc((uintptr_t) a, 8, false, false, PC); }

static inline void at_pre(const volatile void* a, unsigned n, bool w, int mo, const void* pc)
{
    if (!cur || !cur->in_lib) return;
    ++R->st.atomics;
    acc((uintptr_t) a, n, w, true, pc);
    // spinning threads must let others run
    if (++cur->spin > 2000) { cur->spin = 0; fiber_yield(true); }
    ++g_step; sched_point(false, true);
    (void) mo;
}
static inline void at_acq(const volatile void* a, int mo) { if (cur && cur->in_lib && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) hb_acquire(*sync_var((const void*) a)); }
static inline void at_rel(const volatile void* a, int mo) { if (cur && cur->in_lib && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) hb_release(*sync_var((const void*) a)); }
#define ATOMIC(T, b, n) \
T __tsan_atomic##b##_load(const volatile T* a, int mo) { at_pre(a, n, false, mo, PC); T v = *a; at_acq(a, mo); return v; } \
void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { at_pre(a, n, true, mo, PC); at_rel(a, mo); *a = v; } \
T __tsan_atomic##b##_exchange(volatile T* a, T v, int mo) { at_pre(a, n, true, mo, PC); at_acq(a, mo); at_rel(a, mo); T o = *a; *a = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, n, true, mo, PC); at_acq(a, mo); at_rel(a, mo); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, n, true, mo, PC); at_acq(a, mo); at_rel(a, mo); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, n, true, mo, PC); at_acq(a, mo); at_rel(a, mo); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, n, true, mo, PC); at_acq(a, mo); at_rel(a, mo); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, n, true, mo, PC); at_acq(a, mo); at_rel(a, mo); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a, n, true, mo, PC); at_acq(a, mo); at_rel(a, mo); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { at_pre(a, n, true, mo, PC); at_acq(a, mo); if (*a == *e) { at_rel(a, mo); *a = v; if (cur) cur->spin = 0; return 1; } *e = *a; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fo) { at_pre(a, n, true, mo, PC); at_acq(a, mo); if (*a == *e) { at_rel(a, mo); *a = v; if (cur) cur->spin = 0; return 1; } *e = *a; (void) fo; return 0; } \
T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { at_pre(a, n, true, mo, PC); at_acq(a, mo); T o = *a; if (o == e) { at_rel(a, mo); *a = v; } return o; }
ATOMIC(uint8_t, 8, 1) ATOMIC(uint16_t, 16, 2) ATOMIC(uint32_t, 32, 4) ATOMIC(uint64_t, 64, 8)
typedef unsigned __int128 u128;
ATOMIC(u128, 128, 16)
void __tsan_atomic_thread_fence(int) { if (cur && cur->in_lib) { static char fence; VC* v = sync_var(&fence); hb_acquire(*v); hb_release(*v); } }
void __tsan_atomic_signal_fence(int) {}
}
