// Allocator seam: the library's heap is an arena with exact bounds, no reuse
// within a run, seeded contents and injectable failures.
#include "rt_internal.h"
#include <cerrno>
#include <new>

namespace sim {

void mark_freed(uintptr_t a, size_t n);

struct Block { uintptr_t a; size_t n; int64_t seq; const void* pc; const void* caller; const char* name; bool live; bool external; int fiber; };
static Block* blocks; static int64_t n_blocks, cap_blocks;
static uintptr_t brk_;
static bool armed;
static int64_t armed_count;
static size_t fail_pos;
static double fail_p;

void alloc_reset()
{
    cap_blocks = 1 << 20;
    if (!blocks) blocks = (Block*) __real_malloc(sizeof(Block) * cap_blocks);
    n_blocks = 0; brk_ = REGION_BASE + 4096; armed = false; armed_count = 0; fail_pos = 0; fail_p = 0;
}
bool in_arena(const void* p) { return (uintptr_t) p - REGION_BASE < ARENA_SIZE; }

static int64_t block_of(uintptr_t a) // block whose span (with redzone) contains a
{
    int64_t lo = 0, hi = n_blocks - 1, r = -1;
    while (lo <= hi) { int64_t m = (lo + hi) / 2; if (blocks[m].a <= a) { r = m; lo = m + 1; } else hi = m - 1; }
    return r;
}
bool describe_block(uintptr_t a, char* buf, size_t n)
{
    int64_t i = block_of(a);
    if (i < 0) { snprintf(buf, n, "unallocated memory"); return true; }
    Block& b = blocks[i];
    char nm[128];
    if (b.name) snprintf(nm, sizeof nm, "%s", b.name);
    else snprintf(nm, sizeof nm, "allocated in %s", symbol_of(b.pc));
    long off = (long) (a - b.a);
    if (i + 1 < n_blocks && off > (long) b.n + 64 && blocks[i + 1].a - a < 64)
        snprintf(buf, n, "%ld bytes before a block of %zu bytes (%s)", (long) (blocks[i + 1].a - a), blocks[i + 1].n, blocks[i + 1].name ? blocks[i + 1].name : symbol_of(blocks[i + 1].pc));
    else if (off < (long) b.n) snprintf(buf, n, "offset %ld of a %sblock of %zu bytes (%s)", off, b.live ? "" : "freed ", b.n, nm);
    else snprintf(buf, n, "%ld bytes after the end of a block of %zu bytes (%s)", off - (long) b.n, b.n, nm);
    return true;
}

static void fill(void* p, size_t n, int64_t seq)
{
    Rng g(hash64(cfg.garbage_seed, (uint64_t) seq * 77 + 5));
    switch (cfg.garbage)
    {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break; // NaNs, -1
    case 2: { uint64_t* q = (uint64_t*) p; for (size_t i = 0; i < n / 8; ++i) q[i] = g.next(); for (size_t i = n & ~7ull; i < n; ++i) ((char*) p)[i] = (char) g.next(); break; }
    case 3: { double* q = (double*) p; for (size_t i = 0; i < n / 8; ++i) q[i] = g.uni(-1e6, 1e6); memset((char*) p + (n & ~7ull), 0x5A, n & 7); break; }
    default: { float* q = (float*) p; for (size_t i = 0; i < n / 4; ++i) q[i] = (float) g.uni(-1e3, 1e3); memset((char*) p + (n & ~3ull), 0x3, n & 3); break; }
    }
}

static void* arena_get(size_t n, size_t align, bool zero, const void* pc, const char* name)
{
    if (align < 16) align = 16;
    if (n > (1ull << 30)) return 0;
    uintptr_t a = (brk_ + 32 + align - 1) & ~(uintptr_t) (align - 1);
    if (a + n + 64 > REGION_BASE + ARENA_SIZE) return 0;
    if (n_blocks >= cap_blocks) return 0;
    brk_ = (a + n + 32 + 15) & ~15ull;
    Block& b = blocks[n_blocks];
    b.a = a; b.n = n; b.seq = n_blocks; b.pc = pc; b.name = name; b.live = true; b.external = name != 0; b.fiber = cur ? cur->id : -1;
    b.caller = cur && cur->csn > 0 ? cur->cs[(cur->csn > 64 ? 64 : cur->csn) - 1] : 0;
    ++n_blocks;
    set_state(a, n, 1);
    if (zero) memset((void*) a, 0, n);
    else fill((void*) a, n, n_blocks);
    return (void*) a;
}

void* lib_alloc(size_t n, size_t align, bool zero, const void* pc, bool* failed)
{
    ++R->st.allocs;
    ++g_step; sched_point(false, true);
    *failed = false;
    if (armed)
    {
        ++armed_count;
        bool f = false;
        if (fail_pos < cfg.fail_at.size() && cfg.fail_at[fail_pos] == armed_count) { f = true; ++fail_pos; }
        if (cfg.fail_from && armed_count >= cfg.fail_from) f = true;
        if (cfg.fail_size && (int64_t) n >= cfg.fail_size) f = true;
        if (fail_p > 0 && fault_rng().chance(fail_p)) f = true;
        if (f)
        {
            ++R->st.alloc_faults;
            if (R->n_fault_log < 1024) R->fault_log[R->n_fault_log++] = armed_count;
            if (cfg.watch == 1) { char b[160]; fprintf(stderr, "fault: allocation %ld (%zu bytes) fails in %s", (long) armed_count, n, top_func(pc, b, sizeof b)); for (int i = cur->csn - 1; i >= 0 && i < 64; --i) fprintf(stderr, " < %s", symbol_of(cur->cs[i])); fputc('\n', stderr); }
            *failed = true; errno = ENOMEM; return 0;
        }
    }
    void* p = arena_get(n, align, zero, pc, 0);
    if (!p) { *failed = true; errno = ENOMEM; return 0; }
    return p;
}
void lib_free(void* p, const void* pc)
{
    ++R->st.frees;
    uintptr_t a = (uintptr_t) p;
    int64_t i = block_of(a);
    char fn[160], sg[256], d[256];
    if (i < 0 || blocks[i].a != a)
    {
        top_func(pc, fn, sizeof fn); describe_addr(a, d, sizeof d);
        snprintf(sg, sizeof sg, "bad-free|%s", fn);
        violation("bad-free", sg, "free of a pointer that is not the start of a block: %s, in %s", d, fn);
        return;
    }
    Block& b = blocks[i];
    if (!b.live)
    {
        top_func(pc, fn, sizeof fn);
        snprintf(sg, sizeof sg, "double-free|%s", fn);
        violation("double-free", sg, "block of %zu bytes (%s) freed twice, second time in %s", b.n, b.name ? b.name : symbol_of(b.pc), fn);
        return;
    }
    if (b.external)
    {
        top_func(pc, fn, sizeof fn);
        snprintf(sg, sizeof sg, "bad-free|caller-owned|%s", fn);
        violation("bad-free", sg, "memory owned by the caller (%s) freed by the library in %s", b.name, fn);
        return;
    }
    // freeing counts as a write (races with users) in up to the first 4 kB and the last
    access_range(p, b.n < 4096 ? b.n : 4096, true, pc);
    b.live = false;
    mark_freed(a, b.n);
    memset(p, 0xDD, b.n);
    ++g_step; sched_point(false, true);
}
void* arena_alloc(size_t n, const char* name)
{
    void* p = arena_get(n ? n : 1, 64, false, 0, name);
    if (!p) { violation("harness", "harness|arena", "arena exhausted"); child_finish(); }
    return p;
}
void arena_mark_external(void* p) { int64_t i = block_of((uintptr_t) p); if (i >= 0) blocks[i].external = true; }
void arena_release(void* p)
{
    int64_t i = block_of((uintptr_t) p);
    if (i < 0 || blocks[i].a != (uintptr_t) p || !blocks[i].live) return;
    blocks[i].live = false; mark_freed(blocks[i].a, blocks[i].n); memset(p, 0xDD, blocks[i].n);
}
bool arena_is_live(const void* p) { int64_t i = block_of((uintptr_t) p); return i >= 0 && blocks[i].a == (uintptr_t) p && blocks[i].live; }
size_t arena_block_size(const void* p) { int64_t i = block_of((uintptr_t) p); return i >= 0 && blocks[i].a == (uintptr_t) p ? blocks[i].n : 0; }
void alloc_arm(bool on) { if (on && !armed) armed_count = 0; armed = on; }
int64_t alloc_count() { return armed_count; }
int64_t live_mark() { return n_blocks; }
void report_leaks(int64_t mark, const char* sig)
{
    int64_t n = 0; size_t bytes = 0; Block* first = 0;
    for (int64_t i = mark; i < n_blocks; ++i)
        if (blocks[i].live && !blocks[i].external) { if (!first) first = &blocks[i]; ++n; bytes += blocks[i].n; }
    if (!n) return;
    char sg[256], fn[160];
    // operator new inside library templates: name the function that called it
    top_func(first->pc, fn, sizeof fn);
    if (!strncmp(fn, "std::", 5) && first->caller) top_func(first->caller, fn, sizeof fn);
    snprintf(sg, sizeof sg, "leak|%s|%s", fn, sig);
    violation("leak", sg, "%ld block(s), %zu bytes never freed, first: %zu bytes allocated in %s (%s)", (long) n, bytes, first->n, fn, sig);
}
} // namespace sim

// Probability with which any allocation fails while armed.
void sim_set_fail_p(double p) { sim::fail_p = p; }
// Faults for the next armed phase.
void sim_set_faults(int64_t at, int64_t at2, int64_t from, int64_t size)
{
    sim::cfg.fail_at.clear();
    if (at) sim::cfg.fail_at.push_back(at);
    if (at2 > at) sim::cfg.fail_at.push_back(at2);
    sim::cfg.fail_from = from;
    sim::cfg.fail_size = size;
    sim::fail_pos = 0;
}
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void* __wrap_malloc(size_t n)
{
    if (!lib_ctx()) return __real_malloc(n);
    bool f; return lib_alloc(n, 16, false, PC, &f);
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (!lib_ctx()) return __real_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
    bool f; void* p = lib_alloc(n, 16, true, PC, &f);
    if (p) access_range(p, n, true, PC);
    return p;
}
void __wrap_free(void* p)
{
    if (!p) return;
    if (!in_arena(p))
    {
        if (lib_ctx())
        {
            // not a block of ours: either libc memory, or a stray pointer
            uintptr_t a = (uintptr_t) p;
            extern char __executable_start, _end;
            if ((a >= STACK_BASE && a < REGION_END) || (a >= (uintptr_t) &__executable_start && a < (uintptr_t) &_end))
            { char fn[160], sg[256]; top_func(PC, fn, sizeof fn); snprintf(sg, sizeof sg, "bad-free|%s", fn); fatal_violation("bad-free", sg, "free of non-heap memory in %s", fn); }
        }
        __real_free(p); return;
    }
    if (!lib_ctx()) return; // harness-side destruction of library memory: ignored
    lib_free(p, PC);
}
void* __wrap_realloc(void* p, size_t n)
{
    if (!lib_ctx() && !in_arena(p)) return __real_realloc(p, n);
    bool f; void* q = lib_alloc(n, 16, false, PC, &f);
    if (!q) return 0;
    if (p)
    {
        size_t o = arena_block_size(p);
        memcpy(q, p, o < n ? o : n);
        lib_free(p, PC);
    }
    return q;
}
void* __wrap_aligned_alloc(size_t al, size_t n)
{
    if (!lib_ctx()) return __real_malloc(n);
    bool f; return lib_alloc(n, al, false, PC, &f);
}
void* __wrap_memalign(size_t al, size_t n) { return __wrap_aligned_alloc(al, n); }
int __wrap_posix_memalign(void** p, size_t al, size_t n)
{
    if (!lib_ctx()) { *p = __real_malloc(n); return *p ? 0 : ENOMEM; }
    bool f; void* q = lib_alloc(n, al, false, PC, &f);
    if (!q) return ENOMEM;
    *p = q; return 0;
}
size_t __wrap_strlen(const char* s);
char* __wrap_strdup(const char* s)
{
    size_t n = strlen(s) + 1;
    if (!lib_ctx()) { char* r = (char*) __real_malloc(n); memcpy(r, s, n); return r; }
    bool f; char* r = (char*) lib_alloc(n, 16, false, PC, &f);
    if (r) { access_range(s, n, false, PC); memcpy(r, s, n); }
    return r;
}
}
static void* op_new(size_t n, size_t al, const void* pc, bool nothrow)
{
    if (!lib_ctx())
    {
        void* p = 0;
        if (al > 16) { size_t tot = n + al; char* b = (char*) __real_malloc(tot); p = b; }
        else p = __real_malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    bool f; void* p = lib_alloc(n ? n : 1, al, false, pc, &f);
    if (!p) { if (nothrow) return 0; throw std::bad_alloc(); }
    return p;
}
static void op_delete(void* p, const void* pc)
{
    if (!p) return;
    if (!in_arena(p)) { __real_free(p); return; }
    if (!lib_ctx()) return;
    lib_free(p, pc);
}
void* operator new(size_t n) { return op_new(n, 16, PC, false); }
void* operator new[](size_t n) { return op_new(n, 16, PC, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, PC, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, PC, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t) a, PC, false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t) a, PC, false); }
void operator delete(void* p) noexcept { op_delete(p, PC); }
void operator delete[](void* p) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }
