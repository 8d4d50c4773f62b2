// Clock, stream, process-exit, memory-function and pthread seams.
#include "rt_internal.h"
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <ctime>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {
void lock_acquire(const void* a, const char* kind, bool recursive);
bool lock_try(const void* a, const char* kind, bool recursive);
void lock_release(const void* a, const char* kind);
void lock_destroy(const void* a, const char* kind);

// ------------------------------------------------------------------ clock
static int64_t mono_extra, wall_off; static int64_t tick_next; static Rng clk_rng(1);
static Rng rand_rng(1);
static struct tm gm_static;          // the C library's shared result object
static int64_t mono_base;            // time since the machine was started
int64_t mono_ns() { return mono_base + g_step + mono_extra; }
int64_t wall_ns() { return mono_ns() + wall_off; }
void advance_clock(int64_t ns) { if (ns > 0) mono_extra += ns; }
void wall_jump(int64_t ns) { wall_off += ns; ++R->st.clock_jumps; }
static void clock_event()
{
    ++g_step;
    // every reading takes some time; sometimes a lot (a preempted or stalled host thread)
    if (cfg.clock_mode == 0) mono_extra += 100 + (int64_t) clk_rng.below(1000);
    else
    {
        mono_extra += (int64_t) clk_rng.below(clk_rng.chance(0.3) ? 700000000 : 3000000);
        if (cfg.clock_mode == 2 && clk_rng.chance(0.1)) wall_jump((int64_t) clk_rng.below(7200000000000ull) - 3600000000000ll);
    }
    sched_point(false, true);
}
// ------------------------------------------------------------------ streams
static std::string* cap[2];
const std::string& captured(int fd) { return *cap[fd == 2]; }
static Rng str_rng(1);
static bool stream_err[2], stream_full; static int64_t stream_bad; // error indicators; disk full; refusals in a row
static int stream_of(FILE* f) { return f == stdout ? 0 : f == stderr ? 1 : -1; }
static char stream_lock[2];
void stream_call_starts() { stream_bad = 0; }
static int emit(int s, const char* p, size_t n)
{
    // one library call on a stream is atomic (the C library locks the stream)
    ++g_step; sched_point(false, true);
    lock_acquire(&stream_lock[s], "stream lock", true);
    int r = (int) n;
    if (cfg.stream_mode != 4) stream_full = false;
    if (stream_full || (cfg.stream_mode && str_rng.chance(cfg.stream_mode == 4 ? 0.1 : 0.4)))
    {
        ++R->st.stream_faults;
        if (cfg.stream_mode == 4) stream_full = true;        // from here on, for good
        if (cfg.stream_mode == 1 || cfg.stream_mode == 4) { errno = ENOSPC; r = -1; n = 0; }
        else if (cfg.stream_mode == 2) { n = n ? str_rng.below(n) : 0; r = -1; errno = EIO; }
        else { advance_clock((int64_t) str_rng.below(5000000000ull)); fiber_yield(true); }
    }
    if (r >= 0) stream_bad = 0;
    else
    {
        stream_err[s] = true;
        if (++stream_bad > 20000) fatal_violation("no-progress", "no-progress|stream", "a write was tried %ld times on a stream which refuses it", (long) stream_bad);
    }
    int keep = cur->in_lib; cur->in_lib = 0;
    cap[s]->append(p, n);
    cur->in_lib = keep;
    lock_release(&stream_lock[s], "stream lock");
    return r;
}
static int vout(FILE* f, const char* fmt, va_list ap)
{
    char buf[4096];
    int keep = cur->in_lib; cur->in_lib = 0;
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    cur->in_lib = keep;
    if (n < 0) return n;
    if (n >= (int) sizeof buf) n = sizeof buf - 1;
    return emit(stream_of(f), buf, n);
}
void libc_reset()
{
    mono_extra = 0;
    // up for a few minutes, for weeks, or for years
    Rng up(hash64(cfg.seed, 0x0b007));
    mono_base = up.chance(0.7) ? 1000000000000ll : up.chance(0.3) ? (int64_t) (1e9 * up.uni(0, 400)) : (int64_t) (1e9 * std::pow(10.0, up.uni(4, 8.3)));
    wall_off = 1700000000000000000ll - mono_base;
    clk_rng = Rng(hash64(cfg.seed, 0xc10c)); str_rng = Rng(hash64(cfg.seed, 0x57e4)); rand_rng = Rng(42);
    wall_off += (int64_t) clk_rng.below(100000000000000000ull);
    cap[0] = new std::string(); cap[1] = new std::string();
    stream_err[0] = stream_err[1] = stream_full = false; stream_bad = 0;
}

// library-context exits
[[noreturn]] static void process_exit(const char* how, const void* pc)
{
    char fn[160], sg[256]; top_func(pc, fn, sizeof fn);
    snprintf(sg, sizeof sg, "process-exit|%s|%s", how, fn);
    fatal_violation("process-exit", sg, "%s called in %s", how, fn);
}

// ------------------------------------------------------------------ pthreads
struct PMap { pthread_t h; Fiber* f; int id; };
static PMap pmap[256]; static int n_pmap;
static void ticket() { ++g_step; sched_point(false, true); }

} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
int __real_fprintf(FILE*, const char*, ...);
int __real_vfprintf(FILE*, const char*, va_list);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fputs(const char*, FILE*);
int __real_fputc(int, FILE*);
int __real_fflush(FILE*);
int __real_puts(const char*);
int __real_putchar(int);
void __real_flockfile(FILE*); void __real_funlockfile(FILE*); int __real_ftrylockfile(FILE*);
ssize_t __real_write(int, const void*, size_t);

int __wrap_vfprintf(FILE* f, const char* fmt, va_list ap)
{
    if (!lib_ctx() || stream_of(f) < 0) return __real_vfprintf(f, fmt, ap);
    return vout(f, fmt, ap);
}
int __wrap_fprintf(FILE* f, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); int r = __wrap_vfprintf(f, fmt, ap); va_end(ap); return r;
}
int __wrap_printf(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); int r = __wrap_vfprintf(stdout, fmt, ap); va_end(ap); return r;
}
int __wrap_vprintf(const char* fmt, va_list ap) { return __wrap_vfprintf(stdout, fmt, ap); }
size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f)
{
    if (!lib_ctx() || stream_of(f) < 0) return __real_fwrite(p, a, b, f);
    access_range(p, a * b, false, PC);
    int r = emit(stream_of(f), (const char*) p, a * b);
    return r < 0 ? 0 : b;
}
size_t __wrap_fwrite_unlocked(const void* p, size_t a, size_t b, FILE* f) { return __wrap_fwrite(p, a, b, f); }
int __wrap_fputs(const char* s, FILE* f)
{
    if (!lib_ctx() || stream_of(f) < 0) return __real_fputs(s, f);
    return emit(stream_of(f), s, strlen(s));
}
int __wrap_fputs_unlocked(const char* s, FILE* f) { return __wrap_fputs(s, f); }
int __wrap_fputc(int c, FILE* f)
{
    if (!lib_ctx() || stream_of(f) < 0) return __real_fputc(c, f);
    char b = (char) c; return emit(stream_of(f), &b, 1) < 0 ? EOF : c;
}
int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap__IO_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_fputc_unlocked(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_putc_unlocked(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_puts(const char* s)
{
    if (!lib_ctx()) return __real_puts(s);
    std::string* t; int keep = cur->in_lib; cur->in_lib = 0; t = new std::string(s); *t += '\n'; cur->in_lib = keep;
    int r = emit(0, t->data(), t->size());
    keep = cur->in_lib; cur->in_lib = 0; delete t; cur->in_lib = keep;
    return r;
}
int __wrap_putchar(int c) { if (!lib_ctx()) return __real_putchar(c); return __wrap_fputc(c, stdout); }
int __wrap_fflush(FILE* f)
{
    if (!lib_ctx() || (f && stream_of(f) < 0)) return __real_fflush(f);
    char b = 0;
    return emit(f ? stream_of(f) : 0, &b, 0) < 0 ? EOF : 0;
}
int __real_ferror(FILE*); void __real_clearerr(FILE*); 
int __wrap_ferror(FILE* f) { if (!lib_ctx() || stream_of(f) < 0) return __real_ferror(f); return stream_err[stream_of(f)]; }
int __wrap_ferror_unlocked(FILE* f) { return __wrap_ferror(f); }
void __wrap_clearerr(FILE* f) { if (!lib_ctx() || stream_of(f) < 0) { __real_clearerr(f); return; } stream_err[stream_of(f)] = false; }
void __wrap_clearerr_unlocked(FILE* f) { __wrap_clearerr(f); }
void __wrap_flockfile(FILE* f) { if (!lib_ctx() || stream_of(f) < 0) { __real_flockfile(f); return; } lock_acquire(&stream_lock[stream_of(f)], "stream lock", true); }
void __wrap_funlockfile(FILE* f) { if (!lib_ctx() || stream_of(f) < 0) { __real_funlockfile(f); return; } lock_release(&stream_lock[stream_of(f)], "stream lock"); }
int __wrap_ftrylockfile(FILE* f) { if (!lib_ctx() || stream_of(f) < 0) return __real_ftrylockfile(f); return lock_try(&stream_lock[stream_of(f)], "stream lock", true) ? 0 : 1; }
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    if (!lib_ctx() || (fd != 1 && fd != 2)) return __real_write(fd, p, n);
    int r = emit(fd - 1, (const char*) p, n); return r < 0 ? -1 : r;
}
int __wrap_dprintf(int fd, const char* fmt, ...)
{
    char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n >= (int) sizeof b) n = sizeof b - 1;
    return (int) __wrap_write(fd, b, n);
}
void __wrap_perror(const char* s) { if (lib_ctx()) __wrap_fprintf(stderr, "%s: error\n", s); }

// ---- clock. Defined (not wrapped) so that the C++ library's calls land here too.
int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!lib_ctx()) return (int) syscall(SYS_clock_gettime, id, ts);
    clock_event();
    int64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall_ns() : mono_ns();
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
int gettimeofday(struct timeval* tv, void* tz)
{
    if (!lib_ctx()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    (void) tz;
    clock_event();
    int64_t t = wall_ns(); tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000;
    return 0;
}
time_t time(time_t* p)
{
    if (!lib_ctx()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
    clock_event();
    time_t t = wall_ns() / 1000000000; if (p) *p = t; return t;
}
clock_t clock(void) { if (!lib_ctx()) return 0; clock_event(); return mono_ns() / 1000; }
int timespec_get(struct timespec* ts, int base) { clock_gettime(CLOCK_REALTIME, ts); return base; }
static void civil(time_t t, struct tm* o)
{
    // days to civil date (proleptic Gregorian)
    memset(o, 0, sizeof *o);
    int64_t d = t / 86400, r = t % 86400; if (r < 0) { r += 86400; --d; }
    o->tm_hour = (int) (r / 3600); o->tm_min = (int) (r % 3600 / 60); o->tm_sec = (int) (r % 60);
    o->tm_wday = (int) (((d + 4) % 7 + 7) % 7);
    int64_t z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned) (z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = (int64_t) yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, dd = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    if (m <= 2) ++y;
    o->tm_year = (int) (y - 1900); o->tm_mon = (int) m - 1; o->tm_mday = (int) dd;
}
struct tm* gmtime_r(const time_t* t, struct tm* o) { if (lib_ctx()) access_range(o, sizeof(int) * 6, true, PC); civil(*t, o); return o; }
struct tm* gmtime(const time_t* t)
{
    // one static result object shared by all threads, as in the C library
    if (lib_ctx()) { ++g_step; sched_point(false, true); }
    civil(*t, &gm_static);
    access_range(&gm_static, sizeof(int) * 6, true, PC);
    return &gm_static;
}
struct tm* localtime_r(const time_t* t, struct tm* o) { time_t l = *t + 3600; if (lib_ctx()) access_range(o, sizeof(int) * 6, true, PC); civil(l, o); return o; }
struct tm* localtime(const time_t* t) { time_t l = *t + 3600; if (lib_ctx()) { ++g_step; sched_point(false, true); } civil(l, &gm_static); access_range(&gm_static, sizeof(int) * 6, true, PC); return &gm_static; }
int nanosleep(const struct timespec* a, struct timespec*)
{
    if (!cur) return 0;
    cur->sleep_until = mono_ns() + a->tv_sec * 1000000000ll + a->tv_nsec;
    block_on(&cur->sleep_until, "sleep"); return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { return nanosleep(a, b); }
int usleep(useconds_t us) { struct timespec ts = {(time_t) (us / 1000000), (long) (us % 1000000) * 1000}; return nanosleep(&ts, 0); }
unsigned sleep(unsigned s) { struct timespec ts = {(time_t) s, 0}; nanosleep(&ts, 0); return 0; }
int sched_yield(void) { if (cur) fiber_yield(true); return 0; }

int __real_rand(void); void __real_srand(unsigned);
int __wrap_rand(void) { return (int) (rand_rng.next() >> 33); }
void __wrap_srand(unsigned s) { rand_rng = Rng(s); }
long __wrap_random(void) { return (long) (rand_rng.next() >> 33); }
double __wrap_drand48(void) { return rand_rng.u01(); }
char* __real_getenv(const char*);
static const char* env_level;
void sim_set_env_level(const char* v) { env_level = v; }
char* __wrap_getenv(const char* n)
{
    if (!lib_ctx()) return __real_getenv(n);
    ++g_step; sched_point(false, true);
    if (!strcmp(n, "SKA_SDP_FUNC_LOG_LEVEL")) return (char*) env_level;
    return 0;
}
void __real_exit(int) __attribute__((noreturn)); void __real_abort() __attribute__((noreturn)); void __real__exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (lib_ctx()) process_exit("exit", PC); __real_exit(c); }
void __wrap__exit(int c) { if (lib_ctx()) process_exit("_exit", PC); __real__exit(c); }
void __wrap_quick_exit(int) { process_exit("quick_exit", PC); }
void __wrap_abort() { if (lib_ctx()) process_exit("abort", PC); __real_abort(); }
void __wrap___assert_fail(const char* e, const char*, unsigned, const char*) { char b[200]; snprintf(b, sizeof b, "assert"); (void) e; process_exit(b, PC); }

// ---- memory functions: the same checks as instrumented accesses
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (lib_ctx())
    {
        access_range(s, n, false, PC); access_range(d, n, true, PC);
        if (n && d != s && (char*) d < (char*) s + n && (char*) s < (char*) d + n)
        { char fn[160], sg[256]; top_func(PC, fn, sizeof fn); snprintf(sg, sizeof sg, "memcpy-overlap|%s", fn); violation("memcpy-overlap", sg, "memcpy of overlapping memory in %s", fn); }
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) { if (lib_ctx()) { access_range(s, n, false, PC); access_range(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (lib_ctx()) access_range(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (lib_ctx()) { access_range(a, n, false, PC); access_range(b, n, false, PC); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { return __real_strlen(s); }

// ---- C++ one-time initialisation
int __cxa_guard_acquire(uint64_t* g)
{
    volatile char* b = (volatile char*) g;
    if (b[0]) { if (lib_ctx()) hb_acquire(*sync_var(g)); return 0; }
    if (!cur) { if (b[1]) return 0; b[1] = 1; return 1; }
    while (b[1] && !b[0]) block_on(g, "static initialisation");
    if (b[0]) { hb_acquire(*sync_var(g)); return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    volatile char* b = (volatile char*) g; b[0] = 1; b[1] = 0;
    if (cur) { hb_release(*sync_var(g)); wake_all(g); }
}
void __cxa_guard_abort(uint64_t* g) { ((volatile char*) g)[1] = 0; if (cur) wake_all(g); }

// ---- pthreads (std::thread, std::mutex, std::condition_variable)
int pthread_create(pthread_t* h, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!cur) return EAGAIN;
    Fiber* f = fiber_create(0, arg);
    if (!f) return EAGAIN;
    f->is_pthread = true; f->pt_fn = fn; root_team_init(f);
    pmap[n_pmap & 255].f = f; pmap[n_pmap & 255].id = f->id;
    *h = (pthread_t) (0x7000 + f->id); pmap[n_pmap & 255].h = *h; ++n_pmap;
    ticket();
    return 0;
}
static Fiber* pt_find(pthread_t h) { for (int i = 0; i < 256 && i < n_pmap; ++i) if (pmap[i].h == h && pmap[i].f && pmap[i].f->id == pmap[i].id) return pmap[i].f; return 0; }
int pthread_join(pthread_t h, void** ret)
{
    Fiber* f = pt_find(h);
    if (!cur || !f) return ESRCH;
    while (f->st != F_DONE) block_on(f, "thread join");
    vc_join(cur->vc, f->vc);
    if (ret) *ret = f->pt_ret;
    f->st = F_FREE;
    ticket();
    return 0;
}
int pthread_detach(pthread_t h) { Fiber* f = pt_find(h); if (!f) return ESRCH; if (f->st == F_DONE) f->st = F_FREE; else f->pt_detached = true; return 0; }
pthread_t pthread_self(void) { return cur ? (pthread_t) (0x7000 + cur->id) : (pthread_t) 1; }
#define ACTIVE (cur && cur->in_lib)
int pthread_mutex_lock(pthread_mutex_t* m) { if (ACTIVE) lock_acquire(m, "mutex", m->__data.__kind == PTHREAD_MUTEX_RECURSIVE); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (ACTIVE) return lock_try(m, "mutex", m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) ? 0 : EBUSY; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (ACTIVE) lock_release(m, "mutex"); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if (a) m->__data.__kind = *(const int*) a & 3; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (ACTIVE) lock_destroy(m, "mutex"); return 0; }
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!ACTIVE) return 0;
    // A signal counts as soon as the mutex is free.
    cur->cond = c; cur->signalled = false;
    lock_release(m, "mutex");
    if (!cur->signalled && !fault_rng().chance(0.05)) block_on(c, "condition variable"); // else a spurious wake-up
    cur->cond = 0;
    lock_acquire(m, "mutex", false);
    return 0;
}
// A timed wait may wake at any time; each wait lets some time pass, so that the time limit is met.
static int timed_wait(clockid_t id, pthread_mutex_t* m, const struct timespec* t)
{
    lock_release(m, "mutex");
    advance_clock(1000000);
    fiber_yield(true);
    lock_acquire(m, "mutex", false);
    const int64_t now = id == CLOCK_REALTIME ? wall_ns() : mono_ns();
    return now >= (int64_t) t->tv_sec * 1000000000 + t->tv_nsec ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec* t) { return ACTIVE ? timed_wait(CLOCK_REALTIME, m, t) : ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t id, const struct timespec* t) { return ACTIVE ? timed_wait(id, m, t) : ETIMEDOUT; }
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    // 0: never run, 1: running, 2: done
    volatile int* st = (volatile int*) o;
    if (!cur) { if (*st == 0) { *st = 1; f(); *st = 2; } return 0; }
    if (ACTIVE) ticket();
    while (*st == 1) block_on(o, "once");
    if (*st == 2) { hb_acquire(*sync_var(o)); return 0; }
    *st = 1;
    try { f(); } catch (...) { *st = 0; hb_release(*sync_var(o)); wake_all(o); throw; }
    *st = 2;
    hb_release(*sync_var(o)); wake_all(o);
    return 0;
}
// Reader-writer locks: readers may share. (Reader count in the first word, writer in the second.)
struct RW { int readers, writer; };
static_assert(sizeof(RW) <= sizeof(pthread_rwlock_t), "reader-writer lock");
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!ACTIVE) return 0; ticket(); RW* r = (RW*) l; if (r->writer) return EBUSY; ++r->readers; hb_acquire(*sync_var(l)); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!ACTIVE) return 0; ticket(); RW* r = (RW*) l; if (r->writer || r->readers) return EBUSY; r->writer = 1; hb_acquire(*sync_var(l)); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { while (pthread_rwlock_tryrdlock(l)) block_on(l, "reader-writer lock"); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { while (pthread_rwlock_trywrlock(l)) block_on(l, "reader-writer lock"); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!ACTIVE) return 0;
    ticket(); RW* r = (RW*) l;
    // (what readers did is ordered before the next writer, and also before the next reader: a race between readers' writes may go unseen)
    hb_release(*sync_var(l));
    if (r->writer) r->writer = 0; else if (r->readers > 0) --r->readers;
    else violation("lock", "lock|unlock-not-owner|rwlock", "reader-writer lock released by thread %d which does not hold it", cur->id);
    wake_all(l); ticket(); return 0;
}
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) { if (ACTIVE) lock_acquire((const void*) l, "spin lock", false); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) { return ACTIVE ? (lock_try((const void*) l, "spin lock", false) ? 0 : EBUSY) : 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { if (ACTIVE) lock_release((const void*) l, "spin lock"); return 0; }
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!ACTIVE) return 0;
    int n = 0; Fiber* w[MAXT];
    for (int i = 0; i < MAXT; ++i) if (fibers[i].cond == c && !fibers[i].signalled && fibers[i].st != F_FREE && fibers[i].st != F_DONE) w[n++] = &fibers[i];
    if (n)
    {
        Fiber* f = w[n > 1 ? fault_rng().below((uint64_t) n) : 0];
        f->signalled = true;
        if (f->st == F_BLOCKED && f->wait_obj == c) f->st = F_READY;
    }
    ticket(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!ACTIVE) return 0;
    for (int i = 0; i < MAXT; ++i) if (fibers[i].cond == c) fibers[i].signalled = true;
    wake_all(c); ticket(); return 0;
}
}
