#include <stdio_ext.h>
// Linked into the instrumented broker only (never into /repo's own build).
//  - controlled clock: CLOCK_MONOTONIC / CLOCK_REALTIME + offset from a shared page
//  - file operation log and fault injection inside one directory
//  - seeded scheduling noise at function entries (-finstrument-functions)
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <climits>
#include <cstdarg>
#include <atomic>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <netdb.h>
#include <pthread.h>

#define NOINS __attribute__((no_instrument_function, no_sanitize("thread"), no_sanitize("address"), no_sanitize("undefined"), visibility("default")))
#define EXPORT extern "C" NOINS

struct Shared   // layout known to lib/broker.py
{
    volatile int64_t clock_offset_ns;   // 0
    volatile int64_t noise_on;          // 8   0 = off, else probability denominator
    volatile int64_t noise_seed;        // 16
    volatile int64_t slow_mod;          // 24  functions with hash % slow_mod == 0 are slow
    volatile int64_t slow_us;           // 32
    volatile int64_t fault_armed;       // 40
    volatile int64_t fault_at;          // 48  index (1-based) of the file operation to hit
    volatile int64_t fault_mode;        // 56  1 crash, 2 EIO once, 3 ENOSPC from here on, 4 short write once, 5 ENOSPC once
    volatile int64_t op_counter;        // 64
    volatile int64_t noise_hits;        // 72
    volatile int64_t slow_hits;         // 80
    volatile int64_t fault_fired;       // 88
    volatile int64_t op_delay_us;       // 96  delay every file operation (to widen saving)
    volatile int64_t target_count;      // 104 chosen functions that get long delays at entry
    volatile int64_t target_us;         // 112
    volatile int64_t target_den;        // 120 one in so many calls
    volatile int64_t target_hits;       // 128
    volatile int64_t targets[64];       // 136 offsets from __executable_start
    volatile int64_t dns_delay_ms;      // 648 asynchronous name lookups take this long
    volatile int64_t dns_lookups;       // 656
    volatile int64_t dns_finished;      // 664
    volatile int64_t heap_want;         // 672 set to 1 to ask for the following
    volatile int64_t heap_bytes;        // 680 allocated bytes according to the sanitizer's allocator
};

static Shared g_local;
static Shared *g = &g_local;
static char g_dir[PATH_MAX];
static size_t g_dirlen;
static int g_log = -1;

static NOINS int raw_clock(clockid_t id, struct timespec *ts) { return (int)syscall(SYS_clock_gettime, id, ts); }

static NOINS __attribute__((constructor(101))) void shim_init()
{
    const char *p = getenv("FMQV_SHM");
    if (p)
    {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0600);
        if (fd >= 0)
        {
            void *m = (void*)syscall(SYS_mmap, (long)0, (long)4096, (long)(PROT_READ | PROT_WRITE), (long)MAP_SHARED, (long)fd, (long)0);
            if (m != MAP_FAILED) g = (Shared*)m;
            syscall(SYS_close, fd);
        }
    }
    const char *d = getenv("FMQV_DIR");
    if (d) { strncpy(g_dir, d, sizeof(g_dir) - 1); g_dirlen = strlen(g_dir); }
    const char *l = getenv("FMQV_OPLOG");
    if (l) g_log = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}

// ---------------------------------------------------------------- clock
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
EXPORT int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (g->heap_want && __sanitizer_get_current_allocated_bytes)
    {
        g->heap_bytes = (int64_t)__sanitizer_get_current_allocated_bytes();
        __atomic_store_n(&g->heap_want, 0, __ATOMIC_RELEASE);
    }
    int r = raw_clock(id, ts);
    if (r == 0 && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME))
    {
        int64_t off = __atomic_load_n(&g->clock_offset_ns, __ATOMIC_RELAXED);
        int64_t ns = ts->tv_nsec + off % 1000000000LL;
        ts->tv_sec += off / 1000000000LL;
        if (ns >= 1000000000LL) { ns -= 1000000000LL; ts->tv_sec++; }
        if (ns < 0) { ns += 1000000000LL; ts->tv_sec--; }
        ts->tv_nsec = ns;
    }
    return r;
}
EXPORT time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

// ---------------------------------------------------------------- file operations
static NOINS bool in_dir(const char *path) { return g_dirlen && path && strncmp(path, g_dir, g_dirlen) == 0; }

static NOINS bool fd_in_dir(int fd, char *out)
{
    if (!g_dirlen || fd < 0) return false;
    char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, out, PATH_MAX - 1);
    if (n <= 0) return false;
    out[n] = 0;
    return in_dir(out);
}

static NOINS void oplog(const char *op, const char *a, const char *b, long res)
{
    if (g_log < 0) return;
    char line[2 * PATH_MAX + 128];
    int n = snprintf(line, sizeof line, "%lld %s %s %s %ld\n", (long long)g->op_counter, op, a, b && *b ? b : "-", res);
    syscall(SYS_write, g_log, line, n);
}

static thread_local int in_op = 0;

// Counts the operation; returns the fault to apply now: 0 none, 2/5 = fail with errno set, 4 = short write
static NOINS int fault_point(const char *op, const char *path)
{
    if (g->op_delay_us) { struct timespec ts{ (time_t)(g->op_delay_us / 1000000), (long)(g->op_delay_us % 1000000) * 1000 }; syscall(SYS_nanosleep, &ts, nullptr); }
    if (!g->fault_armed) { __atomic_add_fetch(&g->op_counter, 1, __ATOMIC_SEQ_CST); return 0; }
    int64_t n = __atomic_add_fetch(&g->op_counter, 1, __ATOMIC_SEQ_CST);
    int64_t mode = g->fault_mode;
    if (g->fault_at <= 0) return 0;
    if (n == g->fault_at)
    {
        g->fault_fired = 1;
        oplog("FAULT", op, path, mode);
        if (mode == 1) { syscall(SYS_kill, getpid(), SIGKILL); for(;;) pause(); }
        if (mode == 2) { errno = EIO; return 2; }
        if (mode == 3 || mode == 5) { errno = ENOSPC; return 2; }
        if (mode == 4) { errno = ENOSPC; return 4; }
    }
    if (mode == 3 && n > g->fault_at && (strcmp(op, "write") == 0 || strcmp(op, "flush") == 0 || strcmp(op, "open") == 0)) { errno = ENOSPC; return 2; }
    return 0;
}

template <class F> static NOINS F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }

EXPORT size_t fwrite(const void *ptr, size_t size, size_t n, FILE *f)
{
    static auto r = real<size_t(*)(const void*, size_t, size_t, FILE*)>("fwrite");
    char path[PATH_MAX];
    if (!g_dirlen || in_op || !fd_in_dir(fileno(f), path)) return r(ptr, size, n, f);
    in_op++;
    size_t res;
    int fp = fault_point("write", path);
    if (fp) f->_flags |= 0x20;      // what a failing write does: the error indicator (_IO_ERR_SEEN) is set
    if (fp == 2) res = 0;
    else if (fp == 4) { size_t half = n / 2; int e = errno; r(ptr, size, half, f); errno = e; res = half; }
    else res = r(ptr, size, n, f);
    oplog("write", path, "", (long)(res * size));
    in_op--;
    return res;
}
EXPORT int fflush(FILE *f)
{
    static auto r = real<int(*)(FILE*)>("fflush");
    char path[PATH_MAX];
    if (!f || !g_dirlen || in_op || !fd_in_dir(fileno(f), path)) return r(f);
    in_op++;
    int res;
    int fp = fault_point("flush", path);
    if (fp) { int e = errno; __fpurge(f); f->_flags |= 0x20; errno = e; res = EOF; }     // what was buffered is lost
    else res = r(f);
    oplog("flush", path, "", res);
    in_op--;
    return res;
}
EXPORT int fclose(FILE *f)
{
    static auto r = real<int(*)(FILE*)>("fclose");
    char path[PATH_MAX];
    if (!f || !g_dirlen || in_op || !fd_in_dir(fileno(f), path)) return r(f);
    in_op++;
    int fp = fault_point("close", path);
    int e = errno;
    int res = r(f);
    if (fp) { errno = e; res = EOF; }
    oplog("close", path, "", res);
    in_op--;
    return res;
}
static NOINS int do_fsync(const char *name, int fd)
{
    char path[PATH_MAX];
    int nr = strcmp(name, "fsync") == 0 ? SYS_fsync : SYS_fdatasync;
    if (!g_dirlen || !(fd_in_dir(fd, path) )) return (int)syscall(nr, fd);
    int fp = fault_point("sync", path);
    int res = fp ? -1 : 0;      // page cache is not at stake for us: do not wait for the disk
    oplog("sync", path, "", res);
    return res;
}
EXPORT int fsync(int fd) { return do_fsync("fsync", fd); }
EXPORT int fdatasync(int fd) { return do_fsync("fdatasync", fd); }
EXPORT int rename(const char *a, const char *b)
{
    if (!in_dir(a) && !in_dir(b)) return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    int fp = fault_point("rename", a);
    int res = fp ? -1 : (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    oplog("rename", a, b, res);
    return res;
}
EXPORT int unlink(const char *a)
{
    if (!in_dir(a)) return (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0);
    int fp = fault_point("unlink", a);
    int res = fp ? -1 : (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0);
    oplog("unlink", a, "", res);
    return res;
}
static NOINS int do_open(const char *path, int flags, mode_t mode)
{
    bool w = (flags & O_ACCMODE) != O_RDONLY;
    if (!in_dir(path) || !w) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    int fp = fault_point("open", path);
    int res = fp ? -1 : (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    oplog("open", path, "", res);
    return res;
}
EXPORT int open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(path, flags, m);
}
EXPORT int open64(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return do_open(path, flags, m);
}
EXPORT FILE *fopen(const char *path, const char *mode)
{
    static auto r = real<FILE*(*)(const char*, const char*)>("fopen");
    bool w = mode && (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'));
    if (!in_dir(path) || !w) return r(path, mode);
    int fp = fault_point("open", path);
    FILE *res = fp ? nullptr : r(path, mode);
    oplog("open", path, "", res ? 0 : -1);
    return res;
}

// ---------------------------------------------------------------- scheduling noise
extern "C" char __executable_start;
static thread_local uint64_t rng_state = 0;

static NOINS inline uint64_t mix(uint64_t x)
{
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
    return x;
}

EXPORT void __cyg_profile_func_enter(void *fn, void *)
{
    int64_t den = __atomic_load_n(&g->noise_on, __ATOMIC_RELAXED);
    const int64_t tc = __atomic_load_n(&g->target_count, __ATOMIC_RELAXED);
    if (__builtin_expect(den == 0 && tc == 0, 1)) return;
    if (!rng_state) rng_state = mix((uint64_t)g->noise_seed * 0x9E3779B97F4A7C15ULL + (uint64_t)syscall(SYS_gettid) % 64 + 1) | 1;
    rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
    uint64_t r = rng_state;
    if (tc > 0)
    {
        const int64_t off = (char*)fn - &__executable_start;
        for (int64_t i = 0; i < tc && i < 64; i++)
        {
            if (g->targets[i] != off) continue;
            if ((int64_t)((r >> 12) % (uint64_t)(g->target_den > 0 ? g->target_den : 1)) == 0)
            {
                __atomic_add_fetch(&g->target_hits, 1, __ATOMIC_RELAXED);
                int64_t us = (int64_t)((r >> 20) % (uint64_t)(g->target_us > 0 ? g->target_us : 1)) + 1;
                struct timespec ts{ (time_t)(us / 1000000), (long)(us % 1000000) * 1000L };
                syscall(SYS_nanosleep, &ts, nullptr);
            }
            return;
        }
    }
    if (den == 0) return;
    int64_t sm = g->slow_mod;
    if (sm > 0)
    {
        uint64_t h = mix((uint64_t)((char*)fn - &__executable_start) ^ ((uint64_t)g->noise_seed << 32));
        if ((int64_t)(h % (uint64_t)sm) == 0 && (r & 7) == 0)
        {
            __atomic_add_fetch(&g->slow_hits, 1, __ATOMIC_RELAXED);
            int64_t us = g->slow_us; if (us <= 0) us = 200;
            us = (int64_t)((r >> 16) % (uint64_t)us) + 1;
            struct timespec ts{ 0, us * 1000L };
            syscall(SYS_nanosleep, &ts, nullptr);
            return;
        }
    }
    if ((r >> 8) % (uint64_t)den == 0)
    {
        __atomic_add_fetch(&g->noise_hits, 1, __ATOMIC_RELAXED);
        if ((r >> 40) & 1) syscall(SYS_sched_yield);
        else { struct timespec ts{ 0, (long)((r >> 20) % 60000) }; syscall(SYS_nanosleep, &ts, nullptr); }
    }
}
EXPORT void __cyg_profile_func_exit(void *, void *) {}

// ---- asynchronous name lookups: same contract as glibc's getaddrinfo_a(GAI_NOWAIT), with a controllable duration, and on threads the sanitizers know about
static pthread_mutex_t dns_mtx = PTHREAD_MUTEX_INITIALIZER;
struct DnsJob { struct gaicb *cb; };
static void *(*volatile checked_move)(void *, const void *, size_t) = &memmove; // through the sanitizer's interceptor: finds freed or poisoned memory
static NOINS void *dns_thread(void *arg)
{
    DnsJob *j = (DnsJob*)arg; struct gaicb cb; struct addrinfo hints{}; char name[1100]; struct addrinfo *res = nullptr;
    checked_move(&cb, j->cb, sizeof cb);
    if (cb.ar_request) checked_move(&hints, cb.ar_request, sizeof hints);
    const int64_t ms = g->dns_delay_ms;
    if (ms > 0) { struct timespec ts{ (time_t)(ms / 1000), (long)(ms % 1000) * 1000000L }; syscall(SYS_nanosleep, &ts, nullptr); }
    size_t n = strlen(cb.ar_name) + 1; if (n > sizeof name) n = sizeof name;
    checked_move(name, cb.ar_name, n); name[sizeof name - 1] = 0;
    hints.ai_flags &= ~AI_ADDRCONFIG; // a sandbox may have the loopback interface only
    int rc = getaddrinfo(name, cb.ar_service, cb.ar_request ? &hints : nullptr, &res);
    pthread_mutex_lock(&dns_mtx);
    checked_move(&j->cb->ar_result, &res, sizeof res);
    checked_move(&j->cb->__return, &rc, sizeof rc);
    pthread_mutex_unlock(&dns_mtx);
    __atomic_add_fetch(&g->dns_finished, 1, __ATOMIC_RELAXED);
    free(j);
    return nullptr;
}
EXPORT int getaddrinfo_a(int, struct gaicb *list[], int n, struct sigevent *)
{
    for (int i = 0; i < n; i++)
    {
        DnsJob *j = (DnsJob*)malloc(sizeof(DnsJob)); j->cb = list[i];
        pthread_mutex_lock(&dns_mtx); j->cb->__return = EAI_INPROGRESS; pthread_mutex_unlock(&dns_mtx);
        __atomic_add_fetch(&g->dns_lookups, 1, __ATOMIC_RELAXED);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); pthread_t t;
        sigset_t all, old; sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &old);
        int rc = pthread_create(&t, &a, dns_thread, j);
        pthread_sigmask(SIG_SETMASK, &old, nullptr); pthread_attr_destroy(&a);
        if (rc != 0) { free(j); j = nullptr; list[i]->__return = EAI_SYSTEM; return EAI_AGAIN; }
    }
    return 0;
}
EXPORT int gai_error(struct gaicb *cb) __THROW
{
    pthread_mutex_lock(&dns_mtx); int r; checked_move(&r, &cb->__return, sizeof r); pthread_mutex_unlock(&dns_mtx);
    return r;
}
EXPORT int gai_cancel(struct gaicb *cb) __THROW
{
    pthread_mutex_lock(&dns_mtx); int r = cb->__return; pthread_mutex_unlock(&dns_mtx);
    return cb->ar_name && r == EAI_INPROGRESS ? EAI_NOTCANCELED : EAI_ALLDONE;
}
