/* Preloaded into the server under test. A shared control page, named by VT_CTL, lets the
 * driver move the server's clock, shorten its long sleeps, and stop the process dead
 * (SIGKILL, no clean-up of any kind) at the N-th library call that could separate two
 * effects on the data directory. It can also hold threads back at random around locks, memory
 * and file calls, so that a run goes through many interleavings. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

struct ctl {
    volatile int64_t time_offset_ns;   /* 0  added to CLOCK_REALTIME */
    volatile int64_t max_sleep_ns;     /* 8  if > 0, no sleep is longer than this */
    volatile int64_t countdown;        /* 16 if > 0, dies when it reaches 0 */
    volatile int64_t events;           /* 24 events seen so far */
    volatile int64_t crashed;          /* 32 set to kind+1 when killed here */
    volatile int64_t mask;             /* 40 bitmask of event kinds that count */
    volatile int64_t freeze_ns;        /* 48 if > 0, CLOCK_REALTIME always says this */
    volatile int64_t delay_every;      /* 56 if > 0, one call in this many is held back */
    volatile int64_t delay_ns;         /* 64 for at most this long */
    volatile int64_t delay_seed;       /* 72 */
    volatile int64_t delays;           /* 80 number of calls held back */
    volatile int64_t delay_kinds;      /* 88 bitmask: locks, memory, files */
};

enum { EV_FILE = 0, EV_CLOCK = 1, EV_MMAP = 2, EV_META = 3 };

static struct ctl *g_ctl;

__attribute__((constructor)) static void init(void)
{
    const char *p = getenv("VT_CTL");
    if (!p) return;
    prctl(PR_SET_PDEATHSIG, SIGKILL);   /* never outlive the driver */
    int fd = open(p, O_RDWR);
    if (fd < 0) return;
    void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) g_ctl = (struct ctl *)m;
}

enum { DL_LOCK = 0, DL_MEM = 1, DL_FILE = 2 };

static __thread uint64_t t_rand __attribute__((tls_model("initial-exec")));

#define DL_BUDGET 6000000000LL
static volatile int64_t g_slept;

static inline void hold(int kind)
{
    struct ctl *c = g_ctl;
    int64_t every = c ? c->delay_every : 0;
    if (every <= 0 || !((c->delay_kinds >> kind) & 1)) return;
    uint64_t x = t_rand;
    if (!x) x = (uint64_t)c->delay_seed * 0x9E3779B97F4A7C15ULL ^ (uint64_t)gettid() * 0xBF58476D1CE4E5B9ULL ^ 1;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    t_rand = x;
    if ((x >> 20) % (uint64_t)every) return;
    int64_t d = (int64_t)((x >> 7) % 1024) * c->delay_ns / 1024;
    /* a sleep takes at least about 60 us; all of them together only so long, or long runs never end */
    if (__sync_add_and_fetch(&g_slept, d < 1000 ? 2000 : d + 60000) > DL_BUDGET) return;
    struct timespec ts = { 0, d };
    int e = errno;
    __sync_fetch_and_add(&c->delays, 1);
    if (d < 1000) sched_yield();
    else syscall(SYS_nanosleep, &ts, 0);
    errno = e;
}

static inline void event(int kind)
{
    if (kind != EV_CLOCK) hold(DL_FILE);
    struct ctl *c = g_ctl;
    if (!c || !((c->mask >> kind) & 1)) return;
    __sync_fetch_and_add(&c->events, 1);
    if (c->countdown > 0 && __sync_sub_and_fetch(&c->countdown, 1) == 0) {
        c->crashed = kind + 1;
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

int clock_gettime(clockid_t id, struct timespec *ts)
{
    REAL(clock_gettime);
    int rc = real(id, ts);
    if (id == CLOCK_REALTIME && g_ctl) {
        int64_t off = g_ctl->time_offset_ns, t = ts->tv_sec * 1000000000LL + ts->tv_nsec + off;
        if (g_ctl->freeze_ns > 0) t = g_ctl->freeze_ns;
        ts->tv_sec = t / 1000000000LL;
        ts->tv_nsec = t % 1000000000LL;
        event(EV_CLOCK);
    }
    return rc;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

static const struct timespec *shorten(const struct timespec *req, struct timespec *tmp)
{
    int64_t m = g_ctl ? g_ctl->max_sleep_ns : 0;
    if (m > 0 && req->tv_sec * 1000000000LL + req->tv_nsec > m) {
        tmp->tv_sec = m / 1000000000LL;
        tmp->tv_nsec = m % 1000000000LL;
        return tmp;
    }
    return req;
}

int nanosleep(const struct timespec *req, struct timespec *rem)
{
    REAL(nanosleep);
    struct timespec tmp;
    return real(shorten(req, &tmp), rem);
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem)
{
    REAL(clock_nanosleep);
    struct timespec tmp;
    return real(id, flags, (flags & TIMER_ABSTIME) ? req : shorten(req, &tmp), rem);
}

ssize_t write(int fd, const void *p, size_t n)
{
    REAL(write);
    struct stat st;
    if (g_ctl && g_ctl->countdown > 0 && fd > 2 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) event(EV_FILE);
    return real(fd, p, n);
}

size_t fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    REAL(fwrite);
    event(EV_FILE);
    return real(p, s, n, f);
}

int fflush(FILE *f)
{
    REAL(fflush);
    event(EV_FILE);
    int rc = real(f);
    event(EV_FILE);
    return rc;
}

int fclose(FILE *f)
{
    REAL(fclose);
    event(EV_FILE);
    int rc = real(f);
    event(EV_FILE);
    return rc;
}

int ftruncate(int fd, off_t len)
{
    REAL(ftruncate);
    event(EV_META);
    int rc = real(fd, len);
    event(EV_META);
    return rc;
}

int rename(const char *a, const char *b)
{
    REAL(rename);
    event(EV_META);
    int rc = real(a, b);
    event(EV_META);
    return rc;
}

int remove(const char *a)
{
    REAL(remove);
    event(EV_META);
    int rc = real(a);
    event(EV_META);
    return rc;
}

int unlink(const char *a)
{
    REAL(unlink);
    event(EV_META);
    int rc = real(a);
    event(EV_META);
    return rc;
}

int mkdir(const char *a, mode_t m)
{
    REAL(mkdir);
    event(EV_META);
    return real(a, m);
}

int msync(void *p, size_t n, int flags)
{
    REAL(msync);
    event(EV_MMAP);
    /* SIGKILL does not lose the page cache: waiting for the disk only costs time */
    int rc = real(p, n, (flags & ~MS_SYNC) | MS_ASYNC);
    event(EV_MMAP);
    return rc;
}

void *mmap64(void *p, size_t n, int prot, int flags, int fd, off64_t off)
{
    REAL(mmap64);
    if (fd >= 0) event(EV_MMAP);
    return real(p, n, prot, flags, fd, off);
}

void *mremap(void *p, size_t o, size_t n, int flags, ...)
{
    REAL(mremap);
    void *q = 0;
    va_list ap;
    va_start(ap, flags);
    if (flags & MREMAP_FIXED) q = va_arg(ap, void *);
    va_end(ap);
    event(EV_MMAP);
    return real(p, o, n, flags, q);
}

#define AROUND(name, type) \
int name(type *p) \
{ \
    REAL(name); \
    hold(DL_LOCK); \
    return real(p); \
}

AROUND(pthread_mutex_lock, pthread_mutex_t)
AROUND(pthread_rwlock_rdlock, pthread_rwlock_t)
AROUND(pthread_rwlock_wrlock, pthread_rwlock_t)

int pthread_mutex_unlock(pthread_mutex_t *p)
{
    REAL(pthread_mutex_unlock);
    int rc = real(p);
    hold(DL_LOCK);
    return rc;
}

int pthread_rwlock_unlock(pthread_rwlock_t *p)
{
    REAL(pthread_rwlock_unlock);
    int rc = real(p);
    hold(DL_LOCK);
    return rc;
}

#ifndef VT_NO_MALLOC
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void __libc_free(void *);

void *malloc(size_t n)
{
    hold(DL_MEM);
    return __libc_malloc(n);
}

void *calloc(size_t n, size_t m)
{
    hold(DL_MEM);
    return __libc_calloc(n, m);
}

void free(void *p)
{
    if (p) hold(DL_MEM);
    __libc_free(p);
}
#endif
