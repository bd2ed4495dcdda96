/* A scheduler for the threads of one process: only one runs at a time, and which one is decided at every lock, sleep,
   thread start and end (and, with MALLOC, every allocation of the program). The default goes on with the current thread
   until it blocks or sleeps and then takes the next in turn; SCHED="n:t,..." makes decision number n take thread t
   instead. Time is virtual and moves only by sleeping. SCHEDLOG gets one line per decision with more than one choice.
   Decisions are numbered from the first to the second time that "vmc-mark" is looked for as a file. */
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/syscall.h>

#define MT 8
static struct { sem_t sem; int live, sleeping; uint64_t wake; void *want; void *(*fn)(void*); void *arg; } T[MT];
static int nt = 1, cur, window, npoint, ndev, on, marks, usemalloc;
static long steps;
static struct { int n, t; } dev[16];
static uint64_t now = 1700000000000000ULL;
static int logfd = -1;
static __thread int me;
#define MM 4096
static struct { void *m; int own, cnt; } M[MM];

static int mfind(void *m) { unsigned h = ((uintptr_t)m >> 4) % MM; while (M[h].m && M[h].m != m) h = (h + 1) % MM; M[h].m = m; return h; }

static void die(const char *s, int rc) { write(2, s, strlen(s)); _exit(rc); }

static int enabled(int t) {
    if (!T[t].live) return 0;
    if (T[t].want) { int h = mfind(T[t].want); if (M[h].cnt && M[h].own != t) return 0; }
    return 1;
}

/* Decide who goes on. stay: the current thread may. */
static void point(char kind, int stay) {
    if (!on || nt < 2) { if (stay) return; }
    if (++steps > 200000) die("\nLIVELOCK\n", 98);
    int en[MT], n = 0, i, pick = -1;
    for (i = 0; i < nt; i++) if (enabled(i)) en[n++] = i;
    if (!n) die("\nDEADLOCK\n", 97);
    if (stay && enabled(me)) pick = me;
    else {
        for (i = 1; i <= nt && pick < 0; i++) { int t = (me + i) % nt; if (t != me && enabled(t) && !T[t].sleeping) pick = t; }
        /* All asleep: the one to wake first, others before the current. */
        if (pick < 0) for (i = 1; i <= nt; i++) { int t = (me + i) % nt; if (enabled(t) && (pick < 0 || T[t].wake < T[pick].wake)) pick = t; }
    }
    if (n > 1 && window) {
        int k = npoint++;
        for (i = 0; i < ndev; i++) if (dev[i].n == k) {
            if (enabled(dev[i].t)) pick = dev[i].t; else die("\nNOTENABLED\n", 96);
        }
        if (logfd >= 0) {
            char b[64]; int l = sprintf(b, "%d %c %d %d", k, kind, me, pick);
            for (i = 0; i < n; i++) if (en[i] != pick) l += sprintf(b + l, " %d", en[i]);
            b[l++] = '\n'; write(logfd, b, l);
        }
    }
    if (T[pick].sleeping) { if (T[pick].wake > now) now = T[pick].wake; T[pick].sleeping = 0; }
    cur = pick;
    if (pick != me) { sem_post(&T[pick].sem); if (T[me].live) while (sem_wait(&T[me].sem)) ; }
}

__attribute__((constructor)) static void init(void) {
    char *s = getenv("SCHED"), *l = getenv("SCHEDLOG");
    for (int i = 0; i < MT; i++) sem_init(&T[i].sem, 0, 0);
    T[0].live = 1;
    while (s && *s && ndev < 16) { dev[ndev].n = strtol(s, &s, 10); if (*s == ':') s++; dev[ndev++].t = strtol(s, &s, 10); if (*s == ',') s++; }
    if (l) logfd = open(l, O_WRONLY|O_CREAT|O_TRUNC, 0600);
    usemalloc = getenv("SCHEDMALLOC") != NULL;
    on = 1;
}

int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!on) return 0;
    T[me].want = m;
    point('L', 1);
    int h = mfind(m);
    while (M[h].cnt && M[h].own != me) { point('B', 0); h = mfind(m); }
    T[me].want = NULL;
    M[h].own = me; M[h].cnt++;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return pthread_mutex_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!on) return 0;
    int h = mfind(m);
    if (M[h].cnt && M[h].own != me) return EBUSY;
    M[h].own = me; M[h].cnt++;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!on) return 0;
    int h = mfind(m);
    if (!M[h].cnt) return EPERM;   /* As for a recursive one in glibc: nothing happens. */
    if (M[h].own != me) die("\nUNLOCK of a mutex not held\n", 95);
    if (!--M[h].cnt) point('U', 1);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int h = mfind(m); M[h].cnt = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { int h = mfind(m); if (on && M[h].cnt && M[h].own != me) die("\nDESTROY of a held mutex\n", 94); M[h].cnt = 0; return 0; }

static void *tramp(void *a) {
    int t = (int)(intptr_t)a;
    me = t;
    while (sem_wait(&T[t].sem)) ;
    void *r = T[t].fn(T[t].arg);
    T[t].live = 0;
    point('E', 0);
    return r;
}
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void*), void *arg) {
    static int (*real)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    if (nt >= MT) return EAGAIN;
    int t = nt;
    T[t].fn = fn; T[t].arg = arg; T[t].live = 1;
    int rc = real(p, a, tramp, (void*)(intptr_t)t);
    if (rc) { T[t].live = 0; return rc; }
    nt++;
#ifdef MALLOC
    point('C', 1);
#endif
    return 0;
}
static void nap(uint64_t us) { T[me].sleeping = 1; T[me].wake = now + us; point('S', 0); if (T[me].sleeping) { now = T[me].wake; T[me].sleeping = 0; } }
int usleep(useconds_t us) { nap(us); return 0; }
unsigned sleep(unsigned s) { nap(s * 1000000ULL); return 0; }
int gettimeofday(struct timeval *restrict tv, void *restrict z) { tv->tv_sec = now / 1000000; tv->tv_usec = now % 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = now / 1000000; ts->tv_nsec = now % 1000000 * 1000; return 0; }
time_t time(time_t *t) { time_t v = now / 1000000; if (t) *t = v; return v; }

static int mark(const char *p) {
    size_t n = p ? strlen(p) : 0;
    if (n < 8 || strcmp(p + n - 8, "vmc-mark")) return 0;
    window = ++marks == 1;
    errno = ENOENT;
    return 1;
}
int access(const char *p, int m) { return mark(p) ? -1 : syscall(SYS_access, p, m); }
int stat(const char *restrict p, struct stat *restrict b) { return mark(p) ? -1 : syscall(SYS_stat, p, b); }

#ifdef MALLOC
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void*, size_t); extern void __libc_free(void*);
extern char __executable_start __attribute__((weak));
static uintptr_t lo, hi;
static int inexe(void *a) {
    if (!usemalloc || !window) return 0;
    if (!lo) {
        char b[256]; int f = open("/proc/self/maps", O_RDONLY); int n = read(f, b, sizeof b - 1); close(f); b[n] = 0;
        /* The first mapping is the program's; its text is within 8 MB of it. */
        lo = strtoull(b, NULL, 16); hi = lo + (8 << 20);
    }
    return (uintptr_t)a >= lo && (uintptr_t)a < hi;
}
#define P if (inexe(__builtin_return_address(0))) point('M', 1)
void *malloc(size_t n) { P; return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { P; return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { P; return __libc_realloc(p, n); }
void free(void *p) { P; __libc_free(p); }
#endif
