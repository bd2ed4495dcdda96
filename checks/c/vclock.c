#define _GNU_SOURCE
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <stdlib.h>
/* A virtual clock: time passes only when the program sleeps. */
static long long now_us = -1;
static long long now(void) {
    if (now_us < 0) {
        const char *s = getenv("VCLOCK_US");
        now_us = s ? atoll(s) : 1000000000LL*1000000;
    }
    return now_us;
}
int gettimeofday(struct timeval *tv, void *tz) { long long n = now(); tv->tv_sec = n/1000000; tv->tv_usec = n%1000000; return 0; }
time_t time(time_t *t) { time_t n = now()/1000000; if (t) *t = n; return n; }
int clock_gettime(clockid_t c, struct timespec *ts) { long long n = now(); ts->tv_sec = n/1000000; ts->tv_nsec = (n%1000000)*1000; return 0; }
/* whole milliseconds: a delay computed in floating point may be a microsecond short */
int usleep(useconds_t us) { now_us = now() + ((long long)us+999)/1000*1000; return 0; }
unsigned sleep(unsigned s) { now_us = now() + s*1000000LL; return 0; }
int nanosleep(const struct timespec *r, struct timespec *m) { return usleep(r->tv_sec*1000000LL + r->tv_nsec/1000); }
