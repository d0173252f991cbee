/* LD_PRELOAD clock for the production builds: answers every clock read from values the script sets, so that
   hours pass in no time and the wall clock can be stepped while the monotonic clock runs on. Until the first
   vclock_set every read goes to the kernel. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int on;
static int64_t mono, real_, adv;

void vclock_set(int64_t m, int64_t r, int64_t a) { on = 1; mono = m; real_ = r; adv = a; }

static int64_t rd(clockid_t id) {
    int64_t v;
    switch (id) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: v = real_; break;
    default: v = mono;
    }
    mono += adv; real_ += adv;
    return v;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!on || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return (int)syscall(SYS_clock_gettime, id, ts);
    int64_t v = rd(id);
    int64_t s = v / 1000000000, n = v % 1000000000;
    if (n < 0) { n += 1000000000; s--; }
    ts->tv_sec = s; ts->tv_nsec = n;
    return 0;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
