/* Clock and entropy seam: interposed in front of libc, off until a simulated process turns it on. */
#define _GNU_SOURCE
#include <stdint.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int clock_on, entropy_on;
static volatile int64_t now_ns, mono_ns, step_ns;
static volatile uint64_t state, reads, draws;

void dst_clock(int on, int64_t sec, int64_t step) {
    clock_on = on; now_ns = sec * 1000000000LL; step_ns = step;
    if (mono_ns == 0) mono_ns = 1000000000LL;
}
void dst_jump(int64_t sec) {               /* mono never runs backwards */
    now_ns += sec * 1000000000LL;
    if (sec > 0) mono_ns += sec * 1000000000LL;
}
void dst_entropy(int on, uint64_t seed) { entropy_on = on; state = seed * 2 + 1; }
uint64_t dst_reads(void) { return reads; }
uint64_t dst_draws(void) { return draws; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!clock_on) return (int)syscall(SYS_clock_gettime, id, ts);
    /* The interpreter's own lock waits read the monotonic clock at moments the simulator does not
       control, so only wall-clock reads make time pass. */
    int64_t v = mono_ns;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) {
        reads++;
        now_ns += step_ns; mono_ns += step_ns;
        v = now_ns;
    }
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    (void)tz;
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
ssize_t getrandom(void *buf, size_t n, unsigned int flags) {
    if (!entropy_on) return syscall(SYS_getrandom, buf, n, flags);
    draws++;
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
        state ^= state << 13; state ^= state >> 7; state ^= state << 17;
        p[i] = (unsigned char)(state >> 24);
    }
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
