/* Wall-clock seam: the simulator owns CLOCK_REALTIME of this process.
 *
 * Preloaded into the simulated interpreter. Off (real clock) until sim_clock_set() is
 * called; from then on every read of the wall clock returns the simulated instant, and
 * afterwards moves it by the next entry of the jump script (or by the constant tick).
 * CLOCK_MONOTONIC stays real; only the harness's own budgets look at it.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <sys/time.h>
#include <time.h>

static int (*real_gettime)(clockid_t, struct timespec *);
static int on = 0;
static long long now_ns = 0, tick_ns = 0, reads = 0;
static long long script[256];
static int script_len = 0, script_pos = 0;

void sim_clock_set(long long ns, long long tick) {
    now_ns = ns; tick_ns = tick; on = 1; reads = 0; script_len = script_pos = 0;
}
void sim_clock_script(const long long *jumps, int n) {
    if (n > 256) n = 256;
    for (int i = 0; i < n; i++) script[i] = jumps[i];
    script_len = n; script_pos = 0;
}
void sim_clock_off(void) { on = 0; }
long long sim_clock_now(void) { return now_ns; }
long long sim_clock_reads(void) { return reads; }

static long long take(void) {
    long long t = now_ns;
    reads++;
    if (script_pos < script_len) now_ns += script[script_pos++];
    else now_ns += tick_ns;
    return t;
}
static void floordiv(long long t, long long *s, long long *r) {
    *s = t / 1000000000LL; *r = t % 1000000000LL;
    if (*r < 0) { *r += 1000000000LL; *s -= 1; }
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        long long s, r; floordiv(take(), &s, &r);
        ts->tv_sec = s; ts->tv_nsec = r; return 0;
    }
    if (!real_gettime)
        real_gettime = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real_gettime(id, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *out) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}
int timespec_get(struct timespec *ts, int base) {
    if (base != TIME_UTC) return 0;
    clock_gettime(CLOCK_REALTIME, ts);
    return base;
}
