/* C26: now(). */
#include "mc.h"
#include "vk.h"
#include "libdill.h"

const char *mc_property = "C26";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "the system's monotonic clock never goes back",
    "whenever a millisecond has passed between two calls of now() the time stamp counter has moved by a million cycles or more, in either direction",
    "one thread; x86 (elsewhere the clock is read each time)", NULL};

static unsigned long long tsc;
static unsigned long long get(void) { return tsc; }
static struct { int64_t us; unsigned long long tsc; int64_t val; } H[16]; static int nh;
/* Is what happened so far within the assumption? */
static int ok_(void) {
    int64_t t = vk_us();
    for(int i = 0; i < nh; ++i) {
        if(t - H[i].us < 1000) continue;
        unsigned long long d = tsc - H[i].tsc; if(d > 0x8000000000000000ULL) d = -d;
        if(d < 1000000) return 0;
    }
    return 1;
}
static void call(void) {
    int64_t t = vk_us(), n = now();
    mc_log("  now() = %lld at %lld us, counter %llx", (long long)n, (long long)t, tsc);
    if(nh) MC_CHECK(n >= H[nh - 1].val, "back", "now() went back from %lld to %lld", (long long)H[nh - 1].val, (long long)n);
    MC_CHECK(n * 1000 <= t, "ahead", "now() is ahead of the clock: %lld ms at %lld us", (long long)n, (long long)t);
    /* One millisecond of the cache and the granularity of the clock. */
    MC_CHECK(n * 1000 + 1000 + vk.coarse * 1000 > t, "lag", "now() lags by %lld us", (long long)(t - n * 1000));
    H[nh].us = t; H[nh].tsc = tsc; H[nh].val = n; ++nh;
    mc_step();
}
static void start(void) {
    static const unsigned long long t0[] = {3000000000ULL, 0, 0xfffffffffff00000ULL, 0x7ffffffffff80000ULL};
    nh = 0; tsc = t0[mc_pick(4, "counter")]; vk_tsc = get;
    vk.coarse = (int[]){1, 4}[mc_pick(2, "clock granularity")];
    call();
}
static void seq(void) {
    static const int64_t dt[] = {0, 400, 999, 1000, 1001, 4000, 16000, 3600000000LL};
    static const long long dc[] = {0, 999999, 1000000, 1000001, 3000000, 500000, -1, -999999, -1000000, -5000000000LL, 0x7fffffffffffffffLL, (long long)0x8000000000000000ULL};
    start();
    int n = mc_arg & 15, nd = mc_arg >> 4 & 15;
    for(int i = 0; i < n; ++i) {
        int64_t a = dt[mc_pick(nd, "time")];
        vk_advance_us(a);
        tsc += (unsigned long long)dc[mc_pick(12, "counter moves")];
        if(mc_arg >> 8) vk_wall_us -= 3600000000LL * mc_pick(2, "wall clock is set back");
        if(!ok_()) { mc_trivial(); return; }
        call();
    }
    mc_obs(nh); mc_state(mc_mix(H[nh - 1].val, tsc - H[0].tsc));
}
/* A steady counter: many calls. */
static int khz; static unsigned long long steady(void) { return (unsigned long long)vk_us() * khz / 1000; }
static void rate(void) {
    khz = (int[]){1000000, 1400000, 3000000, 5000000}[mc_pick(4, "frequency")];
    nh = 0; vk.coarse = (int[]){1, 4}[mc_pick(2, "clock granularity")];
    vk_tsc = steady; tsc = 0;
    static const int64_t dt[] = {1, 100, 199, 333, 500, 999, 1000, 2500};
    for(int i = 0; i < mc_arg; ++i) { vk_advance_us(dt[mc_pick(8, "time")]); call(); }
    mc_obs(nh); mc_state(mc_mix(H[nh - 1].val, khz));
}
/* Coroutines: the time seen after blocking calls; all share the clock. */
static int64_t last; static int fin;
static void see(void) {
    int64_t t = vk_us(), n = now();
    MC_CHECK(n >= last, "back", "now() went back from %lld to %lld", (long long)last, (long long)n);
    MC_CHECK(n * 1000 <= t, "ahead", "now() is ahead of the clock");
    MC_CHECK(n * 1000 + 1000 + vk.coarse * 1000 > t, "lag", "now() lags by %lld us", (long long)(t - n * 1000));
    last = n; mc_step();
}
static coroutine void worker(int a, int b, int64_t work) {
    for(int i = 0; i < 2; ++i) {
        see();
        int64_t d = now() + (i ? b : a);
        int rc = msleep(d);
        if(rc) break;
        MC_CHECK(now() >= d, "early", "now() is %lld after sleeping until %lld", (long long)now(), (long long)d);
        see();
        vk_advance_us(work);
        see();
        if(yield()) break;
        see();
    }
    ++fin;
}
static void coroutines(void) {
    khz = (int[]){1000000, 3000000}[mc_pick(2, "frequency")]; vk_tsc = steady;
    vk.coarse = (int[]){1, 4}[mc_pick(2, "clock granularity")]; vk.late = 1;
    last = 0; fin = 0;
    static const int D[] = {0, 1, 2, 7};
    static const int64_t W[] = {0, 300, 999, 2000, 1500000};
    int h[3], n = 2;
    for(int i = 0; i < n; ++i) { int a = D[mc_pick(4, "sleep")], b = D[mc_pick(4, "sleep")]; int64_t w = W[mc_pick(5, "work")]; h[i] = go(worker(a, b, w)); }
    see();
    MC_CHECK(msleep(now() + 5000) == 0, "msleep", "msleep"); see();
    MC_CHECK(fin == n, "stuck", "%d coroutines are done", fin);
    for(int i = 0; i < n; ++i) hclose(h[i]);
    mc_obs(fin); mc_state(last);
}
struct mc_scn mc_scns[] = {
    {"seq-2", "2 steps with wall clock jumps: 8 time steps, 12 counter moves (zero, around a million, backward, half the range), 4 initial counters", seq, 0, 0, 2 | 8 << 4 | 1 << 8},
    {"seq-3", "3 steps", seq, 0, -1, 3 | 4 << 4},
    {"seq-3-8", "3 steps, all time steps", seq, -1, 0, 3 | 8 << 4},
    {"seq-4", "4 steps", seq, -1, 0, 4 | 3 << 4},
    {"rate-5", "5 calls with a steady counter", rate, 0, -1, 5},
    {"rate-7", "7 calls with a steady counter", rate, -1, 0, 7},
    {"coroutines", "two coroutines sleep, work and yield; late wake-ups", coroutines, 1, 3},
    {NULL}};
