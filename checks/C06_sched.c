/* C06: order of scheduling, starvation, polling. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include <poll.h>

const char *mc_property = "C06";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, up to 6 coroutines",
    "system calls, clock and heap are those of the virtual kernel", NULL};

/* ---- exact model of the ready queue ---- */
#define NC 7
static int rq[64], nrq, cur, nc, budget, ended[NC], blocked[NC], ch[NC][2], hnd[NC], seq_, started[NC], closing[NC], closer[NC], parent_[NC];
static int polls0, over;
static void push(int i) { rq[nrq++] = i; }
static int pop(void) { int i = rq[0]; memmove(rq, rq + 1, --nrq * sizeof(int)); return i; }
static void am(int i, const char *when) {
    if(over) return;
    MC_CHECK(cur == i, "order", "%s: coroutine %d is running, expected %d", when, i, cur);
    MC_CHECK(vk_blocking_polls == polls0, "blocked", "%s: the thread blocked in the kernel although coroutines were ready", when);
    mc_obs(i + 1);
}
static void run(int i, int closes);
static coroutine void body(int i) {
    am(i, "start");
    run(i, 1);
    /* The end. */
    ended[i] = 1;
    if(closing[i]) push(closer[i]);
    if(over) return;
    if(!nrq && blocked[0] == 1) {
        MC_CHECK(chsend(ch[0][1], "x", 1, 0) == 0, "wake", "chsend to main: %s", strerror(errno));
        blocked[0] = 2; push(0);
    }
    if(nrq) cur = pop(); else cur = -1;
}
static int waiting(int i) { return blocked[i] && !ended[i]; }
static void run(int i, int closes) {
    while(budget > 0) {
        /* Alternatives: yield, go, wake x, block, close x, hog, exit. */
        struct {int k, x;} al[32]; int n = 0;
        al[n].k = 0; al[n++].x = 0;
        if(nc < NC - 1 && !closing[i]) { al[n].k = 1; al[n++].x = 0; }
        for(int x = 0; x < nc; ++x) if(waiting(x) && !closing[i] && x != i && blocked[x] == 1) { al[n].k = 2; al[n++].x = x; }
        if(nrq > 0 && !closing[i]) { al[n].k = 3; al[n++].x = 0; }
        for(int x = 1; x < nc; ++x) if(x != i && hnd[x] >= 0 && parent_[x] == i && !closing[i] && !closing[x] && started[x]) { al[n].k = 4; al[n++].x = x; }
        if(i != 0) { al[n].k = 5; al[n++].x = 0; }
        int a = mc_pick(n, "action"), x = al[a].x, rc;
        --budget; mc_step();
        uint64_t h = cur; for(int k = 0; k < nrq; ++k) h = mc_mix(h, rq[k]); for(int k = 0; k < nc; ++k) h = mc_mix(h, blocked[k] + 4 * ended[k]);
        mc_state(h);
        switch(al[a].k) {
        case 0:
            if(closing[i]) {
                errno = 0; rc = yield();
                MC_CHECK(rc == -1 && errno == ECANCELED, "canceled", "yield in a closed coroutine: %d", rc);
                am(i, "after refused yield");
                break;
            }
            mc_log("%d yields", i);
            push(i); cur = pop();
            rc = yield();
            MC_CHECK(rc == 0, "yield", "yield: %s", strerror(errno));
            am(i, "after yield");
            break;
        case 1: {
            int j = nc++;
            mc_log("%d starts %d", i, j);
            ended[j] = 0; blocked[j] = 0; closing[j] = 0; parent_[j] = i; started[j] = 0;
            if(chmake(ch[j]) < 0) mc_fail("setup", "chmake");
            push(i); cur = j;
            hnd[j] = go(body(j));
            started[j] = 1;
            MC_CHECK(hnd[j] >= 0, "go", "go: %s", strerror(errno));
            am(i, "after go");
            break; }
        case 2:
            mc_log("%d wakes %d", i, x);
            rc = chsend(ch[x][1], "x", 1, 0);
            MC_CHECK(rc == 0, "wake", "chsend: %s", strerror(errno));
            blocked[x] = 2; push(x);
            am(i, "after waking another");
            break;
        case 3: {
            char c;
            mc_log("%d blocks", i);
            blocked[i] = 1; cur = pop();
            rc = chrecv(ch[i][0], &c, 1, -1);
            int want = blocked[i] == 2 ? 0 : -1;
            MC_CHECK(rc == want, "chrecv", "chrecv: %d %s", rc, strerror(errno));
            blocked[i] = 0;
            am(i, "after blocking");
            break; }
        case 4: {
            mc_log("%d closes %d", i, x);
            int h = hnd[x]; hnd[x] = -1;
            if(!ended[x]) {
                closing[x] = 1; closer[x] = i;
                if(blocked[x] == 1) { blocked[x] = 3; push(x); }
                cur = pop();
            }
            rc = hclose(h);
            MC_CHECK(rc == 0, "hclose", "hclose");
            am(i, "after hclose");
            break; }
        case 5: mc_log("%d ends", i); return;
        }
        if(closing[i] && blocked[i] == 0) { /* cancelled: leave soon */ }
    }
    if(i == 0) return;
}
static void queue(void) {
    memset(ended, 0, sizeof(ended)); memset(blocked, 0, sizeof(blocked)); memset(closing, 0, sizeof(closing));
    for(int i = 0; i < NC; ++i) hnd[i] = -1;
    over = 0; nrq = 0; nc = 1; cur = 0; budget = mc_arg; parent_[0] = -1;
    if(chmake(ch[0]) < 0) mc_fail("setup", "chmake");
    now(); polls0 = vk_blocking_polls;
    run(0, 1);
    /* The budget is spent: the ones that still exist end when they get their
       turn; close them, the blocked ones included. Order is not modelled any
       more. */
    over = 1;
    for(int i = 1; i < nc; ++i) if(hnd[i] >= 0) { cur = i; closing[i] = 0; int h = hnd[i]; hnd[i] = -1; hclose(h); }
    for(int i = 0; i < nc; ++i) { hclose(ch[i][0]); hclose(ch[i][1]); }
}
/* After the budget is spent every coroutine just ends; am() must not complain
   then. */

/* ---- starvation ---- */
static int64_t turn_us; static volatile int stop, noticed; static int64_t noticed_at[4], turns[3];
static coroutine void busy(int i) { while(!stop) { vk_advance_us(turn_us); turns[i]++; if(turns[i] > 200000) mc_fail("starved", "a coroutine waiting for an event has starved"); if(yield() < 0) break; } }
static int fdp[4]; static int64_t due;
static coroutine void waiter(int kind, int i, int64_t due) {
    int rc = kind == 0 ? msleep(due) : kind == 1 ? fdin(fdp[i], -1) : kind == 2 ? fdout(fdp[i], due) : fdin(fdp[i], due);
    noticed++; noticed_at[i] = vk_us() / 1000;
    if(kind == 1) MC_CHECK(rc == 0, "result", "fdin: %s", strerror(errno));
}
static void setready(void *p) { vk_probe_set(fdp[(long)p], POLLIN); }
static coroutine void busych(int c, int first) {
    char x;
    while(!stop) {
        vk_advance_us(turn_us);
        if(++turns[0] > 200000) mc_fail("starved", "starved");
        if(first && chsend(c, "x", 1, -1) < 0) break;
        if(chrecv(c, &x, 1, -1) < 0) break;
        if(!first && chsend(c, "x", 1, -1) < 0) break;
    }
}
static coroutine void busyspawn_child(void) { vk_advance_us(turn_us); }
static coroutine void busyspawn(void) { while(!stop) { int h = go(busyspawn_child()); if(h < 0) break; hclose(h); if(++turns[1] > 200000) mc_fail("starved", "starved"); } }
static void starve(void) {
    static const int64_t t[] = {100, 1100, 30000, 400000, 1500000};
    stop = noticed = 0; memset(turns, 0, sizeof(turns));
    turn_us = t[mc_pick(5, "turn")];
    int style = mc_pick(3, "style"), kind = mc_pick(4, "waiting for"), dd = (int[]){1, 700, 1500, 5000}[mc_pick(4, "due")];
    int nb = 1 + mc_pick(2, "busy coroutines");
    int nw = mc_pick(2, "waiters") ? 4 : 1;     /* four: due together, and two of them 1 ms later */
    due = now() + dd;
    int64_t t0 = now();
    int w[4], b[2], c[2] = {-1, -1};
    for(int i = 0; i < nw; ++i) {
        fdp[i] = vk_probe(); w[i] = go(waiter(kind, i, due + i / 2));
        if(kind == 1) vk_at((due + i / 2) * 1000, setready, (void*)(long)i);
    }
    if(style == 0) for(int i = 0; i < nb; ++i) b[i] = go(busy(i));
    if(style == 1) { chmake(c); nb = 2; b[0] = go(busych(c[0], 1)); b[1] = go(busych(c[1], 0)); }
    if(style == 2) { nb = 1; b[0] = go(busyspawn()); }
    /* Main is itself busy yielding; every round of it, all others get a turn. */
    while(noticed < nw) { int64_t r0 = turns[0] + turns[1]; yield(); if(vk_us() / 1000 > due + 1000000) break; if(style == 2 && turns[1] > 100000) break; (void)r0; }
    int64_t slack = 1000 + 3 * (nb + 1) * (turn_us / 1000 + 1) + 10;
    MC_CHECK(noticed == nw, "starved", "%d of %d events were never noticed", nw - noticed, nw);
    for(int i = 0; i < nw; ++i) {
        MC_CHECK(noticed_at[i] >= due + i / 2 || kind == 1, "early", "noticed early");
        MC_CHECK(noticed_at[i] <= due + i / 2 + slack, "starved", "event %d of %d due at +%d ms was noticed at +%ld ms (turns of %ld us)", i, nw, dd + i / 2, (long)(noticed_at[i] - t0), (long)turn_us);
    }
    /* All busy coroutines got turns, evenly. */
    if(style == 0 && nb == 2) MC_CHECK(turns[0] - turns[1] <= 1 && turns[1] - turns[0] <= 1, "fair", "turns %ld and %ld", (long)turns[0], (long)turns[1]);
    stop = 1; mc_step(); mc_obs(noticed_at[nw - 1] - t0);
    /* Getting out of the busy styles. */
    if(c[0] >= 0) { chdone(c[0]); chdone(c[1]); }
    for(int i = 0; i < nb; ++i) hclose(b[i]);
    if(c[0] >= 0) { hclose(c[0]); hclose(c[1]); }
    for(int i = 0; i < nw; ++i) { hclose(w[i]); fdclean(fdp[i]); vk_close_raw(fdp[i]); }
}
/* ---- idling: the thread sleeps exactly until the next event ---- */
static int nwoken; static int64_t wk_at[4], wk_due[4]; static int wfd[4];
static void ready_i(void *p) { vk_probe_set(wfd[(long)p], POLLIN); }
static coroutine void idler(int i, int kind) {
    if(kind == 0) msleep(wk_due[i]); else if(kind == 1) fdin(wfd[i], -1); else { fdin(wfd[i], wk_due[i] + 50); }
    wk_at[i] = vk_us() / 1000; nwoken++;
}
static void idle(void) {
    nwoken = 0; int n = 3, kind[4], h[4];
    int64_t t0 = now();
    for(int i = 0; i < n; ++i) {
        kind[i] = mc_pick(3, "kind"); wk_due[i] = t0 + (int[]){0, 2, 7, 1200}[mc_pick(4, "due")]; wfd[i] = vk_probe();
        if(kind[i]) vk_at(wk_due[i] * 1000, ready_i, (void*)(long)i);
        h[i] = go(idler(i, kind[i]));
    }
    int polls = vk_polls;
    for(int i = 0; i < n; ++i) {
        int rc = bundle_wait(h[i], -1);
        MC_CHECK(rc == 0, "lost", "bundle_wait: %s", strerror(errno));
    }
    for(int i = 0; i < n; ++i) {
        MC_CHECK(wk_at[i] >= wk_due[i] && wk_at[i] <= wk_due[i] + 1, "late", "event %d (kind %d) due at +%ld was noticed at +%ld", i, kind[i], (long)(wk_due[i] - t0), (long)(wk_at[i] - t0));
        hclose(h[i]); fdclean(wfd[i]); vk_close_raw(wfd[i]);
    }
    /* No busy waiting. */
    MC_CHECK(vk_polls - polls <= 12, "busy-wait", "%d kernel polls for 3 events", vk_polls - polls);
    mc_step();
}
struct mc_scn mc_scns[] = {
    {"queue-10", "all programs of 10 steps (yield, go, wake, block, close, end) of up to 6 coroutines", queue, 0, -1, 10},
    {"queue-12", "all programs of 12 steps (yield, go, wake, block, close, end) of up to 6 coroutines", queue, -1, 0, 12},
    {"starve", "busy coroutines of 3 styles and 5 turn lengths against 1 or 4 events of 4 kinds at 4 times", starve, 0, 0},
    {"idle", "3 waiters of 3 kinds due at 4 times: woken exactly on time", idle, 0, 0},
    {0}
};
