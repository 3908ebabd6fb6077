/* C03: deadlines and timers. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include <poll.h>
#include <unistd.h>

const char *mc_property = "C03";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, up to 7 pending timers, virtual clock of 1 ms (or 4 ms) granularity",
    "system calls, clock and heap are those of the virtual kernel", NULL};

#define MAXT 12
enum {MSLEEP, CHRECV_, FDIN, FDOUT, CHOOSE_, BWAIT, CHSEND_, NKINDS};
struct t {
    int kind, h, alive, fd; int ch[2]; int b, inner;
    int64_t dl; int cancelled, woken;
    volatile int done; int rc, err; int64_t at; int order;
};
static struct t ts[MAXT]; static int nt, order, slack;

static coroutine void forever(void) { msleep(-1); }
static coroutine void sleeper(struct t *s) {
    uint8_t x = 0;
    switch(s->kind) {
    case MSLEEP: errno = 0; s->rc = msleep(s->dl); break;
    case CHRECV_: s->rc = chrecv(s->ch[0], &x, 1, s->dl); break;
    case CHSEND_: s->rc = chsend(s->ch[0], &x, 1, s->dl); break;
    case FDIN: s->rc = fdin(s->fd, s->dl); break;
    case FDOUT: s->rc = fdout(s->fd, s->dl); break;
    case CHOOSE_: {
        struct chclause c[2] = {{CHRECV, s->ch[0], &x, 1}, {CHSEND, s->ch[0], &x, 1}};
        s->rc = choose(c, 2, s->dl); break; }
    case BWAIT: s->rc = bundle_wait(s->b, s->dl); break;
    }
    s->err = errno; s->at = vk_us() / 1000; s->order = order++;
    s->done = 1;
}
static void mk(struct t *s, int kind, int64_t dl) {
    memset(s, 0, sizeof(*s));
    s->kind = kind; s->dl = dl; s->fd = -1; s->b = -1; s->ch[0] = -1; s->alive = 1;
    if(kind == CHRECV_ || kind == CHOOSE_ || kind == CHSEND_) MC_CHECK(chmake(s->ch) == 0, "chmake", "chmake");
    if(kind == FDIN || kind == FDOUT) s->fd = vk_probe();
    if(kind == BWAIT) { s->b = bundle(); MC_CHECK(bundle_go(s->b, forever()) == 0, "go", "bundle_go"); }
}
static int start(int kind, int64_t dl) {
    struct t *s = &ts[nt++];
    mk(s, kind, dl);
    mc_log("start %d: kind %d deadline %+ld", nt - 1, kind, (long)(dl - now()));
    s->h = go(sleeper(s));
    MC_CHECK(s->h >= 0, "go", "go failed");
    mc_step();
    return nt - 1;
}
static void unmk(struct t *s) {
    if(s->h >= 0) { int rc = hclose(s->h); MC_CHECK(rc == 0, "hclose", "hclose"); s->h = -1; }
    if(s->ch[0] >= 0) { hclose(s->ch[0]); hclose(s->ch[1]); }
    if(s->fd >= 0) { fdclean(s->fd); vk_close_raw(s->fd); }
    if(s->b >= 0) hclose(s->b);
}
static void wake(struct t *s) {
    uint8_t x = 0; int rc = 0;
    switch(s->kind) {
    case CHRECV_: case CHOOSE_: rc = chsend(s->ch[1], &x, 1, 0); break;
    case CHSEND_: rc = chrecv(s->ch[1], &x, 1, 0); break;
    case FDIN: vk_probe_set(s->fd, POLLIN); msleep(0); break;
    case FDOUT: vk_probe_set(s->fd, POLLOUT); msleep(0); break;
    default: mc_broken("wake");
    }
    MC_CHECK(rc == 0, "wake", "peer could not wake a waiting coroutine: %s", strerror(errno));
    s->woken = 1;
}
/* Everything the library owes us now that the thread has been idle at `idle`. */
static void audit(const char *when, int64_t idle) {
    for(int i = 0; i < nt; ++i) {
        struct t *s = &ts[i];
        if(!s->alive) continue;
        int timed = s->dl >= 0 && s->dl <= idle;
        if(s->woken || s->cancelled || timed)
            MC_CHECK(s->done, "lost-timer", "%s: timer %d (kind %d, deadline %+ld ms ago) has not fired", when, i, s->kind, (long)(idle - s->dl));
        else {
            MC_CHECK(!s->done, "early", "%s: wait %d (kind %d) ended %ld ms before its deadline with %d (%s)", when, i, s->kind, (long)(s->dl - s->at), s->rc, strerror(s->err));
            continue;
        }
        int want_rc = s->cancelled ? -1 : s->woken ? 0 : s->kind == MSLEEP ? 0 : -1;
        int want_err = s->cancelled ? ECANCELED : ETIMEDOUT;
        MC_CHECK(s->rc == want_rc && (s->rc == 0 || s->err == want_err), "result", "%s: wait %d (kind %d): %d (%s), expected %d (%s)", when, i, s->kind, s->rc, strerror(s->err), want_rc, strerror(want_err));
        mc_obs(s->rc * 1000 + s->order);
    }
    /* Order of expiry. */
    for(int i = 0; i < nt; ++i) for(int j = 0; j < nt; ++j) {
        struct t *a = &ts[i], *b = &ts[j];
        if(!a->alive || !b->alive || !a->done || !b->done || a->woken || b->woken || a->cancelled || b->cancelled) continue;
        if(a->dl < b->dl && a->order > b->order && a->dl > VK_T0 / 1000 + 1 && b->at >= a->dl)
            /* only if both were pending together, which the callers ensure by
               recording started-late timers as not alive for this purpose */
            mc_fail("order", "%s: deadline %ld fired after deadline %ld", when, (long)a->dl, (long)b->dl);
    }
    for(int i = 0; i < nt; ++i) if(ts[i].done && ts[i].alive) ts[i].alive = 2;
}
static void finish(void) { for(int i = 0; i < nt; ++i) unmk(&ts[i]); }
static void begin(void) { nt = 0; order = 0; slack = 0; }

/* All insertion orders of n deadlines, any subset cancelled or woken, expiry
   in order. */
static void tree(void) {
    begin();
    int n = mc_arg & 15, used = 0; int kind = mc_arg >> 4 & 15;
    int64_t t0 = now();
    for(int i = 0; i < n; ++i) {
        int k = mc_pick(n - i, "perm"), v;
        for(v = 0; ; ++v) if(!(used >> v & 1) && k-- == 0) break;
        used |= 1 << v;
        start(kind ? CHRECV_ : MSLEEP, t0 + 5 + v * 3);
    }
    int mid = mc_arg >> 8 ? mc_pick(n, "expired first") : 0;
    if(mid) { msleep(t0 + 5 + (mid - 1) * 3 + 1); audit("first part", now()); }
    for(int i = 0; i < n; ++i) if(!ts[i].done && mc_pick(2, "cancel")) {
        if(kind) { wake(&ts[i]); yield(); }
        else { ts[i].cancelled = 1; hclose(ts[i].h); ts[i].h = -1; }
        mc_step();
    }
    uint64_t h = 0; for(int i = 0; i < n; ++i) h = mc_mix(h, ts[i].dl - t0 + 100 * ts[i].done);
    mc_state(h);
    audit("before", now());
    for(int v = mid; v < n; ++v) {
        msleep(t0 + 5 + v * 3 + 1);
        audit("after a deadline", now());
    }
    for(int i = 0; i < n; ++i) if(!ts[i].woken && !ts[i].cancelled)
        MC_CHECK(ts[i].at - ts[i].dl <= 1, "late", "timer %d fired %ld ms late", i, (long)(ts[i].at - ts[i].dl));
    finish();
}
/* All sequences of starting, cancelling, waking, idling, computing. */
static void seq(void) {
    begin();
    int depth = mc_arg & 15, kinds = mc_arg >> 4 & 15;
    static const int kk[] = {MSLEEP, CHRECV_, FDIN, CHOOSE_, BWAIT, FDOUT, CHSEND_};
    for(int d = 0; d < depth; ++d) {
        int live[MAXT], nl = 0, wk[MAXT], nw = 0;
        for(int i = 0; i < nt; ++i) if(ts[i].alive == 1) {
            live[nl++] = i;
            if(ts[i].kind != MSLEEP && ts[i].kind != BWAIT && !ts[i].done && !ts[i].woken) wk[nw++] = i;
        }
        int nstart = 3 * kinds;
        int c = mc_pick(nstart + 2 + nl + nw, "op");
        if(c < nstart) { start(kk[c % kinds], now() + 1 + c / kinds); }
        else if((c -= nstart) == 0) { mc_log("idle 1 ms"); msleep(now() + 1); yield(); audit("after idling", now()); }
        else if(c == 1) { mc_log("compute 2 ms"); vk_advance_us(2000); now(); }
        else if((c -= 2) < nl) {
            struct t *s = &ts[live[c]];
            mc_log("cancel %d", live[c]);
            /* Time may have passed without the thread being idle: whether
               the deadline wins is not determined then. */
            int either = s->dl <= vk_us() / 1000;
            hclose(s->h); s->h = -1;
            MC_CHECK(s->done, "cancel", "hclose returned before the coroutine ended");
            if(!s->woken && !(either && (s->kind == MSLEEP ? s->rc == 0 : s->err == ETIMEDOUT))) s->cancelled = 1;
        } else {
            c -= nl;
            struct t *s = &ts[wk[c]];
            mc_log("wake %d", wk[c]);
            /* A deadline that has passed may have been noticed already. */
            if(s->dl <= vk_us() / 1000) { yield(); if(s->done) continue; }
            int either = s->dl <= vk_us() / 1000;
            wake(s);
            if(s->kind == FDIN || s->kind == FDOUT) {
                yield();
                if(either && s->rc < 0) s->woken = 0;
            }
        }
        mc_step();
        uint64_t h = 0;
        for(int i = 0; i < nt; ++i) if(ts[i].alive == 1) h += mc_mix(ts[i].kind, ts[i].dl - now() + 16 * ts[i].woken);
        mc_state(h);
    }
    yield();
    msleep(now() + 1); yield(); audit("end", now());
    msleep(now() + 10); yield(); audit("end+10", now());
    finish();
}
/* Deadlines of all magnitudes. */
static const int64_t far[] = {0, 1, 999, 1000, 1001, 0x7fff, 0x7ffffffeLL, 0x7fffffffLL, 0x80000000LL,
    0x80000001LL, 0xfffffffeLL, 0xffffffffLL, 0x100000000LL, 0x100000005LL, 0x17fffffffLL, 0x1ffffffffLL, 0x800000000LL};
static void magnitude(void) {
    begin();
    int kind = mc_pick(NKINDS, "kind");
    int64_t off = far[mc_pick(sizeof(far) / sizeof(far[0]), "offset")];
    int other = mc_pick(3, "second timer");
    int64_t t0 = now(), dl = t0 + off;
    start(kind, dl);
    if(other) start(MSLEEP, other == 1 ? t0 + 3 : dl + 3);
    mc_step();
    /* Main waits without a deadline of its own for the coroutine to end. */
    int rc = bundle_wait(ts[0].h, -1);
    MC_CHECK(rc == 0, "wait", "bundle_wait failed: %s", strerror(errno));
    MC_CHECK(ts[0].done, "wait", "bundle_wait returned early");
    int64_t at = ts[0].at;
    MC_CHECK(at >= dl, "early", "kind %d: deadline in %ld ms expired %ld ms early", kind, (long)off, (long)(dl - at));
    MC_CHECK(at <= dl + 1, "late", "kind %d: deadline in %ld ms expired %ld ms late", kind, (long)off, (long)(at - dl));
    MC_CHECK(kind == MSLEEP ? ts[0].rc == 0 : (ts[0].rc == -1 && ts[0].err == ETIMEDOUT), "result", "kind %d: %d %s", kind, ts[0].rc, strerror(ts[0].err));
    if(other == 1 && off > 3) MC_CHECK(ts[1].done && ts[1].at >= t0 + 3 && ts[1].at <= t0 + 4, "second", "second timer fired at %+ld", (long)(ts[1].at - t0));
    mc_obs(at - dl);
    finish();
}
/* Several deadlines of very different distances pending together. */
static void spread(void) {
    static const int64_t off[] = {5, 70000, 0x7ffffff0LL, 0x80000010LL, 0xfffffff0LL, 0x100000010LL, 0x17ffffff0LL, 0x180000020LL, 0x200000030LL, 0x800000000LL};
    begin();
    int n = mc_arg; uint32_t used = 0;
    int64_t t0 = now(), max = 0;
    int ids[8];
    for(int i = 0; i < n; ++i) {
        int k = mc_pick(10 - i, "offset"), v;
        for(v = 0; ; ++v) if(!(used >> v & 1) && k-- == 0) break;
        used |= 1 << v;
        start(MSLEEP, t0 + off[v]);
        if(off[v] > max) max = off[v];
    }
    int c = mc_pick(n + 1, "cancel");
    if(c) { ts[c - 1].cancelled = 1; hclose(ts[c - 1].h); ts[c - 1].h = -1; }
    for(int i = 0; i < n; ++i) if(ts[i].h >= 0) { int rc = bundle_wait(ts[i].h, -1); MC_CHECK(rc == 0, "wait", "bundle_wait: %s", strerror(errno)); }
    for(int i = 0; i < n; ++i) if(!ts[i].cancelled) {
        MC_CHECK(ts[i].at >= ts[i].dl && ts[i].at <= ts[i].dl + 1, "spread", "deadline in %ld ms was noticed after %ld ms", (long)(ts[i].dl - t0), (long)(ts[i].at - t0));
        for(int j = 0; j < n; ++j) if(!ts[j].cancelled && ts[j].dl < ts[i].dl) MC_CHECK(ts[j].order < ts[i].order, "order", "timers fired out of order");
    }
    mc_step();
    mc_state(mc_mix(used, c));
    finish();
}
/* A deadline that cannot be reached does not prevent being woken. */
static void unreachable(void) {
    static const int64_t d[] = {INT64_MAX, INT64_MAX - 1, INT64_MAX / 2, -1, -2, INT64_MIN, 0x100000000LL * 1000000};
    begin();
    int kinds[] = {CHRECV_, FDIN, FDOUT, CHOOSE_, CHSEND_};
    int kind = kinds[mc_pick(5, "kind")];
    int64_t dl = d[mc_pick(7, "deadline")];
    start(kind, dl);
    int64_t t = now() + 5;
    msleep(t);
    MC_CHECK(!ts[0].done, "early", "deadline %ld expired at once: %d %s", (long)dl, ts[0].rc, strerror(ts[0].err));
    wake(&ts[0]);
    int rc = bundle_wait(ts[0].h, now() + 5);
    MC_CHECK(rc == 0 && ts[0].done && ts[0].rc == 0, "lost-wakeup", "deadline %ld: not woken by the event", (long)dl);
    MC_CHECK(vk_us() / 1000 <= t + 1, "late", "woken late");
    mc_step();
    finish();
}
/* Deadline 0 and deadlines in the past never wait. */
static void nowait(void) {
    begin();
    int kind = mc_pick(NKINDS, "kind");
    int64_t past[] = {0, 1, now() - 1000, now() - 1, now()};
    int p = mc_pick(5, "deadline");
    int ready = kind != MSLEEP && kind != BWAIT && kind != CHOOSE_ ? mc_pick(2, "ready") : 0;
    struct t *s = &ts[nt++];
    mk(s, kind, past[p]);
    s->h = -1;
    int h2 = -1; struct t peer;
    if(ready) {
        if(kind == FDIN) vk_probe_set(s->fd, POLLIN);
        if(kind == FDOUT) vk_probe_set(s->fd, POLLOUT);
        if(kind == CHRECV_ || kind == CHSEND_) {
            memset(&peer, 0, sizeof(peer)); peer.kind = kind == CHRECV_ ? CHSEND_ : CHRECV_;
            peer.ch[0] = s->ch[1]; peer.dl = -1; h2 = go(sleeper(&peer));
        }
    }
    int64_t t0 = vk_us();
    sleeper(s);
    MC_CHECK(vk_us() == t0, "waited", "kind %d waited %ld us with deadline %ld", kind, (long)(vk_us() - t0), (long)past[p]);
    if(ready) MC_CHECK(s->rc == 0, "ready", "kind %d was ready but failed with %s (deadline %ld)", kind, strerror(s->err), (long)past[p]);
    else if(kind == MSLEEP) MC_CHECK(s->rc == 0, "result", "msleep: %d", s->rc);
    else MC_CHECK(s->rc == -1 && s->err == ETIMEDOUT, "result", "kind %d: %d %s", kind, s->rc, strerror(s->err));
    mc_step();
    if(h2 >= 0) hclose(h2);
    finish();
}
/* A stale timer must not disturb the next wait: two consecutive waits of one
   coroutine, the first ended by each possible cause. */
static int64_t d1, d2; static int k1, k2, r1, r2, e1, e2; static int64_t a1, a2;
static struct t w1, w2;
static coroutine void twice(void) {
    w1.dl = d1; sleeper(&w1); w2.dl = d2; sleeper(&w2);
}
static void stale(void) {
    begin();
    k1 = mc_pick(NKINDS, "first"); k2 = mc_pick(NKINDS, "second");
    int64_t t0 = now();
    d1 = t0 + 2 + mc_pick(3, "d1"); d2 = t0 + mc_pick(8, "d2");
    mk(&w1, k1, d1); mk(&w2, k2, d2); w1.h = w2.h = -1;
    int canwake = k1 != MSLEEP && k1 != BWAIT;
    int wk = canwake ? mc_pick(5, "woken at") : 0;
    int h = go(twice());
    if(wk) {
        msleep(t0 + wk);
        if(!w1.done && wk < d1 - t0) { wake(&w1); yield(); MC_CHECK(w1.done && w1.rc == 0, "lost-wakeup", "first wait not woken"); }
    }
    int rc = bundle_wait(h, t0 + 30);
    MC_CHECK(rc == 0, "lost-timer", "second wait (kind %d) did not end", k2);
    int64_t start2 = w1.at, exp2 = d2 > start2 ? d2 : start2;
    MC_CHECK(w1.at <= d1 + 1 && (w1.woken || w1.at >= d1), "first", "first wait ended at %+ld instead of %+ld", (long)(w1.at - t0), (long)(d1 - t0));
    MC_CHECK(w2.at >= exp2 && w2.at <= exp2 + 1, "second", "second wait (kind %d after %d) ended at %+ld instead of %+ld", k2, k1, (long)(w2.at - t0), (long)(exp2 - t0));
    MC_CHECK(k2 == MSLEEP ? w2.rc == 0 : w2.rc == -1 && w2.err == ETIMEDOUT, "second-result", "second wait: %d %s", w2.rc, strerror(w2.err));
    mc_step(); mc_obs(w2.at - t0);
    hclose(h); unmk(&w1); unmk(&w2);
}
/* Kernel answers: late wakeups, EINTR, coarse clock. */
static void hostile(void) {
    begin();
    vk.late = 1; vk.eintr = 1; vk.coarse = mc_pick(2, "coarse") ? 4 : 1;
    int64_t t0 = now();
    int n = 3;
    for(int i = 0; i < n; ++i) start(mc_pick(2, "kind") ? CHRECV_ : MSLEEP, t0 + 1 + mc_pick(3, "deadline") * 2);
    if(mc_pick(2, "compute")) vk_advance_us(3000);
    msleep(t0 + 20);
    for(int i = 0; i < n; ++i) {
        MC_CHECK(ts[i].done, "lost-timer", "timer %d has not fired 15 ms after its deadline", i);
        MC_CHECK(ts[i].at >= ts[i].dl, "early", "timer %d fired early", i);
        for(int j = 0; j < n; ++j) MC_CHECK(!(ts[i].dl < ts[j].dl && ts[i].order > ts[j].order), "order", "timers fired out of order");
    }
    mc_step();
    finish();
}
struct mc_scn mc_scns[] = {
    {"tree-5", "5 sleepers in all insertion orders, any expired prefix, any subset cancelled", tree, 0, -1, 5 | 1 << 8},
    {"tree-6", "6 sleepers in all insertion orders, any subset cancelled", tree, 0, -1, 6},
    {"tree-7", "7 sleepers in all insertion orders, any subset cancelled", tree, -1, 0, 7},
    {"tree-6x", "6 sleepers in all insertion orders, any expired prefix, any subset cancelled", tree, -1, 0, 6 | 1 << 8},
    {"tree-ch-5", "5 receivers in all insertion orders, any expired prefix, any subset woken", tree, 0, -1, 5 | 1 << 4 | 1 << 8},
    {"tree-ch-6", "6 receivers in all insertion orders, any expired prefix, any subset woken", tree, -1, 0, 6 | 1 << 4 | 1 << 8},
    {"seq-5", "sequences of 5: start (2 kinds, 3 deadlines), cancel, wake, idle, compute", seq, 0, -1, 5 | 2 << 4},
    {"seq-6", "sequences of 6: start (2 kinds, 3 deadlines), cancel, wake, idle, compute", seq, -1, 0, 6 | 2 << 4},
    {"seq7-3", "sequences of 3 over 7 kinds of waits", seq, 0, -1, 3 | 7 << 4},
    {"seq7-4", "sequences of 4 over 7 kinds of waits", seq, -1, 0, 4 | 7 << 4},
    {"magnitude", "7 kinds of waits, 17 distances of deadline, alone or with a second timer", magnitude, 0, 0},
    {"spread-4", "4 of 10 deadlines from 5 ms to 1 year ahead in every order, any one cancelled", spread, 0, -1, 4},
    {"spread-5", "5 of 10 deadlines from 5 ms to 1 year ahead in every order, any one cancelled", spread, -1, 0, 5},
    {"unreachable", "5 kinds of waits with infinite or unreachable deadlines, woken by the event", unreachable, 0, 0},
    {"nowait", "7 kinds of calls with deadline 0 or past, ready or not", nowait, 0, 0},
    {"stale", "two consecutive waits of 7x7 kinds, first ended by event or deadline", stale, 0, 0},
    {"hostile", "3 timers, late wakeups, EINTR, coarse clock", hostile, 2, 3},
    {0}
};
