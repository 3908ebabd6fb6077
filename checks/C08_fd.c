/* C08: fdin, fdout, fdclean. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include <poll.h>
#include <unistd.h>

const char *mc_property = "C08";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, up to 4 descriptors (60 in one scenario), up to 6 waiters",
    "system calls, clock and heap are those of the virtual kernel",
    "descriptors are removed with fdclean before they are closed, as documented", NULL};

#define MAXW 16
struct w { int fd, slot, dir, h, n2; int64_t dl; volatile int done; int rc, err; int64_t at; volatile int phase; int busy, cancelled, may; };
static struct w ws[MAXW]; static int nw;
static int fds[64], nfd;
static int lenient;     /* the kernel may report events late */

static int dirmask(int dir) { return (dir ? POLLOUT : POLLIN) | POLLERR | POLLHUP; }
static int ready(struct w *w) { return !!(vk_probe_get(w->fd) & dirmask(w->dir)); }
static coroutine void waiter(struct w *w) {
    errno = 0;
    w->rc = w->dir ? fdout(w->fd, w->dl) : fdin(w->fd, w->dl);
    w->err = errno; w->at = vk_us() / 1000;
    if(w->rc == 0 && w->n2) {
        /* Waits in the other direction next. */
        w->dir = !w->dir; w->phase = 1;
        errno = 0;
        w->rc = w->dir ? fdout(w->fd, -1) : fdin(w->fd, -1);
        w->err = errno; w->at = vk_us() / 1000;
    }
    w->done = 1;
}
static int has_waiter(int slot, int dir) {
    for(int i = 0; i < nw; ++i) if(ws[i].slot == slot && ws[i].h >= 0 && !ws[i].done && !ws[i].busy && (dir < 0 || ws[i].dir == dir)) return 1;
    return 0;
}
static void start(int slot, int dir, int64_t dl, int n2) {
    int busy = has_waiter(slot, dir);
    struct w *w = &ws[nw++]; memset(w, 0, sizeof(*w));
    w->slot = slot; w->fd = fds[slot]; w->dir = dir; w->dl = dl; w->n2 = n2;
    mc_log("start %s on %d, deadline %+ld%s", dir ? "fdout" : "fdin", w->fd, dl < 0 ? -1L : (long)(dl - now()), n2 ? ", then the other" : "");
    w->busy = busy;
    w->h = go(waiter(w));
    MC_CHECK(w->h >= 0, "go", "go: %s", strerror(errno));
    if(busy) MC_CHECK(w->done && w->rc == -1 && w->err == EBUSY, "busy", "second waiter: done %d, %d (%s)", w->done, w->rc, strerror(w->err));
    else MC_CHECK(!w->done || (dl == 0 && !ready(w)) || ready(w) || w->err != EBUSY, "early", "wait ended at once: %d %s", w->rc, strerror(w->err));
}
/* The thread goes idle until `t`, then everything due must have happened. */
static void settle(int ms) {
    int was[MAXW];
    for(int i = 0; i < nw; ++i) was[i] = !ws[i].done && ready(&ws[i]);
    int64_t t = now() + ms;
    msleep(t);
    yield();
    if(lenient) { for(int k = 0; k < 4; ++k) { msleep(now() + 1); yield(); } }
    int64_t idle = vk_us() / 1000;
    for(int i = 0; i < nw; ++i) {
        struct w *w = &ws[i];
        if(w->h < 0 || w->busy) continue;
        if(!w->done) {
            MC_CHECK(!ready(w), "lost-wakeup", "fd %d is %s (%x) but its waiter has not been woken", w->fd, w->dir ? "writable" : "readable", vk_probe_get(w->fd));
            MC_CHECK(w->dl < 0 || w->phase || w->dl > idle - 1, "lost-timeout", "deadline of a wait for fd %d passed %ld ms ago", w->fd, (long)(idle - w->dl));
        }
    }
}
static void audit(void) {
    for(int i = 0; i < nw; ++i) {
        struct w *w = &ws[i];
        if(w->h < 0 || w->busy || !w->done) continue;
        if(w->rc == 0) MC_CHECK(w->may, "spurious", "%s on fd %d succeeded although the fd was never %s", w->dir ? "fdout" : "fdin", w->fd, w->dir ? "writable" : "readable");
        else if(w->err == ETIMEDOUT) MC_CHECK(w->dl >= 0 && w->at >= w->dl, "early-timeout", "wait for fd %d timed out %ld ms early", w->fd, (long)(w->dl - w->at));
        else if(w->err == EBUSY && w->phase == 1) continue;
        else mc_fail("error", "wait for fd %d failed with %s", w->fd, strerror(w->err));
        mc_obs(mc_mix(i, w->rc == 0 ? 0 : w->err));
    }
}
/* Note for each wait whether its condition held at some point of it. */
static void note(void) { for(int i = 0; i < nw; ++i) if(!ws[i].done && ready(&ws[i])) ws[i].may = 1; for(int i = 0; i < nw; ++i) if(ws[i].n2 && (vk_probe_get(ws[i].fd) & dirmask(!ws[i].dir))) ws[i].may = 1; }
static void close_waiter(struct w *w) {
    int was = w->done, rdy = ready(w);
    int h = w->h; w->h = -1;
    int rc = hclose(h);
    MC_CHECK(rc == 0 && w->done, "cancel", "hclose: %d, done %d", rc, w->done);
    if(!was && !w->busy) MC_CHECK((w->rc == -1 && w->err == ECANCELED) || (w->rc == 0 && w->may) || (w->rc == -1 && w->err == ETIMEDOUT && w->dl >= 0 && w->dl <= w->at), "cancel", "cancelled wait: %d %s", w->rc, strerror(w->err));
}
static void recycle(int slot) {
    int b = has_waiter(slot, -1), fd = fds[slot];
    /* A waiter may have been woken but not yet resumed. */
    errno = 0;
    int rc = fdclean(fd);
    if(b) {
        if(rc == -1) { MC_CHECK(errno == EBUSY, "clean", "fdclean: %s", strerror(errno)); return; }
        for(int i = 0; i < nw; ++i) if(ws[i].slot == slot && !ws[i].done && ws[i].h >= 0) MC_CHECK(ws[i].may || ws[i].dl >= 0, "clean", "fdclean succeeded while a coroutine waits for the descriptor");
        settle(3);
        return;
    }
    MC_CHECK(rc == 0, "clean", "fdclean without waiters: %s", strerror(errno));
    vk_close_raw(fd);
    fds[slot] = vk_probe();
    mc_log("fd %d cleaned, closed and opened again as %d", fd, fds[slot]);
    MC_CHECK(fds[slot] == fd, "vk", "number not reused");
}
static void finish(void) {
    audit();
    for(int i = 0; i < nw; ++i) if(ws[i].h >= 0) close_waiter(&ws[i]);
    for(int i = 0; i < nfd; ++i) { MC_CHECK(fdclean(fds[i]) == 0, "clean", "fdclean at the end: %s", strerror(errno)); vk_close_raw(fds[i]); }
}
static void begin(int n) { nw = nfd = 0; lenient = 0; for(int i = 0; i < n; ++i) fds[nfd++] = vk_probe(); }

static void seq(void) {
    int depth = mc_arg & 15, n = mc_arg >> 4 & 15, mode = mc_arg >> 8;
    begin(n);
    if(mode == 1) { vk.ev_order = vk.ev_limit = vk.eintr = 1; lenient = 1; }
    static const int masks[] = {0, POLLIN, POLLOUT, POLLIN | POLLOUT, POLLHUP | POLLIN, POLLERR, POLLHUP};
    int nm = mode == 2 ? 7 : 4;
    for(int d = 0; d < depth; ++d) {
        int live[MAXW], nl = 0;
        for(int i = 0; i < nw; ++i) if(ws[i].h >= 0 && !ws[i].done) live[nl++] = i;
        /* 2 directions, deadline none / +2 ms / 0, one that waits twice */
        int per = 2 * 3 + 2, nst = per * n, nset = nm * n, nrec = n;
        int c = mc_pick(nst + nset + nrec + 1 + nl, "op");
        if(c < nst) {
            int slot = c / per, k = c % per;
            if(k < 6) start(slot, k & 1, (int64_t[]){-1, now() + 2, 0}[k / 2], 0); else start(slot, k & 1, -1, 1);
        }
        else if((c -= nst) < nset) { mc_log("fd %d: state %x", fds[c / nm], masks[c % nm]); vk_probe_set(fds[c / nm], masks[c % nm]); }
        else if((c -= nset) < nrec) { note(); recycle(c); }
        else if((c -= nrec) == 0) { mc_log("idle 1 ms"); note(); settle(1); audit(); }
        else { mc_log("cancel waiter %d", live[c - 1]); note(); close_waiter(&ws[live[c - 1]]); }
        note();
        mc_step();
        uint64_t h = 0;
        for(int i = 0; i < nw; ++i) if(ws[i].h >= 0 && !ws[i].done) h += mc_mix(ws[i].slot * 2 + ws[i].dir, ws[i].dl);
        for(int i = 0; i < n; ++i) h = mc_mix(h, vk_probe_get(fds[i]));
        mc_state(h);
    }
    note(); settle(1); audit();
    note(); settle(3); audit();
    finish();
}
static void args(void) {
    begin(1);
    static const int bad[] = {-1, -2, 63, 62, 64, 65, 1000, 1 << 30, INT32_MAX, INT32_MIN};
    int fd = bad[mc_pick(10, "fd")];
    int64_t dl = mc_pick(2, "deadline") ? 0 : -1;
    errno = 0; MC_CHECK(fdin(fd, dl) == -1 && errno == EBADF, "badf", "fdin(%d): %s", fd, strerror(errno));
    errno = 0; MC_CHECK(fdout(fd, dl) == -1 && errno == EBADF, "badf", "fdout(%d): %s", fd, strerror(errno));
    fdclean(fd);
    errno = 0; MC_CHECK(fdin(fd, dl) == -1 && errno == EBADF, "badf", "fdin(%d) after fdclean: %s", fd, strerror(errno));
    /* never waited for */
    MC_CHECK(fdclean(fds[0]) == 0, "clean", "fdclean of an unused descriptor: %s", strerror(errno));
    MC_CHECK(fdclean(fds[0]) == 0, "clean", "second fdclean: %s", strerror(errno));
    /* a closed one */
    int f = vk_probe(); vk_probe_set(f, POLLIN | POLLOUT);
    int rc = mc_pick(2, "dir") ? fdin(f, -1) : fdout(f, -1);
    MC_CHECK(rc == 0, "ready", "ready: %s", strerror(errno));
    fdclean(f); vk_close_raw(f);
    errno = 0; MC_CHECK(fdin(f, dl) == -1 && errno == EBADF, "badf", "fdin of a closed fd: %s", strerror(errno));
    errno = 0; MC_CHECK(fdout(f, dl) == -1 && errno == EBADF, "badf", "fdout of a closed fd: %s", strerror(errno));
    fdclean(f);
    mc_step(); finish();
}
static void regular(void) {
    begin(1);
    int f = vk_unpollable(), dir = mc_pick(2, "dir");
    int64_t dl = mc_pick(2, "deadline") ? 0 : -1;
    errno = 0;
    int rc = dir ? fdout(f, dl) : fdin(f, dl);
#if defined VARIANT_POLL
    MC_CHECK(rc == 0, "regular", "a regular file is always ready: %s", strerror(errno));
#else
    MC_CHECK(rc == -1 && errno == ENOTSUP, "regular", "a regular file cannot be polled: %d %s", rc, strerror(errno));
#endif
    fdclean(f);
    vk_close_raw(f);
    mc_step(); finish();
}
/* Deadline 0: readiness wins, otherwise at once. Also a deadline that has
   passed already, and other coroutines ready meanwhile. */
static int ycount;
static coroutine void yielder(void) { for(int i = 0; i < 3; ++i) { ycount++; if(yield() < 0) return; } }
static void zero(void) {
    begin(1); ycount = 0;
    int dir = mc_pick(2, "dir"), rd = mc_pick(2, "ready"), used = mc_pick(4, "used before"), y = mc_pick(2, "others ready");
    int64_t dl = (int64_t[]){0, 1, now() - 5, now()}[mc_pick(4, "deadline")];
    if(used) {
        /* The descriptor is known to the library from an earlier wait. */
        vk_probe_set(fds[0], POLLIN | POLLOUT);
        int rc = used & 1 ? fdin(fds[0], -1) : fdout(fds[0], -1);
        MC_CHECK(rc == 0, "ready", "wait for a ready descriptor: %s", strerror(errno));
        if(used == 3) { msleep(now() + 1); }
        vk_probe_set(fds[0], 0);
        if(used == 2) msleep(now() + 1);
    }
    if(dl > 1) dl += vk_us() / 1000 - now();
    int h = y ? go(yielder()) : -1;
    if(rd) vk_probe_set(fds[0], dir ? POLLOUT : POLLIN);
    int64_t t0 = vk_us();
    errno = 0;
    int rc = dir ? fdout(fds[0], dl) : fdin(fds[0], dl);
    if(rd) MC_CHECK(rc == 0, "ready", "descriptor was ready, deadline %ld: %d %s", (long)dl, rc, strerror(errno));
    else MC_CHECK(rc == -1 && errno == ETIMEDOUT, "zero", "not ready: %d %s", rc, strerror(errno));
    MC_CHECK(vk_us() - t0 <= 1000, "waited", "waited %ld us", (long)(vk_us() - t0));
    if(h >= 0) hclose(h);
    mc_step(); finish();
}
/* Both directions of several descriptors become ready at the same time; each
   waiter, when woken, does one more thing. */
static struct { int kind, other; } act[4];
static coroutine void reactor(int i) {
    int fd = fds[i / 2], dir = i & 1;
    int rc = dir ? fdout(fd, -1) : fdin(fd, -1);
    if(rc < 0) { ws[i].rc = rc; ws[i].err = errno; ws[i].done = 1; return; }
    ws[i].at = 1;
    switch(act[i].kind) {
    case 1: vk_probe_set(fd, 0); break;
    case 2: { int h = ws[act[i].other].h; if(act[i].other != i && h >= 0 && !ws[i].cancelled) { ws[act[i].other].h = -1; ws[act[i].other].cancelled = 1; hclose(h); } break; }
    case 3: rc = dir ? fdout(fd, now() + 3) : fdin(fd, now() + 3); break;
    case 4: rc = dir ? fdin(fd, now() + 3) : fdout(fd, now() + 3); if(rc < 0) MC_CHECK(errno == ETIMEDOUT || errno == EBUSY || errno == ECANCELED, "reactor", "%s", strerror(errno)); break;
    }
    ws[i].rc = rc; ws[i].err = errno; ws[i].done = 1;
}
static void together(void) {
    begin(2); nw = 4; memset(ws, 0, sizeof(ws));
    vk.ev_order = vk.ev_limit = 1;
    int one = mc_pick(4, "who reacts"); int kind = mc_pick(5, "reaction"), other = mc_pick(4, "other");
    int one2 = mc_pick(4, "who else reacts"), kind2 = mc_pick(5, "reaction");
    memset(act, 0, sizeof(act));
    act[one].kind = kind; act[one].other = other; act[one2].kind = kind2; act[one2].other = one;
    int present = mc_pick(16, "waiters");
    for(int i = 0; i < 4; ++i) { ws[i].slot = i / 2; ws[i].fd = fds[i / 2]; ws[i].dir = i & 1; ws[i].dl = -1; ws[i].h = -1; if(present >> i & 1) ws[i].h = go(reactor(i)); }
    int pre = mc_pick(2, "polled before");
    if(pre) msleep(now() + 1);
    static const int bits[] = {POLLIN | POLLOUT, POLLERR, POLLHUP};
    int bit = bits[mc_pick(3, "event")];
    vk_probe_set(fds[0], bit); vk_probe_set(fds[1], bit);
    for(int i = 0; i < 8; ++i) { msleep(now() + 1); yield(); }
    for(int i = 0; i < 4; ++i) if((present >> i & 1) && !ws[i].cancelled) {
        int cleared = (act[i ^ 1].kind == 1) || act[i].kind == 1;
        if(!cleared) MC_CHECK(ws[i].done && ws[i].at, "lost-wakeup", "waiter %d was not woken", i);
        if(ws[i].done && act[i].kind == 0) MC_CHECK(ws[i].rc == 0, "result", "waiter %d: %s", i, strerror(ws[i].err));
    }
    mc_step();
    mc_obs(ws[0].done + 2 * ws[1].done + 4 * ws[2].done + 8 * ws[3].done);
    for(int i = 0; i < 4; ++i) if(ws[i].h >= 0) { int h = ws[i].h; ws[i].h = -1; hclose(h); }
    nw = 0;
    finish();
}
/* Four descriptors with changes the kernel has not been told of yet; some of
   them are cleaned and used again. */
static void several(void) {
    begin(4); int st[4], old = 0;
    for(int i = 0; i < 4; ++i) {
        st[i] = mc_pick(5, "state");   /* 0 new, 1 waiting, 2 cancelled later, 3 waiting since now, 4 cancelled at once */
        if(st[i] == 1 || st[i] == 2) { start(i, i & 1, -1, 0); old = 1; }
    }
    if(old) { note(); settle(2); }
    for(int i = 0; i < 4; ++i) {
        if(st[i] == 2) { for(int j = 0; j < nw; ++j) if(ws[j].slot == i) close_waiter(&ws[j]); }
        else if(st[i] > 2) { start(i, i & 1, -1, 0); if(st[i] == 4) close_waiter(&ws[nw - 1]); }
    }
    for(int k = 0; k < 2; ++k) {
        int a = mc_pick(5, "cleaned"); if(a == 4) break;
        int b = has_waiter(a, -1); recycle(a);
        if(!b) start(a, (a ^ k) & 1, -1, 0);
    }
    int f = mc_pick(6, "event on");
    for(int i = 0; i < 4; ++i) if(f == i || f == 4 || (f == 5 && i < 2)) vk_probe_set(fds[i], POLLIN | POLLOUT);
    note(); settle(1);
    for(int i = 0; i < 4; ++i) vk_probe_set(fds[i], POLLIN | POLLOUT);
    note(); settle(1);
    mc_step(); mc_state(mc_mix(mc_mix(st[0], st[1]), mc_mix(st[2], st[3])));
    finish();
}
/* More descriptors than one poll may report. */
static void many(void) {
    int n = 58; begin(n);
    vk.ev_order = 0;
    int how = mc_pick(3, "how");
    static struct w big[58];
    memset(big, 0, sizeof(big));
    for(int i = 0; i < n; ++i) { big[i].fd = fds[i]; big[i].dl = -1; big[i].dir = i & 1; big[i].h = go(waiter(&big[i])); }
    if(how == 1) msleep(now() + 1);
    for(int i = 0; i < n; ++i) if(how != 2 || i % 3) vk_probe_set(fds[i], POLLIN | POLLOUT);
    msleep(now() + 1); yield();
    for(int i = 0; i < n; ++i) MC_CHECK(big[i].done == (how != 2 || i % 3 != 0) && (!big[i].done || big[i].rc == 0), "lost-wakeup", "descriptor %d: done %d", i, big[i].done);
    for(int i = 0; i < n; ++i) hclose(big[i].h);
    mc_step();
    finish();
}
struct mc_scn mc_scns[] = {
    {"args", "10 invalid descriptors, unused, closed ones", args, 0, 0},
    {"regular", "descriptors that cannot be polled", regular, 0, 0},
    {"zero", "deadline 0 or past, ready or not, new or known descriptor, others ready or not", zero, 0, 0},
    {"seq1-4", "one descriptor: sequences of 4", seq, -1, -1, 4 | 1 << 4},
    {"seq1-5", "one descriptor: sequences of 5 of waiting (2 directions, 3 deadlines, or both), state changes, idling, cancelling, recycling", seq, 0, -1, 5 | 1 << 4},
    {"seq1-6", "one descriptor: sequences of 6", seq, -1, 0, 6 | 1 << 4},
    {"seq1e-4", "one descriptor: sequences of 4, with errors and hang-ups", seq, 0, -1, 4 | 1 << 4 | 2 << 8},
    {"seq1e-5", "one descriptor: sequences of 5, with errors and hang-ups", seq, -1, 0, 5 | 1 << 4 | 2 << 8},
    {"seq2-3", "two descriptors: sequences of 3", seq, 0, -1, 3 | 2 << 4},
    {"seq2-4", "two descriptors: sequences of 4", seq, -1, 0, 4 | 2 << 4},
    {"seq2h-3", "two descriptors: sequences of 3, any order and number of events, EINTR", seq, 1, 2, 3 | 2 << 4 | 1 << 8},
    {"seq1h-4", "one descriptor: sequences of 4, any order and number of events, EINTR", seq, 1, 2, 4 | 1 << 4 | 1 << 8},
    {"together", "4 waiters on 2 descriptors fire together, two of them react by changing state, cancelling, or waiting again", together, 0, 2},
    {"several", "four descriptors, each in one of 5 states, changes pending, two of them cleaned and used again", several, 0, 0},
    {"many", "58 descriptors ready at once", many, 0, 0},
    {0}
};
