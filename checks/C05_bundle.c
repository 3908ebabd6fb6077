/* C05: bundles. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"

const char *mc_property = "C05";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, one bundle of up to 6 members, two waiters",
    "system calls, clock and heap are those of the virtual kernel", NULL};

#define MAXM 10
enum {QUICK, CMD, SLEEP1, SLEEP2, YIELDER, SPAWNER, STUBBORN, NKIND};
struct m { int kind; volatile int started, ended; int rc, err; int64_t at; int ch[2]; };
static struct m ms_[MAXM]; static int emptied; static int nm, b, alive, closing_, useh;
static int64_t t0;

static void add(int kind);
static coroutine void member(int i) {
    struct m *m = &ms_[i]; char c;
    m->started++;
    switch(m->kind) {
    case QUICK: break;
    case CMD: m->rc = chrecv(m->ch[0], &c, 1, -1); m->err = errno; break;
    case SLEEP1: m->rc = msleep(t0 + 2); m->err = errno; break;
    case SLEEP2: m->rc = msleep(t0 + 4); m->err = errno; break;
    case YIELDER: for(int k = 0; k < 3; ++k) { m->rc = yield(); m->err = errno; if(m->rc < 0) break; } break;
    case SPAWNER: m->rc = yield(); m->err = errno; if(m->rc == 0 && nm < MAXM) add(CMD); break;
    case STUBBORN: while(1) { m->rc = msleep(-1); m->err = errno; if(m->rc < 0) break; } break;
    }
    m->ended++; m->at = vk_us() / 1000; if(--alive == 0) emptied++;
}
static void add(int kind) {
    int i = nm++;
    struct m *m = &ms_[i];
    memset(m, 0, sizeof(*m));
    m->kind = kind;
    m->ch[0] = m->ch[1] = -1;
    if(kind == CMD && chmake(m->ch) < 0) {
        MC_CHECK(closing_ && errno == ECANCELED, "setup", "chmake: %s", strerror(errno));
        --nm; return;
    }
    alive++;
    int rc;
    if(useh && b < 0) { b = go(member(i)); rc = b < 0 ? -1 : 0; }
    else rc = bundle_go(b, member(i));
    if(rc < 0 && closing_) {
        /* Started by a member which is being cancelled. */
        MC_CHECK(errno == ECANCELED && !m->started, "bundle_go", "bundle_go: %s", strerror(errno));
        --alive; --nm;
        if(kind == CMD) { hclose(m->ch[0]); hclose(m->ch[1]); }
        return;
    }
    MC_CHECK(rc == 0, "bundle_go", "bundle_go: %s", strerror(errno));
    MC_CHECK(m->started == 1, "bundle_go", "a new coroutine started %d times", m->started);
}
/* A waiter coroutine. */
static struct w { int h; int64_t dl; volatile int done, run; int rc, err; int64_t at; int alive_at, cancelled, start; } ws[4]; static int nw;
static coroutine void waiter(struct w *w) {
    w->run = 1; w->start = emptied;
    w->rc = bundle_wait(b, w->dl); w->err = errno; w->at = vk_us() / 1000; w->alive_at = emptied == w->start ? alive : 0; w->done = 1;
}
static int busyms;
static void check_wait(const char *who, int rc, int err, int64_t dl, int64_t start, int64_t at, int al, int cancelled) {
    mc_obs(rc * 1000 + err);
    if(rc == 0) { MC_CHECK(al == 0, "early", "%s: bundle_wait returned 0 while %d coroutines of the bundle are running", who, al); return; }
    MC_CHECK(rc == -1, "result", "%s: bundle_wait returned %d", who, rc);
    if(err == ECANCELED) { MC_CHECK(cancelled, "errno", "%s: bundle_wait: ECANCELED without cancellation", who); return; }
    MC_CHECK(err == ETIMEDOUT, "errno", "%s: bundle_wait: %s", who, strerror(err));
    MC_CHECK(dl >= 0 && at >= dl, "early-timeout", "%s: bundle_wait timed out %ld ms early", who, (long)(dl - at));
    MC_CHECK(at <= (dl > start ? dl : start) + 1 + busyms, "late-timeout", "%s: bundle_wait timed out late", who);
}
static void audit(const char *when) {
    yield(); yield(); yield(); yield();
    for(int i = 0; i < nw; ++i) {
        struct w *w = &ws[i];
        if(w->done == 1) { check_wait("waiter", w->rc, w->err, w->dl, 0, w->dl >= 0 && w->err == ETIMEDOUT ? w->at : w->at, w->alive_at, w->cancelled); w->done = 2; }
        else if(!w->done) MC_CHECK(alive > 0, "lost-wakeup", "%s: no coroutine is left but a bundle_wait is still blocked", when);
    }
}
static void closeb(void) {
    int al = alive; closing_ = 1;
    if(b >= 0) {
        int rc = hclose(b);
        MC_CHECK(rc == 0, "hclose", "hclose of the bundle: %s", strerror(errno));
        b = -1;
    }
    MC_CHECK(alive == 0, "outlived", "hclose of the bundle returned while %d of its coroutines are running", alive);
    for(int i = 0; i < nm; ++i) {
        struct m *m = &ms_[i];
        MC_CHECK(m->started == 1 && m->ended == 1, "once", "coroutine %d: started %d times, ended %d times", i, m->started, m->ended);
        MC_CHECK(m->rc == 0 || (m->rc == -1 && m->err == ECANCELED), "member", "coroutine %d: %s", i, strerror(m->err));
    }
    (void)al;
}
static struct bundle_storage bmem;
static void begin(int mem) {
    busyms = 0; nm = nw = alive = closing_ = 0; t0 = now(); useh = mem == 2;
    b = mem == 1 ? bundle_mem(&bmem) : mem == 0 ? bundle() : -1;
    if(mem < 2) MC_CHECK(b >= 0, "bundle", "bundle: %s", strerror(errno));
}
static void fini(void) {
    for(int i = 0; i < nw; ++i) if(ws[i].h >= 0) hclose(ws[i].h);
    for(int i = 0; i < nm; ++i) if(ms_[i].ch[0] >= 0) { hclose(ms_[i].ch[0]); hclose(ms_[i].ch[1]); }
}
/* All sequences of operations. */
static void seq(void) {
    int depth = mc_arg & 15, mem = mc_pick(mc_arg >> 4 & 15, "bundle, bundle_mem or go");
    begin(mem);
    if(mem == 2) add(CMD);
    int closed = 0;
    for(int d = 0; d < depth && !closed; ++d) {
        int op[64][2], n = 0;
        if(nm < 5) for(int k = 0; k < NKIND; ++k) { op[n][0] = 0; op[n++][1] = k; }
        for(int i = 0; i < nm; ++i) if(ms_[i].kind == CMD && !ms_[i].ended) { op[n][0] = 1; op[n++][1] = i; }
        for(int k = 0; k < 3; ++k) { op[n][0] = 2; op[n++][1] = k; }
        if(nw < 2) for(int k = 0; k < 3; ++k) { op[n][0] = 3; op[n++][1] = k; }
        for(int i = 0; i < nw; ++i) if(ws[i].h >= 0 && !ws[i].done) { op[n][0] = 4; op[n++][1] = i; }
        op[n][0] = 5; op[n++][1] = 0; op[n][0] = 5; op[n++][1] = 1;
        op[n][0] = 6; op[n++][1] = 0;
        int k = mc_pick(n, "op"), a = op[k][1];
        mc_step();
        switch(op[k][0]) {
        case 0: mc_log("bundle_go kind %d", a); add(a); break;
        case 1: { mc_log("release member %d", a); int rc = chsend(ms_[a].ch[1], "x", 1, 0); if(rc < 0) MC_CHECK(ms_[a].ended || errno == ETIMEDOUT, "release", "%s", strerror(errno)); break; }
        case 2: {
            int64_t dl = a == 0 ? 0 : a == 1 ? t0 + 2 : now() + 3, st = vk_us() / 1000;
            mc_log("bundle_wait %ld", (long)dl);
            int rc = bundle_wait(b, dl), e = errno;
            if(alive == 0 && dl == 0) MC_CHECK(rc == 0, "result", "bundle_wait of an empty bundle: %s", strerror(e));
            check_wait("main", rc, e, dl, st, vk_us() / 1000, alive, 0);
            break; }
        case 3: {
            struct w *w = &ws[nw++]; memset(w, 0, sizeof(*w));
            w->dl = a == 0 ? -1 : a == 1 ? t0 + 2 : t0 + 4; if(w->dl >= 0 && w->dl < now()) w->dl = now() + 1;
            mc_log("waiter until %ld", (long)w->dl);
            w->h = go(waiter(w));
            break; }
        case 4: mc_log("cancel waiter %d", a); ws[a].cancelled = 1; hclose(ws[a].h); ws[a].h = -1; break;
        case 5: if(a) { mc_log("sleep 1"); msleep(now() + 1); } else { mc_log("yield"); yield(); } break;
        case 6: {
            mc_log("hclose bundle");
            /* A waiter has to be released, too. */
            closeb(); closed = 1; break; }
        }
        uint64_t h = alive + 8 * nw;
        for(int i = 0; i < nm; ++i) h = mc_mix(h, ms_[i].kind * 2 + ms_[i].ended);
        for(int i = 0; i < nw; ++i) h = mc_mix(h, 100 + ws[i].done + (ws[i].dl < 0));
        mc_state(mc_mix(h, now() - t0));
        if(mc_arg >> 8 == 0 && !closed) audit("after an operation");
    }
    audit("at the end");
    if(!closed) closeb();
    audit("after closing");
    fini();
}
/* Coincidences: members, waiter and main meet at the same times. */
static void coincide(void) {
    begin(0);
    int n = 1 + mc_pick(2, "members");
    for(int i = 0; i < n; ++i) add(mc_pick(2, "kind") ? SLEEP1 : SLEEP2);
    int nwait = mc_pick(3, "waiters");
    for(int i = 0; i < nwait; ++i) {
        struct w *w = &ws[nw++]; memset(w, 0, sizeof(*w));
        w->dl = (int64_t[]){-1, t0 + 2, t0 + 4, t0 + 5}[mc_pick(4, "deadline")];
        w->h = go(waiter(w));
    }
    int64_t dl = (int64_t[]){0, t0 + 2, t0 + 4, t0 + 5}[mc_pick(4, "main's deadline")];
    int adv = mc_pick(3, "compute");
    if(adv) { busyms = adv * 3; vk_advance_us(adv * 3000); now(); }
    int64_t st = vk_us() / 1000;
    int rc = bundle_wait(b, dl), e = errno;
    check_wait("main", rc, e, dl, st, vk_us() / 1000, alive, 0);
    mc_step();
    msleep(t0 + 10);
    MC_CHECK(alive == 0, "lost-timer", "members did not end");
    audit("later");
    MC_CHECK(bundle_wait(b, 0) == 0, "result", "bundle_wait of an empty bundle failed");
    add(QUICK);
    MC_CHECK(bundle_wait(b, -1) == 0, "reuse", "bundle is not usable again");
    closeb(); fini();
}
/* Closing while members finish, start others and close other bundles. */
static int ended2, b2;
static coroutine void m2(int k, int i) {
    switch(k) {
    case 0: msleep(-1); break;
    case 1: yield(); break;
    case 2: while(yield() == 0); break;
    case 3: msleep(now() + 1); break;
    case 4: { int h = go(m2(2, i)); if(h < 0) break; ended2--; yield(); hclose(h); break; }
    case 5: {
        int bb = bundle(); if(bb < 0) break;
        if(bundle_go(bb, m2(0, i)) == 0) ended2--;
        if(bundle_go(bb, m2(1, i)) == 0) ended2--;
        msleep(-1); hclose(bb); break; }
    }
    ended2++;
}
static int others, stop2;
static coroutine void outsider(int k) {
    int h[8], n = 0;
    while(!stop2 && n < 8) {
        if(k == 1) { h[n] = go(m2(0, 0)); if(h[n] < 0) break; n++; ended2--; }
        if(k == 2 && others < 4 && b2 >= 0) { if(bundle_go(b2, m2(others & 1 ? 2 : 0, 0)) == 0) others++; }
        if(yield() < 0) break;
    }
    while(n) hclose(h[--n]);
}
static void closing(void) {
    ended2 = others = stop2 = 0; b2 = bundle();
    int n = 1 + mc_pick(4, "members"), out = mc_pick(3, "outsider");
    int o = out ? go(outsider(out)) : -1;
    for(int i = 0; i < n; ++i) { int k = mc_pick(6, "kind"); MC_CHECK(bundle_go(b2, m2(k, i)) == 0, "go", "bundle_go"); }
    int y = mc_pick(4, "yields");
    while(y--) yield();
    if(mc_pick(2, "compute")) { vk_advance_us(1500); now(); }
    int bb = b2;
    int rc = hclose(bb); b2 = -1;
    MC_CHECK(rc == 0, "hclose", "hclose: %s", strerror(errno));
    MC_CHECK(out == 1 || ended2 == n + others, "outlived", "%d of %d members ended", ended2, n + others);
    mc_step();
    stop2 = 1;
    yield(); yield();
    if(o >= 0) hclose(o);
    MC_CHECK(ended2 == n + others, "once", "%d of %d members ended in all", ended2, n + others);
}
/* Many members: more than the stack cache holds. */
static void many(void) {
    ended2 = 0; b2 = bundle();
    int n = mc_arg - mc_pick(3, "less");
    int split = mc_pick(4, "some end by themselves");
    for(int i = 0; i < n; ++i) { int k = (i & 3) < split ? 3 : 0; MC_CHECK(bundle_go(b2, m2(k, i)) == 0, "go", "bundle_go"); }
    if(mc_pick(2, "sleep")) msleep(now() + 3);
    int w = mc_pick(2, "wait");
    if(w) { int rc = bundle_wait(b2, now() + 1); MC_CHECK(rc == (split == 4 ? 0 : -1), "wait", "bundle_wait: %d", rc); }
    int rc = hclose(b2);
    MC_CHECK(rc == 0 && ended2 == n, "outlived", "%d of %d members ended", ended2, n);
    b2 = bundle();
    for(int i = 0; i < 10; ++i) bundle_go(b2, m2(1, i));
    MC_CHECK(bundle_wait(b2, -1) == 0 && ended2 == n + 10, "reuse", "after closing a large bundle");
    hclose(b2); mc_step();
}
static void args(void) {
    errno = 0;
    MC_CHECK(bundle_wait(-1, 0) == -1 && errno == EBADF, "args", "bundle_wait(-1): %s", strerror(errno));
    int ch[2]; chmake(ch);
    errno = 0;
    MC_CHECK(bundle_wait(ch[0], 0) == -1 && errno == ENOTSUP, "args", "bundle_wait(channel): %s", strerror(errno));
    errno = 0;
    MC_CHECK(bundle_go(ch[0], m2(0, 0)) == -1 && errno == ENOTSUP, "args", "bundle_go(channel): %s", strerror(errno));
    errno = 0;
    MC_CHECK(bundle_go(4000, m2(0, 0)) == -1 && errno == EBADF, "args", "bundle_go(4000): %s", strerror(errno));
    errno = 0;
    MC_CHECK(bundle_mem(NULL) == -1 && errno == EINVAL, "bundle-mem-null", "bundle_mem(NULL): %s", strerror(errno));
    hclose(ch[0]); hclose(ch[1]);
}
struct mc_scn mc_scns[] = {
    {"args", "invalid arguments", args, 0, 0},
    {"coincide", "1-2 members, 0-2 waiters and main, all coinciding deadlines", coincide, 0, 0},
    {"closing", "1-4 members of 6 kinds, outside coroutines creating others, closed at various points", closing, 0, 0},
    {"many", "more members than the cache of stacks holds", many, 0, 0, 70},
    {"seq-4", "all sequences of 4 of: 7 kinds of members, release, wait, waiters, cancel, time, close", seq, 0, -1, 4 | 3 << 4},
    {"seq-5", "all sequences of 5 of: 7 kinds of members, release, wait, waiters, cancel, time, close", seq, -1, 0, 5 | 3 << 4},
    {"lazy-4", "the same without rescheduling in between", seq, 0, -1, 4 | 3 << 4 | 1 << 8},
    {"lazy-5", "the same without rescheduling in between", seq, -1, 0, 5 | 1 << 4 | 1 << 8},
    {0}
};
