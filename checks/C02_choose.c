/* C02: choose(). Operations (simple sends and receives, chooses with all
   clause arrays, chdone, hclose, cancellation, time) are enumerated against a
   reference model of two channels. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"

const char *mc_property = "C02";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "two channels, at most three clauses per choose, messages of 0-3 bytes",
    "system calls, clock and heap are those of the virtual kernel", NULL};

#define MAXOPS 12
#define MAXCL 3
enum {SEND = CHSEND, RECV = CHRECV};
struct cl {int kind, c, s, len; uint8_t fill; uint8_t buf[4]; int bad;};
struct op {
    int choose, n; struct cl cl[MAXCL];
    int64_t dl; int h;
    int st;                    /* 1 blocked, 2 triggered, 3 checked */
    int exp_rc, exp_errno, exp_idx;
    volatile int done; int rc, err;
};
static struct op ops[MAXOPS]; static int nops;
static int ch[2][2], done[2][2], closed[2][2];
struct w {int op, cl;};
static struct {struct w q[64]; int n;} qin[2][2], qout[2][2];
static int bndl;

static void drop(int op) {
    for(int c = 0; c < 2; ++c) for(int s = 0; s < 2; ++s) for(int k = 0; k < 2; ++k) {
        struct w *q = k ? qin[c][s].q : qout[c][s].q; int *n = k ? &qin[c][s].n : &qout[c][s].n, j = 0;
        for(int i = 0; i < *n; ++i) if(q[i].op != op) q[j++] = q[i];
        *n = j;
    }
}
static void result(int op, int rc, int err, int idx) {
    struct op *o = &ops[op];
    drop(op);
    o->st = 2; o->exp_errno = err; o->exp_idx = idx;
    o->exp_rc = o->choose ? (idx >= 0 ? idx : -1) : rc;
    (void)rc;
}
static int handle_of(struct cl *k) {
    if(k->bad == 1) return -1;
    if(k->bad == 2) return bndl;
    return ch[k->c][k->s];
}
static coroutine void worker(struct op *o) {
    errno = 12345;
    if(!o->choose) {
        struct cl *k = &o->cl[0];
        errno = 0;
        if(k->kind == SEND) o->rc = chsend(ch[k->c][k->s], k->buf, k->len, o->dl);
        else o->rc = chrecv(ch[k->c][k->s], k->buf, k->len, o->dl);
    } else {
        struct chclause cls[MAXCL];
        for(int i = 0; i < o->n; ++i) {
            cls[i].op = o->cl[i].bad == 3 ? 77 : o->cl[i].kind;
            cls[i].ch = handle_of(&o->cl[i]);
            cls[i].val = o->cl[i].bad == 4 ? NULL : o->cl[i].buf; cls[i].len = o->cl[i].len;
        }
        o->rc = choose(cls, o->n, o->dl);
    }
    o->err = errno;
    o->done = 1;
}
static void verify(int i, const char *when) {
    struct op *o = &ops[i];
    MC_CHECK(o->done, "lost-wakeup", "%s: operation %d should have completed with %d/%s", when, i, o->exp_rc, strerror(o->exp_errno));
    MC_CHECK(o->rc == o->exp_rc, "result", "%s: operation %d returned %d (%s), expected %d (%s)", when, i, o->rc, strerror(o->err), o->exp_rc, strerror(o->exp_errno));
    if(o->choose || o->rc < 0)
        MC_CHECK(o->err == o->exp_errno, "errno", "%s: operation %d (returned %d): errno %d (%s), expected %s", when, i, o->rc, o->err, strerror(o->err), strerror(o->exp_errno));
    for(int j = 0; j < o->n; ++j) {
        struct cl *k = &o->cl[j];
        for(int b = 0; b < 4; ++b) {
            uint8_t want = k->kind == SEND ? k->fill :
                (o->exp_idx == j && o->exp_errno == 0 && b < k->len) ? k->fill : 0xEE;
            MC_CHECK(k->buf[b] == want, "payload", "%s: operation %d clause %d byte %d is %02x, expected %02x", when, i, j, b, k->buf[b], want);
        }
    }
    mc_obs(o->rc * 1000 + o->err);
    o->st = 3;
}
static void check_all(const char *when) {
    for(int i = 0; i < nops; ++i) {
        if(ops[i].st == 2) verify(i, when);
        else if(ops[i].st == 1) MC_CHECK(!ops[i].done, "spurious-completion", "%s: operation %d completed with %d (%s) but should be blocked", when, i, ops[i].rc, strerror(ops[i].err));
    }
}
static void settle(const char *when) {
    int rc = yield();
    MC_CHECK(rc == 0, "yield", "yield failed");
    check_all(when);
}
/* Can clause j of op proceed? Performs it if so. */
static int try_clause(int op, int j) {
    struct op *o = &ops[op]; struct cl *k = &o->cl[j];
    if(k->bad == 1) { result(op, -1, EBADF, j); return 1; }
    if(k->bad == 2) { result(op, -1, ENOTSUP, j); return 1; }
    if(k->bad == 3 || k->bad == 4) { result(op, -1, EINVAL, j); return 1; }
    if(closed[k->c][k->s]) { result(op, -1, EBADF, j); return 1; }
    int t = k->kind == SEND ? 1 - k->s : k->s;
    if(done[k->c][t]) { result(op, -1, EPIPE, j); return 1; }
    struct w *q = k->kind == SEND ? qin[k->c][t].q : qout[k->c][t].q;
    int n = k->kind == SEND ? qin[k->c][t].n : qout[k->c][t].n;
    if(!n) return 0;
    struct op *po = &ops[q[0].op]; struct cl *pk = &po->cl[q[0].cl];
    int pop = q[0].op, pcl = q[0].cl;
    if(pk->len != k->len) { result(pop, -1, EMSGSIZE, pcl); result(op, -1, EMSGSIZE, j); return 1; }
    if(k->kind == SEND) pk->fill = k->fill; else k->fill = pk->fill;
    result(pop, 0, 0, pcl); result(op, 0, 0, j);
    return 1;
}
static void model_start(int op) {
    struct op *o = &ops[op];
    for(int j = 0; j < o->n; ++j) if(try_clause(op, j)) return;
    if(o->dl == 0) { result(op, -1, ETIMEDOUT, -1); return; }
    o->st = 1;
    for(int j = 0; j < o->n; ++j) {
        struct cl *k = &o->cl[j]; int t = k->kind == SEND ? 1 - k->s : k->s;
        struct w x = {op, j};
        if(k->kind == SEND) qout[k->c][t].q[qout[k->c][t].n++] = x;
        else qin[k->c][t].q[qin[k->c][t].n++] = x;
    }
}
static void wake(int c, int t) {
    while(qin[c][t].n) { struct w x = qin[c][t].q[0]; result(x.op, -1, EPIPE, x.cl); }
    while(qout[c][t].n) { struct w x = qout[c][t].q[0]; result(x.op, -1, EPIPE, x.cl); }
}
static void snapshot(void) {
    uint64_t h = 7;
    for(int c = 0; c < 2; ++c) for(int s = 0; s < 2; ++s) {
        h = mc_mix(h, done[c][s] | closed[c][s] << 1);
        for(int i = 0; i < qin[c][s].n; ++i) h = mc_mix(h, 10 + ops[qin[c][s].q[i].op].n * 8 + qin[c][s].q[i].cl);
        h = mc_mix(h, 99);
        for(int i = 0; i < qout[c][s].n; ++i) h = mc_mix(h, 10 + ops[qout[c][s].q[i].op].n * 8 + qout[c][s].q[i].cl);
    }
    mc_state(h);
}
static void setclause(struct cl *k, int code, int len, int id) {
    memset(k, 0, sizeof(*k));
    k->kind = code & 1 ? RECV : SEND; k->s = code >> 1 & 1; k->c = code >> 2 & 1; k->len = len;
    if(k->kind == SEND) { k->fill = id; memset(k->buf, id, 4); } else { memset(k->buf, 0xEE, 4); }
}
static int chans = 2;
static void start(int i) {
    struct op *o = &ops[i];
    model_start(i);
    o->h = go(worker(o));
    MC_CHECK(o->h >= 0, "go", "go failed: %s", strerror(errno));
    mc_step();
    settle("after an operation");
    snapshot();
}
static struct op *newop(int choose, int n, int64_t dl) {
    struct op *o = &ops[nops++];
    memset(o, 0, sizeof(*o)); o->choose = choose; o->n = n; o->dl = dl; o->h = -1;
    return o;
}
static void init(void) {
    nops = 0; memset(done, 0, sizeof(done)); memset(closed, 0, sizeof(closed));
    memset(qin, 0, sizeof(qin)); memset(qout, 0, sizeof(qout));
    for(int c = 0; c < 2; ++c) MC_CHECK(chmake(ch[c]) == 0, "chmake", "chmake failed");
    bndl = bundle();
}
static void fini(void) {
    /* Close both channels: every waiter gets EPIPE on its first affected
       clause; or cancel them. */
    int p = mc_pick(2, "final");
    if(p == 0) for(int c = 0; c < 2; ++c) {
        for(int s = 0; s < 2; ++s) if(!closed[c][s]) { hclose(ch[c][s]); closed[c][s] = 1; }
        wake(c, 0); wake(c, 1);
    }
    if(p == 0) settle("after closing");
    for(int i = 0; i < nops; ++i) if(ops[i].h >= 0) {
        if(ops[i].st == 1) result(i, -1, ECANCELED, -1);
        int rc = hclose(ops[i].h);
        MC_CHECK(rc == 0, "hclose", "hclose failed");
        if(ops[i].st == 2) verify(i, "at the end");
    }
    for(int c = 0; c < 2; ++c) for(int s = 0; s < 2; ++s) if(!closed[c][s]) hclose(ch[c][s]);
    hclose(bndl);
}
static void simple(int code, int len, int64_t dl) {
    struct op *o = newop(0, 1, dl);
    setclause(&o->cl[0], code, len, 0x20 + nops);
    mc_log("%s channel %d side %d len %d", code & 1 ? "chrecv" : "chsend", code >> 2 & 1, code >> 1 & 1, len);
    start(nops - 1);
}
static void dochoose(int sym, int nc, int lens, int dls, int bads) {
    int64_t dl = dls ? (int64_t[]){-1, 0, now() + 10}[mc_pick(dls, "deadline")] : -1;
    struct op *o = newop(1, nc, dl);
    for(int j = 0; j < nc; ++j) {
        int code = (sym && j == 0) ? mc_pick(2, "clause") : mc_pick(4 * chans, "clause");
        int len = lens ? 2 + mc_pick(2, "len") : 2;
        setclause(&o->cl[j], code, len, 0x40 + nops * 4 + j);
        if(bads) o->cl[j].bad = mc_pick(5, "bad");
        mc_log("choose clause %d: %s channel %d side %d len %d bad %d", j, code & 1 ? "recv" : "send", code >> 2, code >> 1 & 1, len, o->cl[j].bad);
    }
    mc_log("choose deadline %ld", (long)dl);
    start(nops - 1);
}
/* Any operation of a peer. 0: simple, 1: done, 2: close, 3: cancel, 4: time, 5: nothing */
static void peer(int lens, int what) {
    int n = 4 * chans * (lens ? 2 : 1), base = n;
    if(what & 2) n += 2 * chans;          /* done */
    if(what & 4) n += 2 * chans;          /* close */
    int ncancel = 0, can[MAXOPS];
    if(what & 8) for(int i = 0; i < nops; ++i) if(ops[i].st == 1 && ops[i].choose) can[ncancel++] = i;
    n += ncancel;
    if(what & 16) n += 1;
    int c = mc_pick(n, "peer");
    if(c < base) { simple(c % (4 * chans), 2 + c / (4 * chans), -1); return; }
    c -= base;
    if(what & 2) {
        if(c < 2 * chans) {
            int cc = c / 2, s = c % 2, t = 1 - s;
            mc_log("chdone channel %d side %d", cc, s);
            int rc = chdone(ch[cc][s]);
            if(closed[cc][s]) MC_CHECK(rc == -1 && errno == EBADF, "chdone", "chdone closed");
            else if(done[cc][t]) MC_CHECK(rc == -1 && errno == EPIPE, "chdone", "second chdone: %d", rc);
            else { MC_CHECK(rc == 0, "chdone", "chdone failed"); done[cc][t] = 1; wake(cc, t); }
            mc_step(); settle("after chdone"); snapshot();
            return;
        }
        c -= 2 * chans;
    }
    if(what & 4) {
        if(c < 2 * chans) {
            int cc = c / 2, s = c % 2;
            mc_log("hclose channel %d side %d", cc, s);
            if(!closed[cc][s]) {
                MC_CHECK(hclose(ch[cc][s]) == 0, "hclose", "hclose failed");
                /* The number stays unused in this run: no handle is created
                   often enough to recycle it. */
                closed[cc][s] = 1; ch[cc][s] = -1;
                if(closed[cc][1 - s]) { wake(cc, 0); wake(cc, 1); }
            }
            mc_step(); settle("after hclose"); snapshot();
            return;
        }
        c -= 2 * chans;
    }
    if(c < ncancel) {
        int i = can[c];
        mc_log("cancel %d", i);
        result(i, -1, ECANCELED, -1);
        MC_CHECK(hclose(ops[i].h) == 0, "hclose", "hclose failed"); ops[i].h = -1;
        mc_step(); verify(i, "after cancel"); settle("after cancel"); snapshot();
        return;
    }
    mc_log("10 ms pass");
    int64_t t = now() + 10;
    msleep(t);
    for(int i = 0; i < nops; ++i) if(ops[i].st == 1 && ops[i].dl > 0 && ops[i].dl <= t) result(i, -1, ETIMEDOUT, -1);
    mc_step(); settle("after time"); snapshot();
}
static void pre_choose_post(int npre, int nc, int npost, int lens, int dls, int what) {
    chans = 2; init();
    for(int i = 0; i < npre; ++i) { if(mc_pick(2, "pre")) simple(mc_pick(8, "pre-op"), 2 + (lens ? mc_pick(2, "len") : 0), -1); else break; }
    dochoose(nops == 0, nc, lens, dls, 0);
    for(int i = 0; i < npost; ++i) peer(lens, what);
    fini();
}
static void s_post(void) { pre_choose_post(1, 2, 2, 0, 2, 2 | 8); }
static void s_pre(void) { pre_choose_post(2, 2, 1, 0, 2, 2 | 8); }
static void s_three(void) { pre_choose_post(1, 3, 1, 0, 2, 2 | 4 | 8); }
static void s_len(void) { pre_choose_post(1, 2, 1, 1, 2, 2 | 8); }
static void s_time(void) { pre_choose_post(0, 2, 2, 0, 3, 2 | 4 | 8 | 16); }
static void s_post3(void) { pre_choose_post(0, 2, 3, 0, 0, 2 | 4 | 8); }
static void s_pre2post2(void) { pre_choose_post(2, 2, 2, 0, 2, 2 | 4 | 8); }
/* Two choosers meet. */
static void s_meet(void) {
    chans = mc_arg & 15 ? mc_arg & 15 : 2; init();
    dochoose(1, 2, 0, 0, 0);
    dochoose(0, 2, 0, 2, 0);
    int n = mc_arg >> 4;
    for(int i = 0; i < n; ++i) peer(0, 2 | 8);
    fini();
}
static void s_meet3(void) {
    chans = 1; init();
    for(int i = 0; i < 3; ++i) dochoose(i == 0, 2, 0, 0, 0);
    for(int i = 0; i < mc_arg; ++i) peer(0, 2 | 8);
    fini();
}
static void s_bad(void) {
    chans = 1; init();
    if(mc_pick(2, "pre")) simple(mc_pick(4, "pre-op"), 2, -1);
    dochoose(0, 2, 0, 1, 1);
    fini();
}
static void s_args(void) {
    init();
    struct chclause c = {CHSEND, ch[0][0], NULL, 0};
    errno = 0; MC_CHECK(choose(NULL, 1, 0) == -1 && errno == EINVAL, "args", "choose(NULL,1): %s", strerror(errno));
    errno = 0; MC_CHECK(choose(&c, -1, 0) == -1 && errno == EINVAL, "args", "choose(-1): %s", strerror(errno));
    errno = 0; MC_CHECK(choose(NULL, 0, 0) == -1 && errno == ETIMEDOUT, "args", "choose(NULL,0,0): %s", strerror(errno));
    int64_t t0 = now();
    errno = 0; MC_CHECK(choose(NULL, 0, t0 + 7) == -1 && errno == ETIMEDOUT && now() >= t0 + 7, "args", "choose(NULL,0,7): %s", strerror(errno));
    errno = 0; MC_CHECK(choose(&c, 1, 0) == -1 && errno == ETIMEDOUT, "args", "choose with zero length: %s", strerror(errno));
    fini();
}
struct mc_scn mc_scns[] = {
    {"args", "invalid arguments, empty clause lists", s_args, 0, 0},
    {"bad", "two clauses, each valid or invalid in one of four ways, peer waiting or not", s_bad, 0, 0},
    {"post2", "0-1 waiting peers, choose of two clauses, two later operations", s_post, 0, 0},
    {"pre2", "0-2 waiting peers, choose of two clauses, one later operation", s_pre, 0, 0},
    {"three", "0-1 waiting peers, choose of three clauses, one later operation", s_three, 0, 0},
    {"len", "the same with two message lengths", s_len, 0, 0},
    {"time", "choose with deadlines, operations, passing time, closing", s_time, 0, 0},
    {"post3", "choose of two clauses, three later operations", s_post3, -1, 0},
    {"pre2post2", "0-2 waiting peers, choose of two clauses, two later operations", s_pre2post2, -1, 0},
    {"meet", "two choosers with two clauses each, one later operation", s_meet, 0, 0, 2 | 1 << 4},
    {"meet2", "two choosers with two clauses each, two later operations", s_meet, -1, 0, 2 | 2 << 4},
    {"meet3", "three choosers with two clauses each on one channel, one later operation", s_meet3, 0, 0, 1},
    {"meet3-2", "three choosers with two clauses each on one channel, two later operations", s_meet3, -1, 0, 2},
    {0}
};
