/* C01: channels. The main coroutine enumerates every sequence of operations
   up to a depth; each blocking operation runs in a coroutine of its own. An
   exact reference model of the channel runs in lockstep. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"

const char *mc_property = "C01";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "two half-channels, messages of at most 3 bytes, one thread",
    "system calls, clock and heap are those of the virtual kernel", NULL};

#define MAXOPS 16
enum {SEND, RECV};
enum {ST_NONE, ST_BLOCKED, ST_TRIGGERED, ST_CHECKED};
struct op {
    int kind, side, len, tgt;
    int64_t dl;
    int h;              /* coroutine handle, -1 when run by main */
    int st;
    int exp_rc, exp_errno, alt_errno;
    uint8_t fill;       /* payload of a send / of an expected receive */
    /* filled in by the implementation */
    volatile int done;
    int rc, err;
    uint8_t buf[8];
};
static struct op ops[MAXOPS];
static int nops;
static int ch[2];
static int closed[2], done[2];
/* FIFO queues per half-channel: indices of blocked ops */
static int qin[2][MAXOPS], nin[2], qout[2][MAXOPS], nout[2];
static int sent_ok, recv_ok;
static uint8_t got[64]; static int ngot;

static void qdel(int *q, int *n, int v) {
    int i, j;
    for(i = j = 0; i < *n; ++i) if(q[i] != v) q[j++] = q[i];
    *n = j;
}
static void unqueue(int i) {
    for(int s = 0; s < 2; ++s) { qdel(qin[s], &nin[s], i); qdel(qout[s], &nout[s], i); }
}
static void result(struct op *o, int rc, int err) {
    o->st = ST_TRIGGERED; o->exp_rc = rc; o->exp_errno = err;
    unqueue((int)(o - ops));
}

static coroutine void worker(struct op *o) {
    errno = 0;
    if(o->kind == SEND) o->rc = chsend(ch[o->side], o->buf, o->len, o->dl);
    else o->rc = chrecv(ch[o->side], o->buf, o->len, o->dl);
    o->err = errno;
    o->done = 1;
}

static void verify(struct op *o, const char *when) {
    const char *k = o->kind == SEND ? "chsend" : "chrecv";
    MC_CHECK(o->done, "lost-wakeup", "%s: %s on side %d should have completed with %d/%s",
        when, k, o->side, o->exp_rc, strerror(o->exp_errno));
    MC_CHECK(o->rc == o->exp_rc, "result", "%s: %s on side %d returned %d (%s), expected %d (%s)",
        when, k, o->side, o->rc, strerror(o->err), o->exp_rc, strerror(o->exp_errno));
    if(o->rc < 0)
        MC_CHECK(o->err == o->exp_errno || (o->alt_errno && o->err == o->alt_errno),
            "errno", "%s: %s on side %d: errno %s, expected %s",
            when, k, o->side, strerror(o->err), strerror(o->exp_errno));
    if(o->kind == RECV) {
        for(int i = 0; i < 8; ++i) {
            uint8_t want = (o->exp_rc == 0 && i < o->len) ? o->fill : 0xEE;
            MC_CHECK(o->buf[i] == want, "payload",
                "%s: byte %d of a receive buffer of %d is %02x, expected %02x", when, i, o->len, o->buf[i], want);
        }
    } else {
        for(int i = 0; i < 8; ++i)
            MC_CHECK(o->buf[i] == o->fill, "payload-sender", "%s: sender's buffer was changed", when);
    }
    mc_obs(o->rc * 1000 + o->err);
    o->st = ST_CHECKED;
}

static void check_all(const char *when) {
    for(int i = 0; i < nops; ++i) {
        struct op *o = &ops[i];
        if(o->st == ST_TRIGGERED) verify(o, when);
        else if(o->st == ST_BLOCKED)
            MC_CHECK(!o->done, "spurious-completion", "%s: %s on side %d completed with %d (%s) but should be blocked",
                when, o->kind == SEND ? "chsend" : "chrecv", o->side, o->rc, strerror(o->err));
    }
}

/* The model: what happens when op i is started now. */
static void model_start(int i) {
    struct op *o = &ops[i];
    if(closed[o->side]) { o->alt_errno = ENOTSUP; result(o, -1, EBADF); return; }
    int t = o->kind == SEND ? 1 - o->side : o->side;
    o->tgt = t;
    if(done[t]) { result(o, -1, EPIPE); return; }
    int *q = o->kind == SEND ? qin[t] : qout[t];
    int n = o->kind == SEND ? nin[t] : nout[t];
    if(n > 0) {
        struct op *p = &ops[q[0]];
        if(p->len != o->len) { result(p, -1, EMSGSIZE); result(o, -1, EMSGSIZE); return; }
        if(o->kind == SEND) p->fill = o->fill; else o->fill = p->fill;
        result(p, 0, 0); result(o, 0, 0);
        return;
    }
    if(o->dl == 0) { result(o, -1, ETIMEDOUT); return; }
    o->st = ST_BLOCKED;
    if(o->kind == SEND) qout[t][nout[t]++] = i; else qin[t][nin[t]++] = i;
}
static void model_wake(int t, int err) {
    while(nin[t]) result(&ops[qin[t][0]], -1, err);
    while(nout[t]) result(&ops[qout[t][0]], -1, err);
}
static void snapshot(void) {
    uint64_t h = closed[0] | closed[1] << 1 | done[0] << 2 | done[1] << 3;
    for(int s = 0; s < 2; ++s) {
        h = mc_mix(h, 100 + nin[s]);
        for(int i = 0; i < nin[s]; ++i) h = mc_mix(h, ops[qin[s][i]].len * 4 + (ops[qin[s][i]].dl > 0));
        h = mc_mix(h, 200 + nout[s]);
        for(int i = 0; i < nout[s]; ++i) h = mc_mix(h, ops[qout[s][i]].len * 4 + (ops[qout[s][i]].dl > 0));
    }
    mc_state(h);
}
static struct op *newop(int kind, int side, int len, int64_t dl) {
    struct op *o = &ops[nops++];
    memset(o, 0, sizeof(*o));
    o->kind = kind; o->side = side; o->len = len; o->dl = dl; o->h = -1;
    if(kind == SEND) { o->fill = 0x20 + nops; memset(o->buf, o->fill, 8); }
    else memset(o->buf, 0xEE, 8);
    return o;
}
static void settle(const char *when) {
    int rc = yield();
    MC_CHECK(rc == 0, "yield", "yield failed: %s", strerror(errno));
    check_all(when);
}

/* mode bits */
#define M_CLOSE 1     /* hclose of half-channels, cancel of coroutines */
#define M_LEN 2       /* two message lengths */
#define M_DL 4        /* timed operations and the passage of time */
#define M_LAZY 8      /* no rescheduling between operations of main */
#define M_MEM 16      /* chmake_mem */
#define M_ZERO 32     /* zero-length message */

static void run_ops(int mode, int depth) {
    static struct chstorage mem;
    nops = sent_ok = recv_ok = 0;
    memset(closed, 0, sizeof(closed)); memset(done, 0, sizeof(done));
    memset(nin, 0, sizeof(nin)); memset(nout, 0, sizeof(nout));
    int rc = mode & M_MEM ? chmake_mem(&mem, ch) : chmake(ch);
    MC_CHECK(rc == 0, "chmake", "chmake failed: %s", strerror(errno));
    int sym = 1, ntried = 0;
    for(int d = 0; d < depth; ++d) {
        /* Alphabet. Until an operation distinguishes the two sides, side 1
           is not tried. */
        int sides = sym ? 1 : 2;
        struct {int k, s, len, dl, i;} al[64]; int n = 0;
        for(int s = 0; s < sides; ++s) {
            for(int k = 0; k < 2; ++k)
                for(int l = 0; l < ((mode & M_LEN) ? 2 : 1); ++l)
                    for(int t = 0; t < ((mode & M_DL) ? 3 : (mode & M_LAZY) ? 2 : 1); ++t) {
                        al[n].k = k; al[n].s = s; al[n].len = (mode & M_ZERO) ? l * 3 : 3 - l;
                        al[n].dl = t; ++n;
                    }
            al[n].k = 2; al[n].s = s; ++n;
            if(mode & M_CLOSE) { al[n].k = 3; al[n].s = s; ++n; }
        }
        if(mode & M_CLOSE)
            for(int i = 0; i < nops; ++i)
                if(ops[i].h >= 0 && (ops[i].st == ST_BLOCKED || ops[i].st == ST_TRIGGERED)) { al[n].k = 4; al[n].i = i; ++n; }
        if(mode & M_DL) { al[n].k = 5; ++n; }
        if(mode & M_LAZY) { al[n].k = 6; ++n; }
        int c = mc_pick(n, "op");
        mc_step();
        if(al[c].k <= 3) sym = 0;
        switch(al[c].k) {
        case 0: case 1: {
            int64_t dl = al[c].dl == 0 ? -1 : al[c].dl == 1 ? 0 : now() + 10;
            struct op *o = newop(al[c].k, al[c].s, al[c].len, dl);
            mc_log("%s side %d len %d deadline %ld", al[c].k == SEND ? "chsend" : "chrecv", o->side, o->len, (long)dl);
            model_start(nops - 1);
            if(dl == 0 && !o->done && (mode & M_LAZY)) worker(o);
            else {
                o->h = go(worker(o));
                MC_CHECK(o->h >= 0, "go", "go failed: %s", strerror(errno));
            }
            if(o->st == ST_TRIGGERED) verify(o, "immediately");
            break;
        }
        case 2: {
            mc_log("chdone side %d", al[c].s);
            int s = al[c].s, t = 1 - s;
            errno = 0;
            rc = chdone(ch[s]);
            if(closed[s]) MC_CHECK(rc == -1 && (errno == EBADF || errno == ENOTSUP), "chdone", "chdone on a closed handle: %d %s", rc, strerror(errno));
            else if(done[t]) MC_CHECK(rc == -1 && errno == EPIPE, "chdone", "second chdone: %d %s, expected EPIPE", rc, strerror(errno));
            else {
                MC_CHECK(rc == 0, "chdone", "chdone failed: %s", strerror(errno));
                done[t] = 1; model_wake(t, EPIPE);
            }
            break;
        }
        case 3: {
            mc_log("hclose side %d", al[c].s);
            int s = al[c].s;
            if(closed[s]) break;   /* the handle number may have been reused */
            rc = hclose(ch[s]);
            MC_CHECK(rc == 0, "hclose", "hclose failed: %s", strerror(errno));
            closed[s] = 1;
            if(closed[1 - s]) { model_wake(0, EPIPE); model_wake(1, EPIPE); }
            if(mode & M_MEM && closed[0] && closed[1]) memset(&mem, 0xDD, sizeof(mem));
            break;
        }
        case 4: {
            struct op *o = &ops[al[c].i];
            mc_log("cancel of %d", al[c].i);
            int was = o->st == ST_BLOCKED;
            if(was) result(o, -1, ECANCELED);
            rc = hclose(o->h); o->h = -1;
            MC_CHECK(rc == 0, "hclose-cr", "hclose of a coroutine failed: %s", strerror(errno));
            verify(o, "after cancellation");
            /* A blocked coroutine's cancellation lets all ready ones run. */
            if(was) check_all("after cancellation");
            break;
        }
        case 5: {
            mc_log("10 ms pass");
            int64_t t = now() + 10;
            rc = msleep(t);
            MC_CHECK(rc == 0, "msleep", "msleep failed");
            for(int i = 0; i < nops; ++i)
                if(ops[i].st == ST_BLOCKED && ops[i].dl > 0 && ops[i].dl <= t)
                    result(&ops[i], -1, ETIMEDOUT);
            break;
        }
        case 6:
            mc_log("yield");
            settle("after yield");
            break;
        }
        if(!(mode & M_LAZY)) settle("after settling");
        snapshot();
    }
    settle("at the end");
    /* Whatever still waits must be released when both ends are closed. */
    int order = mc_pick(2, "final");
    if(order == 0) {
        for(int s = 0; s < 2; ++s) if(!closed[s]) { rc = hclose(ch[s]); MC_CHECK(rc == 0, "hclose", "hclose failed"); closed[s] = 1; }
        model_wake(0, EPIPE); model_wake(1, EPIPE);
        if(mode & M_MEM) memset(&mem, 0xDD, sizeof(mem));
        settle("after closing both ends");
    }
    for(int i = 0; i < nops; ++i) if(ops[i].h >= 0) {
        if(ops[i].st == ST_BLOCKED) result(&ops[i], -1, ECANCELED);
        rc = hclose(ops[i].h);
        MC_CHECK(rc == 0, "hclose-cr", "hclose of a coroutine failed: %s", strerror(errno));
        if(ops[i].st == ST_TRIGGERED) verify(&ops[i], "at the end");
    }
    for(int s = 0; s < 2; ++s) if(!closed[s]) { rc = hclose(ch[s]); MC_CHECK(rc == 0, "hclose", "hclose failed"); }
    int any = 0;
    for(int i = 0; i < nops; ++i) if(ops[i].rc == 0 && ops[i].done) any = 1;
    for(int i = 0; i < nops; ++i) if(ops[i].done) any = 1;
    if(!any) mc_trivial();
}
static void basic(void) { run_ops(M_CLOSE, mc_arg); }
static void mem(void) { run_ops(M_CLOSE | M_MEM, mc_arg); }
static void lens(void) { run_ops(M_LEN, mc_arg); }
static void zero(void) { run_ops(M_LEN | M_ZERO, mc_arg); }
static void dl(void) { run_ops(M_DL | M_CLOSE, mc_arg); }
static void lazy(void) { run_ops(M_LAZY | M_CLOSE, mc_arg); }

/* Long queues: n waiters of one kind, then the other side serves k of them in
   batches; strict FIFO. */
static void fifo(void) {
    nops = 0;
    int n = mc_arg;
    memset(closed, 0, sizeof(closed)); memset(done, 0, sizeof(done));
    memset(nin, 0, sizeof(nin)); memset(nout, 0, sizeof(nout));
    int rc = chmake(ch);
    MC_CHECK(rc == 0, "chmake", "chmake failed");
    int kind = mc_pick(2, "kind");
    int cnt = 1 + mc_pick(n, "waiters");
    for(int i = 0; i < cnt; ++i) {
        struct op *o = newop(kind, 0, 1, -1);
        model_start(i);
        o->h = go(worker(o));
        MC_CHECK(o->h >= 0, "go", "go failed");
        mc_step();
    }
    /* Some of them go away again, by cancellation. */
    for(int i = 0; i < cnt; ++i)
        if(mc_pick(2, "cancel")) {
            result(&ops[i], -1, ECANCELED);
            rc = hclose(ops[i].h); ops[i].h = -1;
            verify(&ops[i], "cancelled");
            mc_step();
        }
    int left = nin[0] + nin[1] + nout[0] + nout[1];
    for(int i = 0; i < left; ++i) {
        struct op *o = newop(1 - kind, 1, 1, 0);
        model_start(nops - 1);
        worker(o);
        verify(o, "serving");
        if(mc_pick(2, "yield")) settle("serving");
        snapshot(); mc_step();
    }
    settle("end");
    for(int i = 0; i < nops; ++i) if(ops[i].h >= 0) hclose(ops[i].h);
    hclose(ch[0]); hclose(ch[1]);
}

/* Bad arguments. */
static void args(void) {
    int c2[2];
    errno = 0;
    MC_CHECK(chmake_mem(NULL, c2) == -1 && errno == EINVAL, "args", "chmake_mem(NULL)");
    MC_CHECK(chmake(ch) == 0, "chmake", "chmake failed");
    int b = bundle();
    uint8_t x[4] = {1, 2, 3, 4};
    struct {int h, err;} t[] = {{-1, EBADF}, {4000, EBADF}, {b, ENOTSUP}};
    for(int i = 0; i < 3; ++i) {
        errno = 0; MC_CHECK(chsend(t[i].h, x, 1, 0) == -1 && errno == t[i].err, "args", "chsend bad handle: %s", strerror(errno));
        errno = 0; MC_CHECK(chrecv(t[i].h, x, 1, 0) == -1 && errno == t[i].err, "args", "chrecv bad handle: %s", strerror(errno));
        errno = 0; MC_CHECK(chdone(t[i].h) == -1 && errno == t[i].err, "args", "chdone bad handle: %s", strerror(errno));
    }
    errno = 0;
    MC_CHECK(chsend(ch[0], x, 1, 0) == -1 && errno == ETIMEDOUT, "args", "chsend with no receiver");
    MC_CHECK(chrecv(ch[0], x, 1, 0) == -1 && errno == ETIMEDOUT, "args", "chrecv with no sender");
    int p = mc_pick(2, "op");
    errno = 0;
    if(p == 0) MC_CHECK(chsend(ch[0], NULL, 1, 0) == -1 && (errno == EINVAL || errno == ETIMEDOUT), "null-value", "chsend of NULL");
    if(p == 1) MC_CHECK(chrecv(ch[0], NULL, 1, 0) == -1 && (errno == EINVAL || errno == ETIMEDOUT), "null-value", "chrecv to NULL");
    hclose(b); hclose(ch[0]); hclose(ch[1]);
}

struct mc_scn mc_scns[] = {
    {"args", "invalid arguments", args, 0, 0, 0},
    {"basic-6", "all sequences of 6 of send, recv, done, close, cancel", basic, 0, -1, 6},
    {"basic-7", "all sequences of 7 of send, recv, done, close, cancel", basic, -1, 0, 7},
    {"mem-4", "the same with chmake_mem", mem, 0, -1, 4},
    {"mem-5", "the same with chmake_mem", mem, -1, 0, 5},
    {"lens-5", "sequences of 5 of send, recv (lengths 2, 3), done", lens, 0, -1, 5},
    {"lens-6", "sequences of 6 of send, recv (lengths 2, 3), done", lens, -1, 0, 6},
    {"zero-4", "sequences of 4 of send, recv (lengths 0, 3), done", zero, 0, -1, 4},
    {"zero-5", "sequences of 5 of send, recv (lengths 0, 3), done", zero, -1, 0, 5},
    {"dl-4", "sequences of 4 with deadlines -1, 0, now+10 and passing time", dl, 0, -1, 4},
    {"dl-5", "sequences of 5 with deadlines -1, 0, now+10 and passing time", dl, -1, 0, 5},
    {"lazy-5", "sequences of 5 without rescheduling between them", lazy, 0, -1, 5},
    {"lazy-6", "sequences of 6 without rescheduling between them", lazy, -1, 0, 6},
    {"fifo-4", "up to 4 waiters, any subset cancelled, served in any batches", fifo, 0, -1, 4},
    {"fifo-6", "up to 6 waiters, any subset cancelled, served in any batches", fifo, -1, 0, 6},
    {0}
};
