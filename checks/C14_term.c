/* C14: TERM protocol. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include "iolgen.h"
#include <unistd.h>

const char *mc_property = "C14";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread; the socket is used by one coroutine per direction",
    "mock scenarios: the underlying message socket is a mock that delivers, delays and fails at any message; pair scenario: PREFIX over an IPC connection over the virtual kernel",
    "the library does not check that an outgoing message differs from the terminal one (documented in the code as an open point)", NULL};

static struct mm m;
static int attach(int u, const void *t, int n) {
    int s = term_attach(u, t, n);
    MC_CHECK(s >= 0, "attach", "term_attach: %s", strerror(errno));
    return s;
}
static const char *terms[] = {"STOP", "", "x", "12345678901234567890123456789012"};
/* Messages around the terminal one. */
static int message(const char *t, int kind, char *b) {
    int n = strlen(t);
    memcpy(b, t, n);
    switch(kind) {
    case 0: return n;                                         /* terminal */
    case 1: memcpy(b, "hello", 5); return 5;
    case 2: if(n) { b[n - 1] ^= 1; return n; } b[0] = 'q'; return 1;   /* last byte differs */
    case 3: if(n) return n - 1; b[0] = 0; return 1;           /* shorter */
    case 4: b[n] = '!'; return n + 1;                         /* longer */
    case 5: memcpy(b + n, t, n); b[2 * n] = 'z'; return 2 * n + 1;
    case 6: if(n) { b[0] ^= 1; return n; } memcpy(b, "ab", 2); return 2;
    case 7: if(n > 1) return 1; b[0] = 'q'; return 1;
    case 8: if(n) return 0; return 0;                         /* empty */
    }
    return 0;
}
struct rcall { struct gl g; int drop; int64_t dl; ssize_t rc; int err, done; };
static struct rcall C[6]; static int nC, g_s;
static coroutine void recv_body(void) {
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i]; errno = 0;
        c->rc = c->drop ? mrecvl(g_s, NULL, NULL, c->dl) : c->g.n == 1 && (c->g.total & 1) ? mrecv(g_s, c->g.base[0], c->g.total, c->dl) : mrecvl(g_s, GL_FIRST(&c->g), GL_LAST(&c->g), c->dl);
        c->err = errno; c->done = 1;
        mc_log("mrecvl %s = %zd (%s)", c->drop ? "-" : gl_str(&c->g), c->rc, c->rc < 0 ? strerror(c->err) : "ok");
    }
}
/* The terminal message ends the incoming direction, and nothing else does. */
static void recv_(void) {
    const char *t = terms[mc_pick(4, "terminator")]; int tl = strlen(t);
    g_s = attach(mm_open(&m), t, tl);
    int nm = mc_arg, isterm[4] = {0}; char b[128];
    for(int i = 0; i < nm; ++i) {
        int n = message(t, mc_pick(9, "message"), b);
        isterm[i] = n == tl && !memcmp(b, t, n);
        mm_feed(&m, b, n, 0);
    }
    m.inend = mc_pick(2, "end") ? EPIPE : ECONNRESET;
    nC = nm + 2; memset(C, 0, sizeof C);
    static const int l[] = {70, 0, 1, 4, 2};
    for(int i = 0; i < nC; ++i) {
        C[i].dl = -1;
        if(i < nm) C[i].drop = !mc_pick(4, "drop"); 
        if(i == 0) gl_pick(&C[i].g, C[i].drop ? 1 : nm == 1 ? 3 : 2, l, C[i].drop ? 1 : nm == 1 ? 5 : 2 + mc_thorough, 1);
        else if(i < nm) gl_pick(&C[i].g, C[i].drop ? 1 : 1, l, C[i].drop ? 1 : 3, 0);
        else { int z = 100; gl_build(&C[i].g, 1, &z, NULL); }
    }
    recv_body();
    int dead = 0, k = 0, ended = 0; /* dead: EMSGSIZE has been seen */
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i];
        gl_check(&c->g); mc_step();
        mc_obs(c->rc);
        if(ended) { MC_CHECK(c->rc == -1 && c->err == EPIPE, "after-end", "mrecvl after the terminal message gave %zd (%s)", c->rc, strerror(c->err)); gl_expect(&c->g, (uint8_t*)b, 0, 0); continue; }
        if(dead && c->rc == -1 && c->err == ECONNRESET) { dead = 2; continue; }
        MC_CHECK(dead != 2, "after-failure", "mrecvl works again after ECONNRESET");
        if(k >= nm) { MC_CHECK(c->rc == -1 && c->err == (k == nm ? m.inend : m.inend == EPIPE ? EPIPE : ECONNRESET), "end", "mrecvl at the end gave %zd (%s)", c->rc, strerror(c->err)); k++; continue; }
        size_t room = 0, n = m.in[k].n; for(int q = 0; q < c->g.n; ++q) room += c->g.cp[q].iol_len;
        if(isterm[k]) {
            MC_CHECK(c->rc == -1 && c->err == EPIPE, "terminator", "the terminal message gave %zd (%s)", c->rc, strerror(c->err));
            ended = 1; gl_partial(&c->g, m.in[k].b, n);
        } else if(!c->drop && n > room) {
            MC_CHECK(c->rc == -1 && c->err == EMSGSIZE, "emsgsize", "message of %zu bytes into %s gave %zd (%s)", n, gl_str(&c->g), c->rc, strerror(c->err));
            gl_partial(&c->g, m.in[k].b, n); dead = 1;
        } else {
            MC_CHECK(c->rc == (ssize_t)n, "message", "message of %zu bytes into %s gave %zd (%s)", n, c->drop ? "-" : gl_str(&c->g), c->rc, c->rc < 0 ? strerror(c->err) : "ok");
            if(!c->drop) gl_expect(&c->g, m.in[k].b, n, 0);
        }
        k++;
        mc_state(mc_mix(mc_mix(tl, k), mc_mix(ended, dead)));
    }
    /* The other direction. */
    MC_CHECK(msend(g_s, "out", 3, -1) == 0, "other-direction", "msend: %s", strerror(errno));
    MC_CHECK(m.nout == 1 && m.out[0].n == 3 && !memcmp(m.out[0].b, "out", 3), "other-direction", "the message sent has changed");
    int u = mc_pick(2, "detach") ? term_detach(g_s, -1) : (hclose(g_s), -2);
    if(u != -2) {
        MC_CHECK(m.nout == 2 && m.out[1].n == (size_t)tl && !memcmp(m.out[1].b, t, tl), "detach", "detach has not sent the terminal message");
        if(ended) { MC_CHECK(u >= 0, "detach", "detach: %s", strerror(errno)); MC_CHECK(m.pos == k, "overread", "messages beyond the terminal one were received"); MC_CHECK(!m.closed, "detach", "detach closed the underlying socket"); hclose(u); }
        else MC_CHECK(u == -1, "detach", "detach succeeded without the terminal message of the peer");
    }
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
    for(int i = 0; i < nC; ++i) gl_free(&C[i].g);
}
/* Every sequence of operations. Messages arrive at even times, deadlines are odd. */
static struct { int op, rc, err; int64_t at; int done; int64_t from; } O[6]; static int nO; static int64_t dls[6]; static char obuf[6][64]; static int udetached;
static coroutine void ops_body(void) {
    for(int i = 0; i < nO; ++i) {
        errno = 0; O[i].from = now();
        switch(O[i].op) {
        case 0: O[i].rc = mrecv(g_s, obuf[i], 64, dls[i]); break;
        case 1: O[i].rc = msend(g_s, "data", 4, dls[i]); break;
        case 2: O[i].rc = term_done(g_s, dls[i]); break;
        case 3: O[i].rc = term_detach(g_s, dls[i]); break;
        }
        O[i].err = errno; O[i].at = now(); O[i].done = 1;
        mc_log("%s = %d (%s) at %ld", O[i].op == 0 ? "mrecv" : O[i].op == 1 ? "msend" : O[i].op == 2 ? "done" : "detach", O[i].rc, O[i].rc < 0 ? strerror(O[i].err) : "ok", (long)now());
    }
}
static void ops_(void) {
    const char *t = terms[mc_thorough ? mc_pick(2, "terminator") : 0]; int tl = strlen(t);
    g_s = attach(mm_open(&m), t, tl);
    int64_t t0 = now();
    int nm = mc_pick(4, "messages"), term = 99, nt; char b[64]; int64_t at = 0;
    for(int i = 0; i < nm; ++i) { int k = mc_pick(3, "message"); at += 2 * mc_pick(2, "delay"); int n = message(t, k == 2 ? 4 : k, b); if(k == 0 && term == 99) term = i; mm_feed(&m, b, n, t0 + at); }
    m.inend = mc_pick(2, "end") ? EPIPE : 0; m.inend_at = t0 + at + 2;
    m.outlimit = mc_pick(4, "sends"); if(m.outlimit == 3) m.outlimit = -1; else { int e[] = {0, EPIPE, ECONNRESET}; m.outend = e[mc_pick(mc_thorough ? 3 : 2, "then")]; }
    nO = mc_arg + mc_thorough; memset(O, 0, sizeof O); memset(obuf, 0, sizeof obuf);
    int n = 0;
    for(; n < nO; ++n) { O[n].op = mc_pick(4, "operation"); dls[n] = mc_pick(2, "deadline") ? t0 + 1 + 2 * n : -1; if(O[n].op == 3) { n++; break; } }
    nO = n;
    int h = go(ops_body());
    msleep(t0 + 30);
    hclose(h);
    /* Model. */
    int outdone = 0, outerr = 0, nout = 0, indone = 0, inerr = 0, pos = 0;
    int64_t tm = t0; int canceled = 0;
    for(int i = 0; i < nO; ++i) {
        int xe = 0, xrc = 0; int64_t dl = dls[i] < 0 ? INT64_MAX : dls[i];
        MC_CHECK(O[i].done, "hung", "operation %d has not returned", i);
        mc_step();
        #define SENDX do { if(outerr) xe = outerr; else if(nout == m.outlimit) { outerr = ECONNRESET; if(m.outend) xe = m.outend; else if(canceled) xe = ECANCELED; else { xe = dl == INT64_MAX ? ECANCELED : ETIMEDOUT; tm = dl == INT64_MAX ? t0 + 30 : dl > tm ? dl : tm; } if(xe == ECANCELED) canceled = 1; } else nout++; } while(0)
        #define RECVX(len) do { if(indone) xe = EPIPE; else if(inerr) xe = inerr; else { \
            int64_t a = pos < m.nin ? m.in[pos].at : m.inend ? m.inend_at : INT64_MAX; \
            if(a != INT64_MAX && (a <= tm || (!canceled && a <= dl))) { if(a > tm) tm = a; if(pos < m.nin) { int x = pos++; if(x == term) { indone = 1; xe = EPIPE; } else len = m.in[x].n; } else { xe = m.inend; inerr = EPIPE; } } \
            else if(canceled) { xe = ECANCELED; if(dl <= tm) xe = ETIMEDOUT; inerr = ECONNRESET; } else if(dl == INT64_MAX) { xe = ECANCELED; tm = t0 + 30; canceled = 1; inerr = ECONNRESET; } else { xe = ETIMEDOUT; tm = dl > tm ? dl : tm; inerr = ECONNRESET; } } } while(0)
        switch(O[i].op) {
        case 0: { int was = pos; RECVX(xrc); if(!xe) MC_CHECK(!memcmp(obuf[i], m.in[was].b, xrc), "message", "the message received differs"); break; }
        case 1: if(outdone) xe = EPIPE; else SENDX; break;
        case 2: if(outdone) xe = EPIPE; else { SENDX; if(!xe) outdone = 1; } break;
        case 3:
            if(!outdone) { SENDX; if(!xe) outdone = 1; }
            if(!xe) while(!indone && !xe) { RECVX(xrc); if(indone) xe = 0; }
            if(!xe) xrc = 0;
            break;
        }
        if(xe) {
            MC_CHECK(O[i].rc == -1, "false-success", "operation %d (%d) gave %d instead of %s", i, O[i].op, O[i].rc, strerror(xe));
            if(canceled) MC_CHECK(O[i].err == xe || O[i].err == ECANCELED || O[i].err == ETIMEDOUT, "errno", "operation %d (%d) gave %s instead of %s", i, O[i].op, strerror(O[i].err), strerror(xe));
            else MC_CHECK(O[i].err == xe, "errno", "operation %d (%d) gave %s instead of %s", i, O[i].op, strerror(O[i].err), strerror(xe));
        } else if(O[i].op == 3) MC_CHECK(O[i].rc >= 0, "result", "detach: %s", strerror(O[i].err));
        else MC_CHECK(O[i].rc == xrc, "result", "operation %d (%d) gave %d (%s) instead of %d", i, O[i].op, O[i].rc, strerror(O[i].err), xrc);
        mc_state(mc_mix(mc_mix(outdone * 2 + indone, outerr), mc_mix(inerr, pos)));
        mc_obs(xe * 100 + xrc);
        MC_CHECK(O[i].at == tm, "time", "operation %d (%d) ended at +%ld instead of +%ld", i, O[i].op, (long)(O[i].at - t0), (long)(tm - t0));
    }
    MC_CHECK(m.nout == nout, "sent", "%d messages were sent instead of %d", m.nout, nout);
    for(int i = 0; i < nout; ++i) {
        int last = outdone && i == nout - 1;
        MC_CHECK(m.out[i].n == (last ? tl : 4) && !memcmp(m.out[i].b, last ? t : "data", m.out[i].n), "sent", "message %d sent is wrong", i);
    }
    MC_CHECK(m.pos == pos, "received", "%d messages were taken instead of %d", m.pos, pos);
    if(nO && O[nO - 1].op == 3) {
        MC_CHECK(hclose(g_s) == -1 && errno == EBADF, "detach", "the handle is still there after detach");
        if(O[nO - 1].rc >= 0) { MC_CHECK(!m.closed, "detach", "detach closed the underlying socket"); hclose(O[nO - 1].rc); }
    } else hclose(g_s);
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
}
static void bad_(void) {
    struct term_storage st; int k = mc_pick(10, "call");
    int u = mm_open(&m), s, e;
    char big[40]; memset(big, 'x', 40);
    static struct mb bm;
    switch(k) {
    case 0: s = term_attach(u, NULL, 3); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "NULL terminator: %d %s", s, strerror(e)); break;
    case 1: s = term_attach_mem(u, "x", 1, NULL); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "NULL storage: %d %s", s, strerror(e)); break;
    case 2: s = term_attach(12345, "x", 1); e = errno; MC_CHECK(s == -1 && e == EBADF, "bad-args", "bad handle: %d %s", s, strerror(e)); hclose(u); break;
    case 3: { int b = mb_open(&bm); s = term_attach(b, "x", 1); e = errno; MC_CHECK(s == -1 && e == EPROTO, "bad-args", "attach to a bytestream: %d %s", s, strerror(e)); MC_CHECK(bm.closed == 1, "leak", "the underlying bytestream was closed %d times", bm.closed); hclose(u); break; }
    case 4: s = term_detach(u, -1); e = errno; MC_CHECK(s == -1 && e == ENOTSUP, "bad-args", "detach of another socket: %d %s", s, strerror(e)); if(!m.closed) hclose(u); break;
    case 5: s = term_attach(u, big, 33); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "length 33: %d %s", s, strerror(e)); break;
    case 6: s = term_attach(u, NULL, 0); MC_CHECK(s >= 0, "attach", "attach: %s", strerror(errno)); MC_CHECK(term_done(s, -1) == 0 && m.nout == 1 && m.out[0].n == 0, "done", "done"); MC_CHECK(term_done(s, -1) == -1 && errno == EPIPE, "done", "second done"); hclose(s); break;
    case 7: s = term_attach_mem(u, big, 32, &st); MC_CHECK(s >= 0, "attach", "attach_mem: %s", strerror(errno)); MC_CHECK(msend(s, "ab", 2, -1) == 0, "send", "msend"); mm_feed(&m, big, 32, 0); u = term_detach(s, -1); MC_CHECK(u >= 0, "detach", "detach"); MC_CHECK(m.nout == 2 && m.out[1].n == 32 && !memcmp(m.out[1].b, big, 32), "wire", "wire"); MC_CHECK(hclose(s) == -1 && errno == EBADF, "detach", "the handle is still there"); hclose(u); break;
    case 8: s = term_detach(12345, -1); e = errno; MC_CHECK(s == -1 && e == EBADF, "bad-args", "detach of a bad handle: %d %s", s, strerror(e)); hclose(u); break;
    case 9: s = term_done(u, -1); e = errno; MC_CHECK(s == -1 && e == ENOTSUP, "bad-args", "done of another socket: %d %s", s, strerror(e)); hclose(u); break;
    }
    MC_CHECK(m.closed == 1, "leak", "the underlying socket was closed %d times (call %d)", m.closed, k);
    mc_step(); mc_obs(k);
}
/* Both ends over PREFIX over IPC. */
static int P[2];
static struct { int n, how, got, end, rc, err; } E[2];
static coroutine void peer(int k) {
    for(int i = 0; i < E[k].n; ++i) { int rc = msend(P[k], i % 2 ? "STO!" : "TOP!", 4, -1); MC_CHECK(rc == 0, "pair-send", "msend: %s", strerror(errno)); }
    if(E[k].how == 1) MC_CHECK(term_done(P[k], -1) == 0, "pair-done", "done: %s", strerror(errno));
    if(E[k].how <= 1) while(1) {
        char b[8]; ssize_t n = mrecv(P[k], b, 8, -1);
        if(n < 0) { MC_CHECK(errno == EPIPE, "pair-end", "mrecv: %s", strerror(errno)); E[k].end = 1; break; }
        MC_CHECK(n == 4 && !memcmp(b, E[k].got % 2 ? "STO!" : "TOP!", 4), "pair-message", "wrong message");
        E[k].got++;
    }
    E[k].rc = term_detach(P[k], -1); E[k].err = errno;
    MC_CHECK(E[k].rc >= 0, "pair-detach", "detach: %s", strerror(E[k].err));
    if(E[k].how <= 1) MC_CHECK(E[k].got == E[1 - k].n, "pair-lost", "%d messages received instead of %d", E[k].got, E[1 - k].n);
    /* The peers agree on their position in the stream. */
    P[k] = E[k].rc;
    char b[8]; MC_CHECK(msend(P[k], "after", 5, -1) == 0, "pair-after", "msend"); 
    ssize_t n = mrecv(P[k], b, 8, -1); MC_CHECK(n == 5 && !memcmp(b, "after", 5), "pair-after", "message after detach: %zd", n);
    mc_step();
}
static void pair_(void) {
    vk.cap = 32; vk.short_rw = vk.eagain = 1;
    MC_CHECK(ipc_pair(P) == 0, "pair", "ipc_pair");
    memset(E, 0, sizeof E);
    for(int k = 0; k < 2; ++k) { P[k] = prefix_attach(P[k], 1, 0); P[k] = attach(P[k], "STOP", 4); E[k].n = mc_pick(3, "messages"); E[k].how = k ? mc_pick(3, "shutdown") : 1 + mc_pick(2, "shutdown"); }
    int b = bundle();
    for(int k = 0; k < 2; ++k) bundle_go(b, peer(k));
    MC_CHECK(bundle_wait(b, now() + 50) == 0, "hung", "the peers have not finished");
    hclose(b);
    for(int k = 0; k < 2; ++k) hclose(P[k]);
    mc_obs(E[0].got * 10 + E[1].got); mc_state(E[0].got * 10 + E[1].got);
}
struct mc_scn mc_scns[] = {
    {"recv1", "every message around the terminator, four terminators, every list of up to 3 items", recv_, 0, 0, 1},
    {"recv2", "two messages around the terminator", recv_, 0, 0, 2},
    {"recv3", "three messages around the terminator", recv_, -1, 0, 3},
    {"ops3", "every sequence of 3 (4) operations against every incoming script, failures, deadlines, cancellation", ops_, 0, 0, 3},
    {"bad", "invalid arguments and handles", bad_, 0, 0, 0},
    {"pair", "both ends over PREFIX over IPC, every split of reads and writes", pair_, 1, 2, 0},
    {0}};
