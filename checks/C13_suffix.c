/* C13: SUFFIX protocol. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include "iolgen.h"
#include <unistd.h>

const char *mc_property = "C13";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread; one sender and one receiver coroutine",
    "mock scenarios: the underlying bytestream is a mock that delivers, delays and fails at any byte; pair scenarios: an IPC connection over the virtual kernel, which may split any read or write",
    "streams over a two letter alphabet; the library does not check that an outgoing message does not contain the terminator (documented as the caller's duty)", NULL};

static struct mb m;
static int attach(int u, const void *t, int n) {
    int s = suffix_attach(u, t, n);
    MC_CHECK(s >= 0, "attach", "suffix_attach: %s", strerror(errno));
    return s;
}
static int pickword(char *b, int min, int max, const char *what) {
    int n = min + mc_pick(max - min + 1, what);
    for(int i = 0; i < n; ++i) b[i] = "ab"[mc_pick(2, what)];
    return n;
}
struct rcall { struct gl g; int drop; int64_t dl; ssize_t rc; int err, done; int64_t from; };
static struct rcall C[12]; static int nC, g_s;
static coroutine void recv_body(void) {
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i]; c->from = now(); errno = 0;
        c->rc = c->drop ? mrecvl(g_s, NULL, NULL, c->dl) : c->g.n == 1 && (c->g.total & 1) ? mrecv(g_s, c->g.base[0], c->g.total, c->dl) : mrecvl(g_s, GL_FIRST(&c->g), GL_LAST(&c->g), c->dl);
        c->err = errno; c->done = 1;
        mc_log("mrecvl %s = %zd (%s)", c->drop ? "-" : gl_str(&c->g), c->rc, c->rc < 0 ? strerror(c->err) : "ok");
    }
}
static ssize_t find(const uint8_t *p, size_t n, const char *t, size_t tl) {
    for(size_t i = 0; i + tl <= n; ++i) if(!memcmp(p + i, t, tl)) return i;
    return -1;
}
/* cut: offset at which the stream is delayed to +4 ms (or n) */
static void audit(const char *t, int tl, size_t cut, int endall, int64_t t0) {
    size_t pos = 0; int dead = 0;
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i];
        MC_CHECK(c->done, "hung", "mrecvl has not returned");
        gl_check(&c->g); mc_step();
        if(dead) { MC_CHECK(c->rc == -1 && (c->err == ECONNRESET || (c->err == EPIPE && dead == EPIPE)), "after-failure", "mrecvl after a failed one gave %zd (%s)", c->rc, strerror(c->err)); gl_expect(&c->g, m.in, 0, 0); continue; }
        ssize_t f = find(m.in + pos, m.nin - pos, t, tl);
        size_t room = 0; for(int k = 0; k < c->g.n; ++k) room += c->g.cp[k].iol_len;
        int fail = m.inend ? m.inend : c->dl < 0 ? ECANCELED : ETIMEDOUT;
        int64_t dl = c->dl < 0 ? INT64_MAX : c->dl;
        /* How much has to be seen before the outcome is known for sure. */
        if(f >= 0 && (c->drop || room >= (size_t)f)) {
            size_t need = pos + f + tl;
            if(need > cut && c->from < t0 + 4 && t0 + 4 > dl) { MC_CHECK(c->rc == -1 && c->err == ETIMEDOUT, "deadline", "mrecvl gave %zd (%s) instead of ETIMEDOUT", c->rc, strerror(c->err)); gl_partial(&c->g, m.in + pos, f); dead = 1; continue; }
            MC_CHECK(c->rc >= 0, "result", "mrecvl %s: %s, expected the %zd bytes at %zu of %.*s (terminator %.*s)", c->drop ? "-" : gl_str(&c->g), strerror(c->err), f, pos, (int)m.nin, m.in, tl, t);
            MC_CHECK(c->rc == f, "size", "mrecvl gave %zd instead of %zd at %zu of %.*s (terminator %.*s)", c->rc, f, pos, (int)m.nin, m.in, tl, t);
            if(!c->drop) gl_expect(&c->g, m.in + pos, f, 0);
            pos += f + tl;
            mc_state(mc_mix(mc_hash(m.in + pos - f - tl, f, tl), i));
            continue;
        }
        /* A failure: too long, or the end of the stream. Whichever is noticed
           first; a message that is too long is one even if its end is not seen. */
        MC_CHECK(c->rc == -1, "false-success", "mrecvl gave %zd at %zu of %.*s (terminator %.*s)", c->rc, pos, (int)m.nin, m.in, tl, t);
        int toolong = !c->drop && (f >= 0 ? (size_t)f > room : m.nin - pos > room);
        int ended = f < 0;
        int certain = toolong && (f >= 0 || m.nin - pos >= room + tl);
        int late = cut < m.nin && c->from < t0 + 4 && t0 + 4 > dl;
        MC_CHECK((toolong && c->err == EMSGSIZE) || (ended && !certain && c->err == fail) || (late && c->err == ETIMEDOUT), "errno", "mrecvl %s at %zu of %.*s (terminator %.*s) gave %s", c->drop ? "-" : gl_str(&c->g), pos, (int)m.nin, m.in, tl, t, strerror(c->err));
        gl_partial(&c->g, m.in + pos, m.nin - pos);
        dead = c->err;
        mc_state(mc_mix(dead, i));
    }
    int u = mc_pick(2, "detach") ? suffix_detach(g_s, -1) : (hclose(g_s), -2);
    if(u != -2) {
        if(dead) MC_CHECK(u == -1 && errno == ECONNRESET, "detach", "detach after a failure gave %d (%s)", u, strerror(errno));
        else { MC_CHECK(u >= 0, "detach", "detach: %s", strerror(errno)); MC_CHECK(!m.closed, "detach", "closed"); MC_CHECK(m.pos == pos, "overread", "%zu bytes were consumed beyond the last message", m.pos - pos); hclose(u); }
    }
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
    for(int i = 0; i < nC; ++i) { mc_obs(C[i].rc); gl_free(&C[i].g); }
}
static void buf1(struct gl *g, int n) { gl_build(g, 1, &n, NULL); }
/* Every stream, roomy buffers. */
static void streams(void) {
    char t[4]; int maxt = mc_arg >> 8, maxs = mc_arg & 255; if(mc_thorough) maxs += 3;
    int tl = pickword(t, 1, maxt, "terminator");
    g_s = attach(mb_open(&m), t, tl);
    char w[20]; int n = pickword(w, maxs, maxs, "stream"); mb_feed(&m, w, n); m.inend = EPIPE;
    nC = maxs + 2; if(nC > 12) nC = 12; memset(C, 0, sizeof C);
    int drop = mc_pick(3, "drop");
    for(int i = 0; i < nC; ++i) { C[i].dl = -1; buf1(&C[i].g, maxs + 1); C[i].drop = drop == 1 || (drop == 2 && i % 2); }
    recv_body();
    audit(t, tl, n, 1, now());
}
/* Every list shape. */
static void shapes(void) {
    static const char *st[] = {"ab", "aab", "abaab", "aaaab", "b", "aabaaab", "bab", "aaaaaaa"};
    static const char *tt[] = {"b", "ab", "aab", "aba"};
    static const int l[] = {2, 0, 1, 5};
    int k = mc_pick(4, "terminator"); int tl = strlen(tt[k]);
    g_s = attach(mb_open(&m), tt[k], tl);
    const char *w = st[mc_pick(8, "stream")]; mb_str(&m, w); m.inend = mc_pick(2, "end") ? ECONNRESET : EPIPE;
    nC = 3; memset(C, 0, sizeof C);
    gl_pick(&C[0].g, mc_thorough ? 4 : 3, l, mc_thorough ? 4 : 3, 1); C[0].dl = -1;
    gl_pick(&C[1].g, 2, l, 3, 0); C[1].dl = -1;
    buf1(&C[2].g, 10); C[2].dl = -1;
    recv_body();
    audit(tt[k], tl, m.nin, 1, now());
}
/* Delays and ends at each byte. */
static void cuts(void) {
    static const char *st[] = {"abab", "aabaab", "aab", "babab", "abbab"};
    static const char *tt[] = {"b", "ab", "aab"};
    int k = mc_pick(3, "terminator"); int tl = strlen(tt[k]);
    g_s = attach(mb_open(&m), tt[k], tl);
    const char *w = st[mc_pick(5, "stream")]; mb_str(&m, w);
    size_t c = mc_pick(m.nin + 1, "cut"), cut = m.nin; int e = mc_pick(4, "then");
    int64_t t0 = now();
    if(e == 0) { m.arr[0].upto = c; m.arr[0].at = t0 + 4; m.narr = 1; cut = c; }
    else { m.nin = c; m.inend = e == 1 ? 0 : e == 2 ? EPIPE : ECONNRESET; cut = c; }
    nC = 4; memset(C, 0, sizeof C);
    static const int l[] = {2, 1, 5};
    for(int i = 0; i < nC; ++i) {
        C[i].dl = i < 2 ? (mc_pick(2, "deadline") ? t0 + 2 : -1) : t0 + 6;
        int n = l[i < 2 ? mc_pick(3, "buffer") : 2]; buf1(&C[i].g, n);
        if(i < 2) C[i].drop = n == 5 && mc_pick(2, "drop");
    }
    int h = go(recv_body());
    msleep(t0 + 20); hclose(h);
    audit(tt[k], tl, cut, 0, t0);
}
/* Terminators of every length; bytes of every value. */
static void lengths(void) {
    char t[33]; int tl = 1 + mc_pick(32, "terminator");
    int kind = mc_pick(4, "kind");
    for(int i = 0; i < tl; ++i) t[i] = kind == 0 ? 'a' : kind == 1 ? (i == tl - 1 ? 'b' : 'a') : kind == 2 ? (i == 0 ? 'b' : 'a') : (char)(i * 37 + 200);
    g_s = attach(mb_open(&m), t, tl);
    char msg[128]; int ml = 0;
    int pre = mc_pick(tl + 1, "prefix"); /* a part of the terminator before the real one */
    memcpy(msg, t, pre); ml = pre; if(mc_pick(2, "separator")) { msg[ml++] = 'c'; }
    memcpy(msg + ml, t, tl); ml += tl;
    int rep = mc_pick(2, "again"); if(rep) { msg[ml++] = 0; memcpy(msg + ml, t, tl); ml += tl; }
    mb_feed(&m, msg, ml); m.inend = EPIPE;
    nC = 4; memset(C, 0, sizeof C);
    for(int i = 0; i < nC; ++i) { C[i].dl = -1; buf1(&C[i].g, 64); }
    recv_body();
    audit(t, tl, ml, 1, now());
}
/* ---- sending ---- */
static struct gl G[4]; static struct {int rc, err, done;} R[4];
static coroutine void send_body(int n, int64_t dl) {
    for(int i = 0; i < n; ++i) { errno = 0; R[i].rc = G[i].n == 1 && mc_arg ? msend(g_s, G[i].base[0], G[i].total, dl) : msendl(g_s, GL_FIRST(&G[i]), GL_LAST(&G[i]), dl); R[i].err = errno; R[i].done = 1; mc_log("msendl %s = %d (%s)", gl_str(&G[i]), R[i].rc, strerror(R[i].err)); }
}
static void send_(void) {
    int tls[] = {1, 2, 32}; int tl = tls[mc_pick(3, "terminator")]; char t[32]; memset(t, 'T', 32); t[tl - 1] = 'X';
    g_s = attach(mb_open(&m), t, tl);
    memset(R, 0, sizeof R);
    static const int lens[] = {0, 2, 1, 300};
    size_t total = 0, ends[3]; int n = 2; static uint8_t want[4096];
    for(int i = 0; i < n; ++i) {
        gl_pick(&G[i], 3 - i, lens, i ? 3 : 4, 0); gl_fill(&G[i], 5 * i);
        for(size_t k = 0; k < G[i].total; ++k) want[total++] = gl_pat(5 * i + k);
        memcpy(want + total, t, tl); total += tl; ends[i] = total;
    }
    int w = mc_pick(total < 40 ? total + 1 : 3, "limit"); m.outlimit = total < 40 ? (size_t)w : w == 0 ? total : w == 1 ? 299 : ends[0] - 1;
    if(m.outlimit == total) m.outlimit = (size_t)-1;
    int e[] = {0, ECONNRESET, EPIPE}; m.outend = m.outlimit == (size_t)-1 ? 0 : e[mc_pick(3, "then")];
    int64_t t0 = now(), dl = mc_pick(2, "deadline") ? t0 + 10 : -1;
    int h = go(send_body(n, dl));
    msleep(t0 + 20); hclose(h);
    int dead = 0;
    for(int i = 0; i < n; ++i) {
        MC_CHECK(R[i].done, "hung", "msendl did not return");
        gl_check(&G[i]); mc_step();
        if(dead) { MC_CHECK(R[i].rc == -1 && (R[i].err == ECONNRESET || R[i].err == EPIPE), "after-failure", "msendl after a failed one gave %d (%s)", R[i].rc, strerror(R[i].err)); continue; }
        if(ends[i] <= m.outlimit) MC_CHECK(R[i].rc == 0, "send", "msendl: %s", strerror(R[i].err));
        else {
            int x = m.outend ? m.outend : dl < 0 ? ECANCELED : ETIMEDOUT;
            MC_CHECK(R[i].rc == -1 && R[i].err == x, "errno", "msendl gave %d (%s) instead of %s", R[i].rc, strerror(R[i].err), strerror(x));
            dead = 1;
        }
    }
    MC_CHECK(m.nout <= total && (dead || m.nout == total), "wire", "%zu bytes written, not %zu", m.nout, total);
    for(size_t i = 0; i < m.nout; ++i) MC_CHECK(m.out[i] == want[i], "wire", "byte %zu is %02x instead of %02x", i, m.out[i], want[i]);
    int u = mc_pick(2, "detach") ? suffix_detach(g_s, -1) : (hclose(g_s), -2);
    if(u != -2) {
        if(dead) MC_CHECK(u == -1 && errno == ECONNRESET, "detach", "detach after a failure gave %d (%s)", u, strerror(errno));
        else { MC_CHECK(u >= 0, "detach", "detach: %s", strerror(errno)); hclose(u); }
    }
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
    for(int i = 0; i < n; ++i) gl_free(&G[i]);
    mc_state(mc_mix(m.outlimit, dead)); mc_obs(m.nout);
}
static void bad_(void) {
    struct suffix_storage st; int k = mc_pick(9, "call");
    int u = mb_open(&m), s, e;
    char big[40]; memset(big, 'x', 40);
    switch(k) {
    case 0: s = suffix_attach(u, "x", 0); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "length 0: %d %s", s, strerror(e)); break;
    case 1: s = suffix_attach_mem(u, "x", 1, NULL); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "NULL storage: %d %s", s, strerror(e)); break;
    case 2: s = suffix_attach(12345, "x", 1); e = errno; MC_CHECK(s == -1 && e == EBADF, "bad-args", "bad handle: %d %s", s, strerror(e)); hclose(u); break;
    case 3: u = suffix_attach(u, "x", 1); s = suffix_attach(u, "x", 1); e = errno; MC_CHECK(s == -1 && e == EPROTO, "bad-args", "attach to messages: %d %s", s, strerror(e)); break;
    case 4: s = suffix_detach(u, -1); e = errno; MC_CHECK(s == -1 && e == ENOTSUP, "bad-args", "detach of a bytestream: %d %s", s, strerror(e)); if(!m.closed) hclose(u); break;
    case 5: s = suffix_attach(u, big, 33); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "length 33: %d %s", s, strerror(e)); break;
    case 6: s = suffix_attach(u, NULL, 3); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "NULL terminator: %d %s", s, strerror(e)); break;
    case 7: s = suffix_attach_mem(u, big, 32, &st); MC_CHECK(s >= 0, "attach", "attach_mem: %s", strerror(errno)); MC_CHECK(msend(s, "ab", 2, -1) == 0, "send", "msend"); MC_CHECK(m.nout == 34 && !memcmp(m.out, "ab", 2) && !memcmp(m.out + 2, big, 32), "wire", "wire"); u = suffix_detach(s, -1); MC_CHECK(u >= 0, "detach", "detach"); MC_CHECK(hclose(s) == -1 && errno == EBADF, "detach", "the handle is still there"); hclose(u); break;
    case 8: s = suffix_detach(12345, -1); e = errno; MC_CHECK(s == -1 && e == EBADF, "bad-args", "detach of a bad handle: %d %s", s, strerror(e)); hclose(u); break;
    }
    MC_CHECK(m.closed == 1, "leak", "the underlying socket was closed %d times (call %d)", m.closed, k);
    mc_step(); mc_obs(k);
}
/* ---- over a connection ---- */
static int P[2];
static coroutine void pair_sender(int n) { for(int i = 0; i < n; ++i) { R[i].rc = msendl(P[0], GL_FIRST(&G[i]), GL_LAST(&G[i]), -1); R[i].err = errno; R[i].done = 1; } }
static void pair_(void) {
    static const char *tt[] = {"\n", "\r\n", "aab"};
    const char *t = tt[mc_arg];
    vk.cap = 4; vk.short_rw = vk.eagain = 1;
    MC_CHECK(ipc_pair(P) == 0, "pair", "ipc_pair");
    P[0] = attach(P[0], t, strlen(t)); P[1] = attach(P[1], t, strlen(t));
    static const int l0[] = {3, 0, 5}, l1[] = {4, 0, 1};
    memset(R, 0, sizeof R); int n = 2; nC = n; memset(C, 0, sizeof C);
    uint8_t p[64]; for(int i = 0; i < 64; ++i) p[i] = i % 3 ? 'c' : 'a';
    for(int i = 0; i < n; ++i) { gl_pick(&G[i], 2 - i, l0, 3, 0); size_t q = 0; for(int k = 0; k < G[i].n; ++k) for(int j = 0; j < (int)G[i].cp[k].iol_len; ++j) G[i].base[k][j] = p[q++]; }
    for(int i = 0; i < n; ++i) { gl_pick(&C[i].g, 2, l1, 2, 1); C[i].dl = -1; }
    int h = go(pair_sender(n));
    g_s = P[1];
    int h2 = go(recv_body());
    msleep(now() + 30);
    hclose(h); hclose(h2);
    int dead = 0;
    for(int i = 0; i < n; ++i) {
        gl_check(&G[i]); gl_check(&C[i].g); MC_CHECK(C[i].done, "hung", "mrecvl %d has not returned", i);
        if(dead) { MC_CHECK(C[i].rc == -1 && C[i].err == ECONNRESET, "after-failure", "mrecvl gave %zd", C[i].rc); continue; }
        if(C[i].g.total < G[i].total) { MC_CHECK(C[i].rc == -1 && C[i].err == EMSGSIZE, "emsgsize", "mrecvl gave %zd (%s)", C[i].rc, strerror(C[i].err)); dead = 1; continue; }
        MC_CHECK(R[i].done && R[i].rc == 0, "send", "msendl %d: %s", i, strerror(R[i].err));
        MC_CHECK(C[i].rc == (ssize_t)G[i].total, "size", "mrecvl gave %zd instead of %zu", C[i].rc, G[i].total);
        gl_expect(&C[i].g, p, G[i].total, 0); mc_step(); mc_state(mc_mix(i, G[i].total));
    }
    for(int i = 0; i < n; ++i) { gl_free(&G[i]); gl_free(&C[i].g); }
    hclose(P[0]); hclose(P[1]); mc_obs(dead);
}
struct mc_scn mc_scns[] = {
    {"streams", "every stream of 9 letters (12 thorough) with every terminator of 1-3 letters over {a,b}; received or dropped", streams, 0, 0, 3 << 8 | 9},
    {"streams4", "same with terminators of up to 4 letters, streams of 10", streams, 0, 0, 4 << 8 | 10},
    {"shapes", "8 streams, 4 terminators, every list of up to 3 items with NULL and empty ones", shapes, 0, 0, 0},
    {"cuts", "the stream is delayed, ends or fails at every byte; deadlines and cancellation", cuts, 0, 0, 0},
    {"lengths", "terminators of every length 1-32, self overlapping or not, after every part of itself", lengths, 0, 0, 0},
    {"send", "two messages in every list shape, the socket failing or blocking at every byte", send_, 0, 0, 0},
    {"bad", "invalid arguments and handles", bad_, 0, 0, 0},
    {"pair-lf", "two messages over an IPC pair, every way to split reads and writes", pair_, 1, 3, 0},
    {"pair-crlf", "same, terminator of two bytes", pair_, 1, 2, 1},
    {"pair-aab", "same, terminator overlapping the payload", pair_, 1, 2, 2},
    {0}};
