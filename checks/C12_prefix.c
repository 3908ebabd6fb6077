/* C12: PREFIX protocol. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include "iolgen.h"
#include <unistd.h>

const char *mc_property = "C12";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread; one sender and one receiver coroutine",
    "mock scenarios: the underlying bytestream is a mock that delivers, delays and fails at any byte; pair scenarios: a TCP or IPC connection over the virtual kernel, which may split any read or write",
    "incoming sizes beyond 2^63 are not examined with the dropping form of mrecvl", NULL};

static struct mb m;
static uint8_t pat[1 << 18];
static void begin(void) { if(!pat[1]) for(size_t i = 0; i < sizeof pat; ++i) pat[i] = gl_pat(i); }
static void header(uint8_t *h, int hdrlen, int le, uint64_t sz) {
    for(int i = 0; i < hdrlen; ++i) h[le ? i : hdrlen - 1 - i] = i < 8 ? sz >> (8 * i) & 255 : 0;
}
static int attach(int u, int hdrlen, int le) {
    int s = prefix_attach(u, hdrlen, le ? PREFIX_LITTLE_ENDIAN : PREFIX_BIG_ENDIAN);
    MC_CHECK(s >= 0, "attach", "prefix_attach: %s", strerror(errno));
    return s;
}

/* ---- what is written ---- */
static const int szs[] = {0, 1, 3, 254, 255, 256, 257, 65535, 65536, 70000};
static void send_(void) {
    begin();
    int hdrlen = 1 + mc_pick(mc_thorough ? 9 : 8, "hdrlen"), le = mc_pick(2, "little endian");
    int s = attach(mb_open(&m), hdrlen, le);
    size_t exp = 0; static uint8_t want[1 << 18];
    int nm = mc_arg;
    for(int k = 0; k < nm; ++k) {
        /* A message of a given size cut into up to three items. */
        int total = szs[mc_pick(nm == 1 ? 10 : 4, "size")];
        if(nm > 1 && total == 254) total = 256;
        struct gl g; int len[3] = {0}, n = 1 + mc_pick(3, "items");
        if(n == 1) len[0] = total;
        else {
            int cut[] = {0, 1, total / 2, total - 1, total};
            int a = cut[mc_pick(total > 1 ? 5 : total + 1, "cut")]; if(a < 0) a = 0; if(a > total) a = total;
            len[0] = a; len[1] = total - a;
            if(n == 3) { int w = mc_pick(3, "third"); if(w == 0) { len[2] = len[1]; len[1] = 0; } else if(w == 1) len[2] = 0; else if(len[1]) { len[2] = 1; len[1]--; } }
        }
        gl_build(&g, n, len, NULL); gl_fill(&g, k * 100);
        size_t before = m.nout;
        mc_log("msend %s, header of %d", gl_str(&g), hdrlen);
        int simple = n == 1 && mc_pick(2, "msend");
        errno = 0;
        int rc = simple ? msend(s, g.base[0], total, -1) : msendl(s, GL_FIRST(&g), GL_LAST(&g), -1);
        int err = errno;
        gl_check(&g); mc_step();
        int fits = hdrlen >= 3 || (uint64_t)total < (1ULL << (8 * hdrlen));
        if(!fits) {
            MC_CHECK(rc == -1 && err == EMSGSIZE, "unencodable", "msend of %d bytes with a header of %d gave %d (%s)", total, hdrlen, rc, strerror(err));
            MC_CHECK(m.nout == before, "unencodable", "bytes were written for a message that cannot be encoded");
        } else {
            MC_CHECK(rc == 0, "send", "msend of %d bytes: %s", total, strerror(err));
            header(want + exp, hdrlen, le, total); exp += hdrlen;
            for(int i = 0; i < total; ++i) want[exp++] = gl_pat(k * 100 + i);
        }
        gl_free(&g);
        mc_state(mc_mix(mc_mix(hdrlen * 2 + le, total), fits));
    }
    MC_CHECK(m.nout == exp, "wire", "%zu bytes were written instead of %zu", m.nout, exp);
    for(size_t i = 0; i < exp; ++i) MC_CHECK(m.out[i] == want[i], "wire", "byte %zu on the wire is %02x instead of %02x", i, m.out[i], want[i]);
    mc_obs(exp);
    int how = mc_pick(2, "detach");
    if(how) { int u = prefix_detach(s); MC_CHECK(u >= 0, "detach", "detach: %s", strerror(errno)); MC_CHECK(!m.closed, "detach", "detach closed the underlying socket"); hclose(u); }
    else hclose(s);
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
}
/* Sending fails or blocks at any byte. */
static int g_s; static struct {int rc, err, done; int64_t at;} R[4];
static struct gl G[4];
static coroutine void send_body(int n, int64_t dl) {
    for(int i = 0; i < n; ++i) { errno = 0; R[i].rc = msendl(g_s, GL_FIRST(&G[i]), GL_LAST(&G[i]), dl); R[i].err = errno; R[i].at = now(); R[i].done = 1; mc_log("msendl %s = %d (%s)", gl_str(&G[i]), R[i].rc, strerror(R[i].err)); }
}
static void send_fail(void) {
    begin();
    int hl[] = {1, 2, 8}; int hdrlen = hl[mc_pick(3, "hdrlen")];
    g_s = attach(mb_open(&m), hdrlen, 0);
    memset(R, 0, sizeof R);
    static const int lens[] = {0, 2, 1};
    size_t total = 0, ends[3];
    for(int i = 0; i < 2; ++i) { gl_pick(&G[i], 2, lens, 3, 0); gl_fill(&G[i], 0); total += hdrlen + G[i].total; ends[i] = total; }
    { int l = 1; gl_build(&G[2], 1, &l, NULL); gl_fill(&G[2], 0); ends[2] = total + hdrlen + 1; }
    m.outlimit = mc_pick(total + 1, "limit");
    int e[] = {0, ECONNRESET, EPIPE}; m.outend = e[mc_pick(3, "then")];
    int64_t dl = mc_pick(2, "deadline") ? now() + 10 : -1;
    int64_t t0 = now();
    int h = go(send_body(3, dl));
    msleep(t0 + 20);
    hclose(h);
    int dead = 0;
    for(int i = 0; i < 3; ++i) {
        MC_CHECK(R[i].done, "hung", "msendl did not return");
        gl_check(&G[i]); mc_step();
        if(dead) { MC_CHECK(R[i].rc == -1, "after-failure", "msendl after a failed one succeeded"); MC_CHECK(R[i].err == ECONNRESET || R[i].err == EPIPE, "after-failure", "msendl after a failed one: %s", strerror(R[i].err)); continue; }
        if(ends[i] <= m.outlimit) MC_CHECK(R[i].rc == 0, "send", "msendl: %s", strerror(R[i].err));
        else {
            int x = m.outend ? m.outend : dl < 0 ? ECANCELED : ETIMEDOUT;
            MC_CHECK(R[i].rc == -1, "false-success", "msendl succeeded but only %zu bytes were taken", m.outlimit);
            MC_CHECK(R[i].err == x, "errno", "msendl gave %s instead of %s", strerror(R[i].err), strerror(x));
            dead = 1;
        }
    }
    size_t p = 0;
    for(int i = 0; i < 3 && p < m.nout; ++i) {
        uint8_t hd[8]; header(hd, hdrlen, 0, G[i].total);
        for(int k = 0; k < hdrlen && p < m.nout; ++k) { MC_CHECK(m.out[p] == hd[k], "wire", "header byte %02x", m.out[p]); p++; }
        for(size_t k = 0; k < G[i].total && p < m.nout; ++k) { MC_CHECK(m.out[p] == gl_pat(k), "wire", "payload byte"); p++; }
    }
    MC_CHECK(p == m.nout, "wire", "more bytes written than expected");
    int u = mc_pick(2, "detach") ? prefix_detach(g_s) : (hclose(g_s), -2);
    if(u != -2) {
        if(dead) MC_CHECK(u == -1 && errno == ECONNRESET, "detach", "detach after a failure gave %d (%s)", u, strerror(errno));
        else { MC_CHECK(u >= 0, "detach", "detach: %s", strerror(errno)); hclose(u); }
    }
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
    for(int i = 0; i < 3; ++i) gl_free(&G[i]);
    mc_state(mc_mix(m.outlimit, dead)); mc_obs(m.nout);
}

/* ---- what is read ---- */
struct rcall { struct gl g; int drop; int64_t dl; ssize_t rc; int err, done; int64_t at; };
static struct rcall C[4]; static int nC;
static coroutine void recv_body(void) {
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i]; errno = 0;
        c->rc = c->drop ? mrecvl(g_s, NULL, NULL, c->dl) : c->g.n == 1 && (c->g.total & 1) ? mrecv(g_s, c->g.base[0], c->g.total, c->dl) : mrecvl(g_s, GL_FIRST(&c->g), GL_LAST(&c->g), c->dl);
        c->err = errno; c->at = now(); c->done = 1;
        mc_log("mrecvl %s = %zd (%s)", c->drop ? "-" : gl_str(&c->g), c->rc, c->rc < 0 ? strerror(c->err) : "ok");
    }
}
static void recv_(void) {
    begin();
    int mode = mc_arg;
    static const int hl0[] = {1, 2, 3, 4, 7, 8}, hl1[] = {1, 3, 8};
    int hdrlen = mode == 0 ? hl0[mc_pick(6, "hdrlen")] : mode == 2 ? 2 + 6 * mc_pick(2, "hdrlen") : hl1[mc_pick(mc_thorough ? 3 : 2, "hdrlen")], le = mode == 1 ? 0 : mc_pick(2, "little endian");
    g_s = attach(mb_open(&m), hdrlen, le);
    /* Messages. */
    static const int ms[] = {0, 1, 3, 2}; static const int big[] = {255, 256, 300, 70000};
    int nm = mode == 1 ? 2 : mode == 2 ? 2 : 1 + mc_pick(3, "messages"); size_t start[4], len[4], pos = 0;
    for(int i = 0; i < nm; ++i) {
        len[i] = mode == 2 ? (i ? 2 : big[mc_pick(hdrlen == 1 ? 1 : hdrlen == 2 ? 3 : 4, "size")]) : ms[mc_pick(mode == 1 ? 3 : 3, "size")];
        uint8_t hd[8]; header(hd, hdrlen, le, len[i]); start[i] = pos;
        mb_feed(&m, hd, hdrlen); mb_feed(&m, pat + 10 * i, len[i]); pos += hdrlen + len[i];
    }
    size_t cut = pos; int64_t arr = 0;
    if(mode == 1) {
        /* The stream is delayed or ends at any byte. */
        size_t c = mc_pick(pos + 1, "cut");
        int e = mc_pick(4, "then");
        if(e == 0) { m.arr[0].upto = c; m.arr[0].at = now() + 4; m.narr = 1; arr = now() + 4; cut = c; }
        else { m.nin = c; cut = c; m.inend = e == 1 ? 0 : e == 2 ? EPIPE : ECONNRESET; }
    } else m.inend = EPIPE;
    /* Calls. */
    static const int rl[] = {3, 0, 1}; static const int rb[] = {254, 1, 100, 0};
    nC = nm + 1; memset(C, 0, sizeof C);
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i];
        if(i == nm) { int one = 4; gl_build(&c->g, 1, &one, NULL); }
        else {
            c->drop = mc_pick(2, "drop");
            if(c->drop) { int one = 1; gl_build(&c->g, 1, &one, NULL); }
            else if(mode == 2) { if(i) { int one = 2; gl_build(&c->g, 1, &one, NULL); } else if(len[i] > 300) { int l[] = {69999, 1}; gl_build(&c->g, 1 + mc_pick(2, "items"), l, NULL); } else gl_pick(&c->g, 3, rb, 4, 1); }
            else gl_pick(&c->g, mode ? (i == 0 ? mc_thorough ? 3 : 2 : 1) : nm == 1 ? 3 : nm == 2 ? 2 - i : 1, rl, mode && !mc_thorough ? 2 : 3, i == 0);
        }
        c->dl = mode == 1 && i == 0 ? (mc_pick(2, "deadline") ? now() + 2 : -1) : mode == 1 ? now() + 6 : -1;
    }
    int64_t t0 = now();
    int h = go(recv_body());
    msleep(t0 + 20); hclose(h);
    int dead = 0;
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i];
        MC_CHECK(c->done, "hung", "mrecvl has not returned");
        gl_check(&c->g); mc_step();
        if(dead) { MC_CHECK(c->rc == -1 && (c->err == ECONNRESET || (c->err == EPIPE && dead == EPIPE)), "after-failure", "mrecvl after a failed one gave %zd (%s)", c->rc, strerror(c->err)); gl_expect(&c->g, pat, 0, 0); continue; }
        /* Is everything this call needs there? */
        int have_hdr = i < nm && start[i] + hdrlen <= (arr ? pos : m.nin);
        size_t room = 0; for(int k = 0; k < c->g.n; ++k) room += c->g.cp[k].iol_len;
        int64_t dl = c->dl < 0 ? INT64_MAX : c->dl;
        int64_t hdr_at = i < nm && arr && start[i] + hdrlen > cut ? arr : 0, all_at = i < nm && arr && start[i] + hdrlen + len[i] > cut ? arr : 0;
        int xrc = -1, xe;
        int fail = m.inend ? m.inend : dl == INT64_MAX ? ECANCELED : ETIMEDOUT;
        if(!have_hdr) xe = fail;
        else if(hdr_at > dl) xe = ETIMEDOUT;
        else if(!c->drop && room < len[i]) xe = EMSGSIZE;
        else if(start[i] + hdrlen + len[i] > (arr ? pos : m.nin)) xe = fail;
        else if(all_at > dl) xe = ETIMEDOUT;
        else { xe = 0; xrc = len[i]; }
        if(xe == 0) {
            MC_CHECK(c->rc == xrc, c->rc < 0 ? "result" : "size", "mrecvl %s gave %zd (%s) instead of %d", c->drop ? "-" : gl_str(&c->g), c->rc, c->rc < 0 ? strerror(c->err) : "ok", xrc);
            if(!c->drop) gl_expect(&c->g, pat + 10 * i, len[i], 0);
        } else {
            MC_CHECK(c->rc == -1, "false-success", "mrecvl gave %zd instead of %s", c->rc, strerror(xe));
            MC_CHECK(c->err == xe, "errno", "mrecvl gave %s instead of %s", strerror(c->err), strerror(xe));
            if(!c->drop) gl_partial(&c->g, pat + 10 * i, i < nm && xe != EMSGSIZE ? len[i] : 0);
            dead = xe;
        }
        mc_state(mc_mix(mc_mix(i, xe), xrc));
    }
    int u = mc_pick(2, "detach") ? prefix_detach(g_s) : (hclose(g_s), -2);
    if(u != -2) {
        if(dead) MC_CHECK(u == -1 && errno == ECONNRESET, "detach", "detach after a failure gave %d (%s)", u, strerror(errno));
        else { MC_CHECK(u >= 0, "detach", "detach: %s", strerror(errno)); MC_CHECK(!m.closed, "detach", "closed"); hclose(u); }
    }
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
    for(int i = 0; i < nC; ++i) { mc_obs(C[i].rc); gl_free(&C[i].g); }
}
/* Huge announced sizes. */
static void huge_(void) {
    begin();
    int hdrlen = 8 - mc_pick(5, "hdrlen"), le = mc_pick(2, "little endian");
    g_s = attach(mb_open(&m), hdrlen, le);
    uint64_t v[] = {1ULL << 63, ~0ULL, (1ULL << 32), (1ULL << 32) + 3, 0x7fffffffffffffffULL, 1ULL << 31, 0xffffffff, (1ULL << 56) + 1, (1ULL << 48), (1ULL << 40) + 2};
    uint64_t z = v[mc_pick(10, "size")] & (hdrlen == 8 ? ~0ULL : (1ULL << (8 * hdrlen)) - 1);
    if(z < 100) { mc_trivial(); hclose(g_s); return; }
    uint8_t hd[8]; header(hd, hdrlen, le, z); mb_feed(&m, hd, hdrlen); mb_feed(&m, pat, 64); m.inend = ECONNRESET;
    struct gl g; static const int l[] = {4, 1, 0}; gl_pick(&g, 2, l, 3, 1);
    ssize_t rc = mrecvl(g_s, GL_FIRST(&g), GL_LAST(&g), -1); int err = errno;
    gl_check(&g);
    MC_CHECK(rc == -1 && err == EMSGSIZE, "huge", "a message of %llu bytes into %s gave %zd (%s)", (unsigned long long)z, gl_str(&g), rc, strerror(err));
    gl_expect(&g, pat, 0, 0); gl_free(&g);
    rc = mrecv(g_s, hd, 8, -1);
    MC_CHECK(rc == -1 && errno == ECONNRESET, "after-failure", "mrecv after EMSGSIZE gave %zd", rc);
    hclose(g_s); mc_step(); mc_state(z); mc_obs(err);
}
/* Bad calls. */
static void bad_(void) {
    begin();
    struct prefix_storage st; int k = mc_pick(7, "call");
    int u = mb_open(&m), s, e = errno;
    switch(k) {
    case 0: s = prefix_attach(u, 0, 0); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "hdrlen 0: %d %s", s, strerror(e)); break;
    case 1: s = prefix_attach_mem(u, 2, 0, NULL); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "NULL storage: %d %s", s, strerror(e)); break;
    case 2: s = prefix_attach(12345, 2, 0); e = errno; MC_CHECK(s == -1 && e == EBADF, "bad-args", "bad handle: %d %s", s, strerror(e)); hclose(u); break;
    case 3: s = prefix_attach(u, 2, 0); u = s; s = prefix_attach(s, 2, 0); e = errno; MC_CHECK(s == -1 && e == EPROTO, "bad-args", "attach to messages: %d %s", s, strerror(e)); break;
    case 4: s = prefix_detach(u); e = errno; MC_CHECK(s == -1 && e == ENOTSUP, "bad-args", "detach of a bytestream: %d %s", s, strerror(e)); if(!m.closed) hclose(u); break;
    case 5: s = prefix_detach(12345); e = errno; MC_CHECK(s == -1 && e == EBADF, "bad-args", "detach of a bad handle: %d %s", s, strerror(e)); hclose(u); break;
    case 6: s = prefix_attach_mem(u, 2, 0, &st); MC_CHECK(s >= 0, "attach", "attach_mem: %s", strerror(errno)); MC_CHECK(msend(s, "ab", 2, -1) == 0, "send", "msend"); MC_CHECK(m.nout == 4 && !memcmp(m.out, "\0\2ab", 4), "wire", "wire"); u = prefix_detach(s); MC_CHECK(u >= 0, "detach", "detach"); MC_CHECK(hclose(s) == -1 && errno == EBADF, "detach", "the handle is still there"); hclose(u); break;
    }
    MC_CHECK(m.closed == 1, "leak", "the underlying socket was closed %d times (call %d)", m.closed, k);
    mc_step(); mc_obs(k);
}

/* ---- end to end over a connection ---- */
static int P[2];
static coroutine void pair_sender(int n) { for(int i = 0; i < n; ++i) { R[i].rc = msendl(P[0], GL_FIRST(&G[i]), GL_LAST(&G[i]), -1); R[i].err = errno; R[i].done = 1; } }
static void pair_(void) {
    begin();
    int hdrlen = mc_arg & 15, le = mc_arg >> 4 & 1;
    vk.cap = 4; vk.short_rw = vk.eagain = 1;
    MC_CHECK(ipc_pair(P) == 0, "pair", "ipc_pair");
    P[0] = attach(P[0], hdrlen, le); P[1] = attach(P[1], hdrlen, le);
    static const int l0[] = {3, 0, 6}, l1[] = {4, 0, 1};
    memset(R, 0, sizeof R); int n = 2; nC = n; memset(C, 0, sizeof C);
    for(int i = 0; i < n; ++i) { gl_pick(&G[i], 2 - i, l0, 3, 0); gl_fill(&G[i], 10 * i); }
    for(int i = 0; i < n; ++i) { gl_pick(&C[i].g, 2, l1, 2, 1); C[i].dl = -1; }
    int h = go(pair_sender(n));
    g_s = P[1];
    int h2 = go(recv_body());
    msleep(now() + 30);
    hclose(h); hclose(h2);
    int dead = 0;
    for(int i = 0; i < n; ++i) {
        gl_check(&G[i]); gl_check(&C[i].g); MC_CHECK(C[i].done, "hung", "mrecvl %d has not returned", i);
        if(dead) { MC_CHECK(C[i].rc == -1 && C[i].err == ECONNRESET, "after-failure", "mrecvl gave %zd", C[i].rc); continue; }
        if(C[i].g.total < G[i].total) { MC_CHECK(C[i].rc == -1 && C[i].err == EMSGSIZE, "emsgsize", "mrecvl gave %zd", C[i].rc); dead = 1; continue; }
        MC_CHECK(R[i].done && R[i].rc == 0, "send", "msendl %d: %s", i, strerror(R[i].err));
        MC_CHECK(C[i].rc == (ssize_t)G[i].total, "size", "mrecvl gave %zd instead of %zu", C[i].rc, G[i].total);
        gl_expect(&C[i].g, pat + 10 * i, G[i].total, 0); mc_step();
        mc_state(mc_mix(i, G[i].total));
    }
    for(int i = 0; i < n; ++i) { gl_free(&G[i]); gl_free(&C[i].g); }
    hclose(P[0]); hclose(P[1]); mc_obs(dead);
}
struct mc_scn mc_scns[] = {
    {"send1", "one message of 0-70000 bytes in up to 3 items, header sizes 1-8 and both byte orders", send_, 0, 0, 1},
    {"send2", "two messages, all cuts into items", send_, 0, 0, 2},
    {"send-fail", "the underlying socket fails or blocks at every byte; deadline and cancellation", send_fail, 0, 0, 0},
    {"recv", "up to 3 messages into every list of up to 3 items with NULL and empty ones, or dropped", recv_, 0, 0, 0},
    {"recv-cut", "the stream is delayed, ends or fails at every byte; deadlines", recv_, 0, 0, 1},
    {"recv-big", "messages around and beyond 256 bytes and 64 kB", recv_, 0, 0, 2},
    {"huge", "announced sizes up to 2^64-1", huge_, 0, 0, 0},
    {"bad", "invalid arguments and handles", bad_, 0, 0, 0},
    {"pair1", "two messages over an IPC pair, every way to split reads and writes, header of 1 byte", pair_, 1, 3, 1},
    {"pair4", "same, header of 4 bytes", pair_, 1, 3, 4},
    {"pair8le", "same, header of 8 bytes, little endian", pair_, 1, 3, 24},
    {0}};
