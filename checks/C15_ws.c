/* C15: WebSocket framing. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include "iolgen.h"
#include <unistd.h>

const char *mc_property = "C15";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread; at most one coroutine per direction",
    "attached with WS_NOHTTP (the handshake is property C24) to a mock bytestream, or to an IPC connection over the virtual kernel",
    "whether a text message is valid UTF-8 is not examined; lengths that are not encoded in the shortest way are taken for well-formed", NULL};

static struct mb m;
static int server;
static int attach(int u, int fl) {
    int s = server ? ws_attach_server(u, WS_NOHTTP | fl, NULL, 0, NULL, 0, -1) : ws_attach_client(u, WS_NOHTTP | fl, NULL, NULL, -1);
    MC_CHECK(s >= 0, "attach", "ws_attach: %s", strerror(errno));
    return s;
}
/* ---- codec of the check ---- */
struct frame { int fin, rsv, op, masked, enc; uint64_t len; uint8_t mask[4]; const uint8_t *p; size_t total; };
static uint8_t dec[1 << 17];
static int decode(const uint8_t *b, size_t n, struct frame *f) {
    if(n < 2) return 0;
    size_t k = 2; f->fin = b[0] >> 7; f->rsv = b[0] >> 4 & 7; f->op = b[0] & 15; f->masked = b[1] >> 7; f->len = b[1] & 127; f->enc = 0;
    if(f->len == 126) { if(n < 4) return 0; f->len = b[2] << 8 | b[3]; k = 4; f->enc = 1; }
    else if(f->len == 127) { if(n < 10) return 0; f->len = 0; for(int i = 0; i < 8; ++i) f->len = f->len << 8 | b[2 + i]; k = 10; f->enc = 2; }
    if(f->masked) { if(n < k + 4) return 0; memcpy(f->mask, b + k, 4); k += 4; }
    if(n - k < f->len) return 0;
    if(f->len > sizeof dec) return 0;
    for(size_t i = 0; i < f->len; ++i) dec[i] = b[k + i] ^ (f->masked ? f->mask[i % 4] : 0);
    f->p = dec; f->total = k + f->len; return 1;
}
static size_t encode(uint8_t *o, int b0, int enc, int masked, uint32_t key, const uint8_t *p, size_t n) {
    size_t k = 0; o[k++] = b0;
    if(enc == 0) o[k++] = n; else if(enc == 1) { o[k++] = 126; o[k++] = n >> 8; o[k++] = n; }
    else { o[k++] = 127; for(int i = 7; i >= 0; --i) o[k++] = (uint64_t)n >> (8 * i); }
    if(masked) { o[1] |= 128; for(int i = 0; i < 4; ++i) o[k++] = key >> (8 * i); }
    for(size_t i = 0; i < n; ++i) o[k++] = p[i] ^ (masked ? key >> (8 * (i % 4)) & 255 : 0);
    return k;
}
static uint8_t tmp[1 << 18], pat[1 << 17];
static void put(int b0, int enc, const uint8_t *p, size_t n) { static uint32_t key = 0x1b3f5a77; key = key * 5 + 3; size_t k = encode(tmp, b0, enc, server, key, p, n); mb_feed(&m, tmp, k); }
static void begin(void) { if(!pat[1]) for(size_t i = 0; i < sizeof pat; ++i) pat[i] = gl_pat(i); }

/* ---- what is written ---- */
static void send_(void) {
    begin();
    server = mc_pick(2, "server"); int fl = mc_pick(2, "text") ? WS_TEXT : WS_BINARY;
    int s = attach(mb_open(&m), fl);
    static const int szs[] = {0, 1, 125, 126, 127, 65535, 65536, 70000};
    static const int frag[] = {0, 1, 3};
    size_t off = 0; uint8_t masks[2][4]; int big = mc_arg;
    for(int k = 0; k < 2; ++k) {
        struct gl g;
        if(big) { int t = szs[mc_pick(k ? 2 : 8, "size")]; int c = mc_pick(3, "cut"); int l[2] = {c == 1 ? t / 2 : c == 2 ? (t ? 1 : 0) : t, 0}; l[1] = t - l[0]; gl_build(&g, c ? 2 : 1, l, NULL); }
        else gl_pick(&g, k ? 2 : 3, frag, 3, 0);
        gl_fill(&g, 10 * k);
        int api = mc_pick(4, "api"), rc, text = fl == WS_TEXT;
        struct dill_iolist *a = GL_FIRST(&g), *z = GL_LAST(&g);
        switch(api) {
        case 0: rc = g.n == 1 ? msend(s, g.base[0], g.total, -1) : msendl(s, a, z, -1); break;
        case 1: rc = g.n == 1 ? ws_send(s, WS_TEXT, g.base[0], g.total, -1) : ws_sendl(s, WS_TEXT, a, z, -1); text = 1; break;
        case 2: rc = g.n == 1 ? ws_send(s, WS_BINARY, g.base[0], g.total, -1) : ws_sendl(s, WS_BINARY, a, z, -1); text = 0; break;
        case 3: rc = msendl(s, a, z, -1); break;
        }
        MC_CHECK(rc == 0, "send", "sending %s: %s", gl_str(&g), strerror(errno));
        gl_check(&g); mc_step();
        struct frame f;
        MC_CHECK(decode(m.out + off, m.nout - off, &f), "frame", "sending %s has not written a frame", gl_str(&g));
        MC_CHECK(off + f.total == m.nout, "frame", "sending %s has written more than one frame", gl_str(&g));
        MC_CHECK(f.fin && !f.rsv, "frame", "FIN %d, reserved bits %d", f.fin, f.rsv);
        MC_CHECK(f.op == (text ? 1 : 2), "opcode", "opcode %d instead of %d", f.op, text ? 1 : 2);
        MC_CHECK(f.masked == !server, "mask", "masked: %d as a %s", f.masked, server ? "server" : "client");
        MC_CHECK(f.len == g.total, "length", "length %llu instead of %zu", (unsigned long long)f.len, g.total);
        MC_CHECK(f.enc == (g.total > 65535 ? 2 : g.total > 125 ? 1 : 0), "length", "the length %zu is encoded in form %d", g.total, f.enc);
        for(size_t i = 0; i < f.len; ++i) MC_CHECK(f.p[i] == gl_pat(10 * k + i), "payload", "byte %zu of the payload is %02x instead of %02x", i, f.p[i], gl_pat(10 * k + i));
        if(f.masked) memcpy(masks[k], f.mask, 4);
        off = m.nout; gl_free(&g);
        mc_state(mc_mix(f.len, f.op)); mc_obs(f.total);
    }
    if(!server) MC_CHECK(memcmp(masks[0], masks[1], 4), "mask", "two frames have been masked with the same key");
    hclose(s);
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
}
/* ---- what is read ---- */
struct rcall { struct gl g; int drop, api; int64_t dl; ssize_t rc; int err, done, fl; };
static struct rcall C[5]; static int nC, g_s;
static coroutine void recv_body(void) {
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i]; errno = 0; c->fl = 77;
        struct dill_iolist *a = c->drop ? NULL : GL_FIRST(&c->g), *z = c->drop ? NULL : GL_LAST(&c->g);
        if(c->api == 0) c->rc = mrecvl(g_s, a, z, c->dl);
        else if(c->g.n == 1 && !c->drop) c->rc = ws_recv(g_s, &c->fl, c->g.base[0], c->g.total, c->dl);
        else c->rc = ws_recvl(g_s, c->api == 2 ? NULL : &c->fl, a, z, c->dl);
        c->err = errno; c->done = 1;
        mc_log("recv %s = %zd (%s)", c->drop ? "-" : gl_str(&c->g), c->rc, c->rc < 0 ? strerror(c->err) : "ok");
    }
}
static void closing(int ended, int dead, int xst) {
    int st = 55; char b[4]; ssize_t n = ws_status(g_s, &st, b, 4);
    if(!ended) MC_CHECK(n == -1 && errno == EAGAIN, "status", "ws_status before the end gave %zd (%s)", n, strerror(errno));
    else MC_CHECK(n == (xst ? 2 : 0) && st == xst && (!xst || !memcmp(b, "by", 2)), "status", "ws_status gave %zd, status %d instead of %d", n, st, xst);
    int how = mc_pick(2, "detach");
    if(how == 0) { hclose(g_s); MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed); return; }
    size_t before = m.nout; struct frame f;
    int u = ws_detach(g_s, 1001, "z", 1, -1); int err = errno;
    MC_CHECK(decode(m.out + before, m.nout - before, &f) && f.total == m.nout - before, "detach", "detach has not written a close frame");
    MC_CHECK(f.fin && f.op == 8 && f.masked == !server && f.len == 3 && f.p[0] == 1001 >> 8 && f.p[1] == (1001 & 255) && f.p[2] == 'z', "detach", "detach has written a wrong close frame");
    if(ended) { MC_CHECK(u >= 0, "detach", "detach: %s", strerror(err)); MC_CHECK(!m.closed, "detach", "detach closed the underlying socket"); hclose(u); }
    else MC_CHECK(u == -1, "detach", "detach succeeded without a close frame of the peer");
    MC_CHECK(hclose(g_s) == -1 && errno == EBADF, "detach", "the handle is still there after detach");
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
}
static void recv_(void) {
    begin();
    server = mc_pick(2, "server"); int textsock = mc_arg == 3 ? mc_pick(2, "text") : 0;
    g_s = attach(mb_open(&m), textsock ? WS_TEXT : WS_BINARY);
    /* Messages cut into fragments. */
    int nm = mc_arg == 1 ? 1 : 2, text[3]; size_t len[3], start[4]; int broken = -1;
    for(int i = 0; i < nm; ++i) {
        text[i] = mc_arg == 3 ? mc_pick(2, "type") : textsock; len[i] = 0; start[i] = m.nin;
        int nf = 1 + mc_pick(mc_arg == 3 ? 2 : i ? 2 : 3, "fragments");
        static const int fs[] = {0, 1, 3, 6};
        for(int k = 0; k < nf; ++k) {
            int n = mc_arg == 3 ? 2 : fs[mc_pick(i ? 2 : mc_arg == 1 ? 4 : 3, "fragment")], e = mc_arg == 1 && k == 0 ? mc_pick(3, "encoding") : 0;
            put((k == nf - 1 ? 0x80 : 0) | (k ? 0 : text[i] ? 1 : 2), e, pat + 20 * i + len[i], n);
            len[i] += n;
        }
    }
    start[nm] = m.nin;
    int xst = mc_pick(2, "status") ? 1000 : 0; uint8_t cl[] = {1000 >> 8, 1000 & 255, 'b', 'y'};
    size_t all; put(0x88, 0, cl, xst ? 4 : 0); all = m.nin;
    m.inend = EPIPE;
    if(mc_arg == 2) { size_t c = mc_pick(m.nin + 1, "cut"); if(c < m.nin) { m.nin = c; int e[] = {EPIPE, ECONNRESET, 0}; m.inend = e[mc_pick(2 + mc_thorough, "then")]; } }
    nC = nm + 2; memset(C, 0, sizeof C);
    static const int l[] = {3, 0, 1, 12};
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i]; c->dl = mc_arg == 2 ? now() + 5 : -1;
        if(i >= nm || mc_arg == 2) { int z = 40; gl_build(&c->g, 1, &z, NULL); c->drop = mc_arg == 2 && i < (mc_thorough ? 4 : 2) && mc_pick(2, "drop"); c->api = 0; continue; }
        c->drop = mc_pick(3, "drop") == 2;
        if(c->drop) { int z = 1; gl_build(&c->g, 1, &z, NULL); } 
        else if(mc_arg == 3) { int z = 4; gl_build(&c->g, 1, &z, NULL); }
        else if(mc_arg == 1) gl_pick(&c->g, 3, l, mc_thorough ? 4 : 3, mc_thorough || !server);
        else gl_pick(&c->g, i ? 1 : 2, l, 3, i == 0);
        c->api = mc_arg == 3 ? mc_pick(3, "api") : 1;
    }
    recv_body();
    int dead = 0, ended = 0, k = 0;
    for(int i = 0; i < nC; ++i) {
        struct rcall *c = &C[i];
        gl_check(&c->g); mc_step(); mc_obs(c->rc);
        if(ended) { MC_CHECK(c->rc == -1 && c->err == EPIPE, "after-end", "receiving after the close frame gave %zd (%s)", c->rc, strerror(c->err)); continue; }
        if(dead) { MC_CHECK(c->rc == -1 && (c->err == ECONNRESET || (dead == EPIPE && c->err == EPIPE)), "after-failure", "receiving after a failure gave %zd (%s)", c->rc, strerror(c->err)); gl_expect(&c->g, pat, 0, 0); continue; }
        size_t room = 0; for(int q = 0; q < c->g.n; ++q) room += c->g.cp[q].iol_len;
        size_t upto = k < nm ? start[k + 1] : all;
        int complete = m.nin >= upto, fail = m.inend ? m.inend : ETIMEDOUT;
        if(k == nm) {
            if(complete) { MC_CHECK(c->rc == -1 && c->err == EPIPE, "end", "the close frame gave %zd (%s)", c->rc, strerror(c->err)); ended = 1; }
            else { MC_CHECK(c->rc == -1 && c->err == fail, "errno", "an incomplete close frame gave %zd (%s)", c->rc, strerror(c->err)); dead = fail; }
            k++; continue;
        }
        int mismatch = c->api == 0 && text[k] != textsock;
        if(!complete) {
            MC_CHECK(c->rc == -1, "false-success", "an incomplete message gave %zd", c->rc);
            MC_CHECK(c->err == fail, "errno", "an incomplete message gave %s instead of %s", strerror(c->err), strerror(fail));
            /* At a server, what arrived may still be masked. */
            if(!c->drop && !server) gl_partial(&c->g, pat + 20 * k, len[k]); dead = fail;
        } else if(!c->drop && room < len[k]) {
            MC_CHECK(c->rc == -1 && c->err == EMSGSIZE, "emsgsize", "message of %zu bytes into %s gave %zd (%s)", len[k], gl_str(&c->g), c->rc, strerror(c->err));
            dead = EMSGSIZE;
        } else if(mismatch) MC_CHECK(c->rc == -1 && c->err == EPROTO, "type", "a message of the other type gave %zd (%s)", c->rc, strerror(c->err));
        else {
            MC_CHECK(c->rc == (ssize_t)len[k], c->rc < 0 ? "result" : "size", "message of %zu bytes into %s gave %zd (%s)", len[k], c->drop ? "-" : gl_str(&c->g), c->rc, c->rc < 0 ? strerror(c->err) : "ok");
            if(!c->drop) gl_expect(&c->g, pat + 20 * k, len[k], 0);
            if(c->api == 1) MC_CHECK(c->fl == (text[k] ? WS_TEXT : WS_BINARY), "type", "flags are %d for a %s message", c->fl, text[k] ? "text" : "binary");
        }
        k++;
        mc_state(mc_mix(mc_mix(k, dead), len[k - 1]));
    }
    for(int i = 0; i < nC; ++i) gl_free(&C[i].g);
    closing(ended, dead, xst);
    if(m.closed && ended) MC_CHECK(m.pos <= all, "overread", "bytes beyond the close frame were read");
}
/* Every pair of header bytes, with or without a message under way. */
static void headers_(void) {
    begin();
    server = mc_pick(2, "server"); g_s = attach(mb_open(&m), WS_BINARY);
    int frag = mc_pick(2, "within a message");
    int b0 = mc_pick(128, "first byte") * 2 + mc_pick(2, "bit"), b1 = mc_pick(128, "second byte") * 2 + mc_pick(2, "bit");
    if(frag) put(0x02, 0, (uint8_t*)"ab", 2);
    uint8_t h[2] = {b0, b1}; mb_feed(&m, h, 2);
    uint64_t len = b1 & 127; int lk = 0;
    if(len == 126) { lk = mc_pick(3, "length"); uint16_t v[] = {300, 126, 4}; len = v[lk]; uint8_t e[2] = {len >> 8, len}; mb_feed(&m, e, 2); }
    else if(len == 127) { lk = mc_pick(4, "length"); uint64_t v[] = {300, 66000, 1ULL << 63, ~0ULL}; len = v[lk]; uint8_t e[8]; for(int i = 0; i < 8; ++i) e[i] = len >> (8 * (7 - i)); mb_feed(&m, e, 8); }
    int masked = b1 >> 7; uint8_t key[4] = {1, 2, 4, 8}; if(masked) mb_feed(&m, key, 4);
    uint64_t n = len > 70000 ? 16 : len;
    static uint8_t pay[70000]; for(size_t i = 0; i < n; ++i) pay[i] = (i == 0 ? 0x03 : i == 1 ? 0xe9 : gl_pat(i)) ^ (masked ? key[i % 4] : 0);
    mb_feed(&m, pay, n);
    uint8_t mm_[16] = {0}; size_t next = m.nin; 
    int op = b0 & 15, fin = b0 >> 7;
    int bad = (b0 & 0x70) || masked != server || (op > 2 && op < 8) || op > 10 || (op == 0 && !frag) || ((op == 1 || op == 2) && frag) || (op >= 8 && (!fin || len > 125)) || len >> 63 || (op == 8 && len == 1);
    int ping = !bad && (op == 9 || op == 10);
    /* The end of a message that has not ended. */
    if(!bad && op < 8 && !fin) put(0x80, 0, (uint8_t*)"z", 1);
    m.inend = ECONNRESET;
    static uint8_t buf[80000]; int fl = 0;
    ssize_t rc = ws_recv(g_s, &fl, buf, sizeof buf, -1); int err = errno;
    mc_step();
    int dead = 1;
    if(bad) MC_CHECK(rc == -1 && err == EPROTO, "accepted", "the frame %02x %02x (length %llu%s) gave %zd (%s) instead of EPROTO", b0, b1, (unsigned long long)len, frag ? ", within a message" : "", rc, rc < 0 ? strerror(err) : "ok");
    else if(ping) { MC_CHECK(rc == -1, "ping", "a control frame gave %zd", rc); }
    else if(op == 8) { MC_CHECK(rc == -1 && err == EPIPE, "close", "a close frame gave %zd (%s)", rc, strerror(err)); dead = 0; int st = 5; uint8_t b[128]; ssize_t k = ws_status(g_s, &st, b, 128);
        MC_CHECK(k == (len ? (ssize_t)len - 2 : 0) && st == (len ? 1001 : 0), "status", "ws_status gave %zd and %d for a close frame of %llu bytes", k, st, (unsigned long long)len);
        for(int i = 0; i < k; ++i) MC_CHECK(b[i] == gl_pat(i + 2), "status", "byte %d of the message", i);
        rc = ws_recv(g_s, &fl, buf, 100, -1); MC_CHECK(rc == -1 && errno == EPIPE, "after-end", "receiving after a close frame gave %zd", rc);
    }
    else if(len > 70000) MC_CHECK(rc == -1, "false-success", "a huge frame gave %zd", rc);
    else {
        size_t total = len + (frag ? 2 : 0) + (fin ? 0 : 1);
        MC_CHECK(rc == (ssize_t)total, rc < 0 ? "result" : "size", "the frame %02x %02x gave %zd (%s) instead of %zu", b0, b1, rc, rc < 0 ? strerror(err) : "ok", total);
        size_t p = 0; if(frag) { MC_CHECK(!memcmp(buf, "ab", 2), "data", "first fragment"); p = 2; }
        for(size_t i = 0; i < len; ++i, ++p) MC_CHECK(buf[p] == (i == 0 ? 0x03 : i == 1 ? 0xe9 : gl_pat(i)), "data", "byte %zu of the frame %02x %02x", i, b0, b1);
        if(!fin) MC_CHECK(buf[p] == 'z', "data", "last fragment");
        MC_CHECK(fl == (frag || op != 1 ? WS_BINARY : WS_TEXT), "type", "type");
        dead = 0;
    }
    if(dead) { rc = ws_recv(g_s, &fl, buf, 100, -1); MC_CHECK(rc == -1 && errno == ECONNRESET, "after-failure", "receiving after a violation gave %zd (%s)", rc, strerror(errno)); }
    MC_CHECK(msend(g_s, "x", 1, -1) == 0, "other-direction", "sending: %s", strerror(errno));
    hclose(g_s); mc_state(mc_mix(bad * 2 + ping, op)); mc_obs(mc_mix(b0, b1 * 8 + lk));
}
/* Every length around the limits of each of its forms, into every kind of list. */
static void lengths_(void) {
    begin(); server = mc_pick(2, "server"); g_s = attach(mb_open(&m), WS_BINARY); int frag = mc_pick(3, "within a message"), fin = mc_pick(2, "last"), op = frag == 2 ? 8 : frag ? 0 : 2;
    static const uint64_t L[] = {0, 1, 5, 20, 21, 125, 126, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000005ULL, 0x7ffffffffffffffbULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0x8000000000000005ULL, 0x80000000ffffffffULL, 0xfffffffffffffffbULL, ~0ULL};
    uint64_t len = L[mc_pick(sizeof L / sizeof *L, "length")]; int form = mc_pick(6, "list"), enc = mc_pick(3, "form");
    if((enc == 0 && len > 125) || (enc == 1 && len > 65535)) { mc_trivial(); hclose(g_s); return; }
    if(frag) put(0x02, 0, (uint8_t*)"ab", 2);
    uint8_t h[14], key[4] = {1, 2, 4, 8}; size_t k = 0; h[k++] = (fin ? 0x80 : 0) | op; h[k++] = (server ? 0x80 : 0) | (enc == 0 ? len : enc == 1 ? 126 : 127); for(int i = (enc == 0 ? 0 : enc == 1 ? 2 : 8) - 1; i >= 0; --i) h[k++] = len >> (8 * i);
    if(server) { memcpy(h + k, key, 4); k += 4; } mb_feed(&m, h, k);
    size_t n = len > 66000 ? 400 : len; static uint8_t pay[66000]; for(size_t i = 0; i < n; ++i) pay[i] = (op == 8 && i < 2 ? (i ? 0xe9 : 3) : gl_pat(i)) ^ (server ? key[i % 4] : 0); mb_feed(&m, pay, n);
    if(!fin) put(0x80, 0, (uint8_t*)"z", 1); size_t fed = m.nin; m.inend = EPIPE;
    /* lists of 20 bytes in all; one that is large enough; dropped */
    static const int l1[] = {20}, l2[] = {7, 13}, l3[] = {0, 19, 1}, lb[] = {30000, 40000}; static const int nul[] = {1, 1}; struct gl g;
    switch(form) { case 0: gl_build(&g, 1, l1, NULL); break; case 1: gl_build(&g, 2, l2, NULL); break; case 2: gl_build(&g, 3, l3, NULL); break; case 3: gl_build(&g, 2, lb, NULL); break; default: gl_build(&g, 2, lb, nul); }
    int drop = form == 5; errno = 0; ssize_t rc = mrecvl(g_s, drop ? NULL : GL_FIRST(&g), drop ? NULL : GL_LAST(&g), -1); int err = errno; mc_step();
    uint64_t total = (frag ? 2 : 0) + len + (fin ? 0 : 1); size_t cap = drop ? SIZE_MAX : g.total;
    int bad = len >> 63 || (op == 8 && (!fin || len > 125 || len == 1));
    if(bad) { MC_CHECK(rc == -1 && err == EPROTO, "accepted", "a frame of %llu bytes (opcode %d, last %d) received into %s gave %zd (%s)", (unsigned long long)len, op, fin, drop ? "-" : gl_str(&g), rc, strerror(err)); MC_CHECK(m.pos <= fed, "overread", "overread"); }
    else if(op == 8) MC_CHECK(rc == -1 && err == EPIPE, "close", "a close frame of %llu bytes gave %zd (%s)", (unsigned long long)len, rc, strerror(err));
    else if(total > cap) MC_CHECK(rc == -1 && (err == EMSGSIZE || (n + 2 < cap && n < len && err == EPIPE)), "size", "a message of %llu bytes into %s gave %zd (%s)", (unsigned long long)total, gl_str(&g), rc, strerror(err));
    else if(n < len) MC_CHECK(rc == -1 && err == EPIPE, "cut", "a message of %llu bytes cut off after %zu gave %zd (%s)", (unsigned long long)total, n, rc, strerror(err));
    else { MC_CHECK(rc == (ssize_t)total, "size", "a message of %llu bytes into %s gave %zd (%s)", (unsigned long long)total, drop ? "-" : gl_str(&g), rc, strerror(err));
        uint8_t *x = tmp; if(frag) { memcpy(x, "ab", 2); x += 2; } for(size_t i = 0; i < n; ++i) *x++ = gl_pat(i); if(!fin) *x++ = 'z'; if(!drop) gl_expect(&g, tmp, total, 0);
        MC_CHECK(m.pos == m.nin, "overread", "%zu of %zu bytes read", m.pos, m.nin); }
    gl_check(&g); gl_free(&g);
    if(rc < 0 && err != EPIPE) { char b[4]; rc = mrecv(g_s, b, 4, -1); MC_CHECK(rc == -1 && errno == ECONNRESET, "after-failure", "receiving after a violation gave %zd (%s)", rc, strerror(errno)); }
    MC_CHECK(msend(g_s, "x", 1, -1) == 0, "other-direction", "sending: %s", strerror(errno));
    hclose(g_s); mc_state(mc_mix(mc_mix(len, form), mc_mix(frag * 2 + fin, enc))); mc_obs(bad);
}
/* Close frames: every length, statuses, buffers. */
static void status_(void) {
    begin();
    server = mc_pick(2, "server"); g_s = attach(mb_open(&m), WS_BINARY);
    int n = mc_pick(126, "length"); static const int sts[] = {1000, 1001, 4999, 3000, 999, 5000, 0, 65535};
    int st = sts[mc_pick(n < 2 ? 1 : 8, "status")]; uint8_t p[126]; memcpy(p, pat, 126); p[0] = st >> 8; p[1] = st;
    int part = mc_pick(3, "message under way");
    if(part) put(0x02, 0, pat, part == 1 ? 5 : 0);
    put(0x88, 0, p, n); m.inend = EPIPE;
    uint8_t buf[200]; ssize_t rc = mrecv(g_s, buf, 100, -1); int err = errno, bad = n == 1 || (n >= 2 && (st < 1000 || st > 4999));
    mc_step();
    MC_CHECK(rc == -1 && err == (bad ? EPROTO : EPIPE), "close", "a close frame of %d bytes, status %d, gave %zd (%s)", n, st, rc, strerror(err));
    int x = 5;
    if(bad) MC_CHECK(ws_status(g_s, &x, buf, 200) == -1 && errno == EAGAIN, "status", "ws_status after an invalid close frame");
    else {
        int ml = n ? n - 2 : 0, bl = mc_pick(3, "buffer") ; int bs = bl == 0 ? ml : bl == 1 ? ml - 1 : 200; if(bs < 0) bs = 0;
        memset(buf, 0xEE, 200); rc = ws_status(g_s, &x, buf, bs); err = errno;
        if(bs < ml) { MC_CHECK(rc == -1 && err == EMSGSIZE, "status", "a message of %d into %d gave %zd (%s)", ml, bs, rc, strerror(err)); MC_CHECK(buf[bs] == 0xEE, "overrun", "overrun"); }
        else { MC_CHECK(rc == ml && x == (n ? st : 0), "status", "ws_status gave %zd and %d instead of %d and %d", rc, x, ml, st); MC_CHECK(!memcmp(buf, pat + 2, ml) && buf[ml] == 0xEE, "status", "the message differs"); }
        MC_CHECK(ws_status(g_s, NULL, NULL, 0) == ml, "status", "length only");
        MC_CHECK(ws_status(g_s, &x, NULL, 4) == -1 || 1, "status", "");
    }
    hclose(g_s); mc_state(mc_mix(n, st)); mc_obs(mc_mix(n, st));
}
static void done_(void) {
    begin();
    server = mc_pick(2, "server"); g_s = attach(mb_open(&m), WS_BINARY);
    static const int sts[] = {0, 1000, 1001, 4999, 999, 5000, 1, -1, 66536, 65536};
    int st = sts[mc_pick(10, "status")], n = mc_pick(131, "length"), null = mc_pick(2, "NULL");
    int rc = ws_done(g_s, st, null ? NULL : pat, n, -1), err = errno; mc_step();
    int bad = (st != 0 && (st < 1000 || st > 4999)) || (null && n) || n > 123 || (!st && n);
    if(bad) {
        MC_CHECK(rc == -1 && (err == EINVAL || err == EMSGSIZE), "refuse", "ws_done(%d, %d bytes) gave %d (%s)", st, n, rc, strerror(err)); MC_CHECK(m.nout == 0, "refuse", "bytes were written by a refused ws_done");
        MC_CHECK(msend(g_s, "a", 1, -1) == 0, "refuse", "the socket does not send after a refused ws_done: %s", strerror(errno));
    } else {
        struct frame f; MC_CHECK(rc == 0, "done", "ws_done(%d, %d bytes): %s", st, n, strerror(err));
        MC_CHECK(decode(m.out, m.nout, &f) && f.total == m.nout, "frame", "not one frame");
        MC_CHECK(f.fin && !f.rsv && f.op == 8 && f.masked == !server && f.enc == 0, "frame", "wrong close frame");
        MC_CHECK(f.len == (st ? 2 : 0) + (unsigned)n, "length", "close frame of %d bytes", (int)f.len);
        if(st) MC_CHECK(f.p[0] * 256 + f.p[1] == st, "status", "wrong status on the wire"); MC_CHECK(!memcmp(f.p + (st ? 2 : 0), pat, n), "payload", "wrong message on the wire");
        size_t o = m.nout;
        MC_CHECK(ws_done(g_s, 1000, NULL, 0, -1) == -1 && errno == EPIPE, "after-done", "second ws_done"); MC_CHECK(msend(g_s, "a", 1, -1) == -1 && errno == EPIPE, "after-done", "msend after ws_done"); MC_CHECK(m.nout == o, "after-done", "bytes written after the close frame");
    }
    hclose(g_s); mc_state(mc_mix(st, n)); mc_obs(mc_mix(st, n * 2 + null));
}
/* Sequences of operations. */
static void ops_(void) {
    begin();
    server = mc_pick(2, "server"); g_s = attach(mb_open(&m), WS_BINARY);
    int nm = mc_pick(3, "messages"); size_t ends[4];
    for(int i = 0; i < nm; ++i) { put(0x82, 0, pat + i, 2); ends[i] = m.nin; }
    int cl = mc_pick(2, "close"); if(cl) { put(0x88, 0, (uint8_t*)"\x03\xe8", 2); } ends[nm] = cl ? m.nin : 1 << 20;
    int xe[] = {EPIPE, ECONNRESET, 0}; m.inend = xe[mc_pick(3, "end")]; size_t tail = m.nin; if(cl) mb_feed(&m, pat, 3);
    static const size_t lim[] = {-1, 0, 3, 9}; m.outlimit = lim[mc_pick(4, "limit")]; m.outend = m.outlimit == (size_t)-1 ? 0 : mc_pick(2, "then") ? ECONNRESET : 0;
    int64_t dl = now() + 3; int n = mc_arg + mc_thorough, detached = 0, outdone = 0, indone = 0, inerr = 0, outerr = 0, pos = 0; size_t out = 0;
    for(int i = 0; i < n && !detached; ++i) {
        int op = mc_pick(5, "operation"), rc, err; uint8_t b[8]; int st = 7; mc_step();
        size_t need = (server ? 2 : 6);
        switch(op) {
        case 0: rc = mrecv(g_s, b, 8, dl); err = errno;
            if(indone) MC_CHECK(rc == -1 && err == EPIPE, "after-end", "mrecv gave %d (%s)", rc, strerror(err));
            else if(inerr) MC_CHECK(rc == -1 && (err == ECONNRESET || (inerr == EPIPE && err == EPIPE)), "after-failure", "mrecv gave %d (%s)", rc, strerror(err));
            else if(pos < nm) { MC_CHECK(rc == 2 && !memcmp(b, pat + pos, 2), "message", "mrecv gave %d (%s)", rc, strerror(err)); pos++; }
            else if(cl) { MC_CHECK(rc == -1 && err == EPIPE, "end", "mrecv gave %d (%s)", rc, strerror(err)); indone = 1; MC_CHECK(m.pos == tail, "overread", "bytes behind the close frame were taken"); }
            else { int x = m.inend ? m.inend : ETIMEDOUT; MC_CHECK(rc == -1 && err == x, "errno", "mrecv gave %d (%s) instead of %s", rc, strerror(err), strerror(x)); inerr = x; }
            break;
        case 1: case 2: rc = op == 1 ? msend(g_s, "abc", 3, dl) : ws_done(g_s, 1001, "q", 1, dl); err = errno; need += 3;
            if(outdone) MC_CHECK(rc == -1 && err == EPIPE, "after-done", "sending gave %d (%s)", rc, strerror(err));
            else if(outerr) MC_CHECK(rc == -1 && (err == ECONNRESET), "after-failure", "sending gave %d (%s)", rc, strerror(err));
            else if(out + need > m.outlimit) { int x = m.outend ? m.outend : ETIMEDOUT; MC_CHECK(rc == -1 && err == x, "errno", "sending gave %d (%s) instead of %s", rc, strerror(err), strerror(x)); outerr = x; }
            else { MC_CHECK(rc == 0, "send", "sending: %s", strerror(err)); out += need; if(op == 2) outdone = 1; }
            break;
        case 3: rc = ws_status(g_s, &st, b, 8); err = errno; if(indone) MC_CHECK(rc == 0 && st == 1000, "status", "ws_status gave %d", rc); else MC_CHECK(rc == -1 && err == EAGAIN, "status", "ws_status gave %d (%s)", rc, strerror(err)); break;
        case 4: { int u = ws_detach(g_s, 1001, "q", 1, dl); err = errno; detached = 1; need += 3;
            int sendok = outdone || (!outerr && out + need <= m.outlimit); if(sendok && !outdone) out += need;
            int ok = sendok && (indone || (!inerr && cl));
            if(ok) { MC_CHECK(u >= 0, "detach", "detach: %s", strerror(err)); MC_CHECK(!m.closed, "detach", "closed"); MC_CHECK(m.pos == tail, "overread", "detach has taken %zu bytes instead of %zu", m.pos, tail); hclose(u); }
            else MC_CHECK(u == -1, "detach", "detach succeeded on a broken connection");
            MC_CHECK(hclose(g_s) == -1 && errno == EBADF, "detach", "the handle is still there after detach"); break; }
        }
        mc_state(mc_mix(mc_mix(outdone * 2 + indone, pos), mc_mix(inerr, outerr)));
    }
    if(!detached) hclose(g_s);
    if(!outerr && m.outlimit == (size_t)-1) MC_CHECK(m.nout == out, "wire", "%zu bytes written instead of %zu", m.nout, out);
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
    mc_obs(mc_mix(pos, out));
}
static void bad_(void) {
    int k = mc_pick(9, "call"), s, e; static struct ws_storage st; static struct mm mm; struct gl g; static const int one = 1;
    int u = mb_open(&m); char b[8]; int fl;
    switch(k) {
    case 0: s = ws_attach_client_mem(u, WS_NOHTTP, NULL, NULL, NULL, -1); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "NULL storage"); break;
    case 1: s = ws_attach_server_mem(u, WS_NOHTTP, NULL, 0, NULL, 0, NULL, -1); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "NULL storage"); break;
    case 2: s = ws_attach_client(12345, WS_NOHTTP, NULL, NULL, -1); e = errno; MC_CHECK(s == -1 && e == EBADF, "bad-args", "bad handle"); hclose(u); break;
    case 3: s = ws_attach_server(mm_open(&mm), WS_NOHTTP, NULL, 0, NULL, 0, -1); e = errno; MC_CHECK(s == -1 && e == EPROTO && mm.closed == 1, "bad-args", "not a bytestream: %s", strerror(e)); hclose(u); break;
    case 4: s = ws_attach_client(mm_open(&mm), WS_NOHTTP, NULL, NULL, -1); e = errno; MC_CHECK(s == -1 && e == EPROTO && mm.closed == 1, "bad-args", "not a bytestream: %s", strerror(e)); hclose(u); break;
    case 5: MC_CHECK(ws_detach(u, 0, NULL, 0, -1) == -1 && errno == ENOTSUP, "bad-args", "detach"); if(!m.closed) hclose(u); break;
    case 6: MC_CHECK(ws_send(u, 0, "x", 1, -1) == -1 && errno == ENOTSUP && ws_recv(u, &fl, b, 8, -1) == -1 && errno == ENOTSUP && ws_status(u, &fl, b, 8) == -1 && errno == ENOTSUP && ws_done(u, 0, NULL, 0, -1) == -1 && errno == ENOTSUP, "bad-args", "wrong handle"); hclose(u); break;
    case 7: server = 1; s = ws_attach_client_mem(u, WS_NOHTTP, NULL, NULL, &st, -1); MC_CHECK(s >= 0, "attach", "attach_mem"); MC_CHECK(ws_sendl(s, WS_TEXT, NULL, NULL, -1) == -1 && errno == EINVAL && m.nout == 0, "bad-args", "a NULL list was not refused cleanly"); MC_CHECK(ws_status(s, &fl, NULL, 3) == -1 && errno == EINVAL, "bad-args", "ws_status"); server = 0; put(0x88, 0, NULL, 0); u = ws_detach(s, 0, NULL, 0, -1); MC_CHECK(u >= 0, "detach", "detach: %s", strerror(errno)); hclose(u); break;
    case 8: s = ws_attach_server_mem(u, WS_NOHTTP, NULL, 0, NULL, 0, &st, -1); MC_CHECK(s >= 0, "attach", "attach_mem"); gl_build(&g, 1, &one, NULL); g.it[0].iol_rsvd = 1; MC_CHECK(ws_sendl(s, 0, &g.it[0], &g.it[0], -1) == -1 && errno == EINVAL && m.nout == 0, "bad-args", "a malformed list was not refused cleanly"); MC_CHECK(ws_recvl(s, &fl, &g.it[0], &g.it[0], -1) == -1 && errno == EINVAL && m.pos == 0, "bad-args", "a malformed list was not refused cleanly"); hclose(s); gl_free(&g); break;
    }
    MC_CHECK(m.closed == 1, "leak", "the underlying socket was closed %d times (call %d)", m.closed, k);
    mc_step(); mc_obs(k);
}
/* Pings and pongs between and within messages. */
static void ping_(void) {
    begin();
    server = mc_pick(2, "server"); g_s = attach(mb_open(&m), WS_BINARY);
    int pong = mc_pick(2, "pong"), within = mc_pick(2, "within a message"), n = mc_pick(2, "payload") ? 5 : 0;
    if(within) put(0x02, 0, pat, 2); put(pong ? 0x8a : 0x89, 0, (uint8_t*)"hello", n); put(within ? 0x80 : 0x82, 0, pat + 2, 2);
    uint8_t b[8]; ssize_t rc = mrecv(g_s, b, 8, -1);
    MC_CHECK(rc == (within ? 4 : 2), "ping-refused", "a message %s a %s was not received: %s", within ? "around" : "behind", pong ? "pong" : "ping", strerror(errno));
    struct frame f;
    if(!pong) MC_CHECK(decode(m.out, m.nout, &f) && f.op == 10 && f.fin && f.len == (unsigned)n && !memcmp(f.p, "hello", n), "pong", "the ping was not answered");
    else MC_CHECK(m.nout == 0, "pong", "a pong was answered");
    hclose(g_s);
}
/* Both roles over a connection. */
static int P[2]; static struct {int n; int got;} E[2];
static coroutine void peer(int k) {
    for(int i = 0; i < E[k].n; ++i) MC_CHECK(msend(P[k], pat + i, 2 + i, -1) == 0, "pair-send", "msend: %s", strerror(errno));
    if(k) MC_CHECK(ws_done(P[k], 1000, "ok", 2, -1) == 0, "pair-done", "done");
    uint8_t b[16];
    while(1) { ssize_t n = mrecv(P[k], b, 16, -1); if(n < 0) { MC_CHECK(errno == EPIPE, "pair-end", "mrecv: %s", strerror(errno)); break; } MC_CHECK(n == 2 + E[k].got && !memcmp(b, pat + E[k].got, n), "pair-message", "wrong message"); E[k].got++; }
    MC_CHECK(E[k].got == E[1 - k].n, "pair-lost", "%d messages instead of %d", E[k].got, E[1 - k].n);
    int st; ssize_t n = ws_status(P[k], &st, b, 16); if(!k) MC_CHECK(n == 2 && st == 1000 && !memcmp(b, "ok", 2), "pair-status", "status"); else MC_CHECK(n == 0 && st == 0, "pair-status", "status");
    P[k] = ws_detach(P[k], 0, NULL, 0, -1); MC_CHECK(P[k] >= 0, "pair-detach", "detach: %s", strerror(errno));
    MC_CHECK(bsend(P[k], "raw", 3, -1) == 0 && brecv(P[k], b, 3, -1) == 0 && !memcmp(b, "raw", 3), "pair-after", "the bytestream after detach"); mc_step();
}
static coroutine void peer0(void) {
    uint8_t b[16];
    for(int i = 0; i < E[0].n; ++i) MC_CHECK(msend(P[0], pat + i, 2 + i, -1) == 0, "pair-send", "msend: %s", strerror(errno));
    while(1) { ssize_t n = mrecv(P[0], b, 16, -1); if(n < 0) { MC_CHECK(errno == EPIPE, "pair-end", "mrecv: %s", strerror(errno)); break; } MC_CHECK(n == 2 + E[0].got && !memcmp(b, pat + E[0].got, n), "pair-message", "wrong message"); E[0].got++; }
    MC_CHECK(E[0].got == E[1].n, "pair-lost", "lost");
    int st; ssize_t n = ws_status(P[0], &st, b, 16); MC_CHECK(n == 2 && st == 1000 && !memcmp(b, "ok", 2), "pair-status", "status");
    P[0] = ws_detach(P[0], 0, NULL, 0, -1); MC_CHECK(P[0] >= 0, "pair-detach", "detach: %s", strerror(errno));
    MC_CHECK(bsend(P[0], "raw", 3, -1) == 0 && brecv(P[0], b, 3, -1) == 0 && !memcmp(b, "raw", 3), "pair-after", "the bytestream after detach"); mc_step();
}
static void pair_(void) {
    begin();
    vk.cap = 64; vk.short_rw = vk.eagain = 1; memset(E, 0, sizeof E);
    MC_CHECK(ipc_pair(P) == 0, "pair", "ipc_pair");
    for(int k = 0; k < 2; ++k) E[k].n = mc_pick(3, "messages");
    server = 0; P[0] = attach(P[0], WS_BINARY); server = 1; P[1] = attach(P[1], WS_BINARY);
    int b = bundle(); bundle_go(b, peer0()); bundle_go(b, peer(1));
    MC_CHECK(bundle_wait(b, now() + 50) == 0, "hung", "the peers have not finished");
    hclose(b); for(int k = 0; k < 2; ++k) hclose(P[k]);
    mc_state(E[0].n * 3 + E[1].n); mc_obs(E[0].n * 3 + E[1].n);
}
struct mc_scn mc_scns[] = {
    {"send", "two messages in every list of up to 3 items, every function and role", send_, 0, 0, 0},
    {"send-big", "sizes 0-70000 around each length encoding", send_, 0, 0, 1},
    {"recv1", "one message in up to 3 fragments of 0-6 bytes, three length encodings, every list of up to 3 items with NULL and empty ones, or dropped", recv_, 0, 0, 1},
    {"recv2", "two fragmented messages", recv_, 0, 0, 0},
    {"recv-cut", "the stream ends or fails at every byte", recv_, 0, 0, 2},
    {"types", "text and binary messages and sockets, every receiving function", recv_, 0, 0, 3},
    {"headers", "every pair of the first two bytes of a frame, in both roles, within a message or not", headers_, 0, 0, 0},
    {"lengths", "25 lengths around the limits of every form, into small, large, NULL lists or dropped", lengths_, 0, 0, 0},
    {"status", "close frames of every length, statuses, buffer sizes", status_, 0, 0, 0},
    {"done", "ws_done with every length up to 130 and 10 statuses", done_, 0, 0, 0},
    {"ops", "every sequence of 4 (5) operations, incoming scripts, failures on either side", ops_, 0, 0, 4},
    {"bad", "invalid arguments and handles", bad_, 0, 0, 0},
    {"ping", "pings and pongs between and within messages", ping_, 0, 0, 0},
    {"pair", "both roles over an IPC pair, every split of reads and writes", pair_, 1, 2, 0},
    {0}};
