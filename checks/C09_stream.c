/* C09: byte streams over TCP and IPC. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "iolgen.h"
#include <unistd.h>
#include <netinet/in.h>

const char *mc_property = "C09";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, one connection (two ends in the pair scenarios)",
    "system calls, clock and heap are those of the virtual kernel; it may transfer less than asked or answer EAGAIN at any call",
    "the remote end acts at even milliseconds and deadlines are at odd ones, so that the outcome of a race between them is determined", NULL};

static uint8_t pat[1 << 17];
static void begin(void) { if(!pat[1]) for(size_t i = 0; i < sizeof pat; ++i) pat[i] = gl_pat(i); }

/* ---- remote end ---- */
static struct vstream *rem;
enum {E_NONE, E_FIN, E_RST};
static struct {int64_t ms; int n;} feed[16]; static int nfeed, endtype; static int64_t endms; static size_t fedpos; static int64_t t0;
static void do_feed(void *a) { int n = (intptr_t)a; size_t k = vs_write(rem, pat + fedpos, n); if((int)k != n) mc_broken("feed"); fedpos += n; mc_log("  remote sends %d", n); }
static void do_end(void *a) { mc_log("  remote %s", endtype == E_FIN ? "closes its direction" : "resets"); if(endtype == E_FIN) vs_shut(rem); else vs_rst(rem); }
static int conn(int ipc) {
    int fd = vk_stream_fd(ipc ? AF_UNIX : AF_INET, &rem);
    int s = ipc ? ipc_fromfd(fd) : tcp_fromfd(fd);
    MC_CHECK(s >= 0, "fromfd", "fromfd: %s", strerror(errno));
    return s;
}
/* When have n bytes arrived? */
static int64_t when(size_t n) {
    size_t f = 0;
    if(n == 0) return 0;
    for(int i = 0; i < nfeed; ++i) { f += feed[i].n; if(f >= n) return feed[i].ms; }
    return INT64_MAX;
}

#define MAXC 4
struct call { struct gl g; int64_t dl; int rc, err; int64_t from, at; int done; };
static struct call calls[MAXC]; static int ncalls; static int sock;
static coroutine void receiver(void) {
    for(int i = 0; i < ncalls; ++i) {
        struct call *c = &calls[i];
        mc_log("brecvl %s, deadline %ld", gl_str(&c->g), (long)c->dl);
        c->from = vk_us() / 1000;
        errno = 0;
        if(c->g.n == 1 && (c->g.total & 1)) c->rc = brecv(sock, c->g.base[0], c->g.total, c->dl <= 0 ? c->dl : t0 + c->dl);
        else c->rc = brecvl(sock, GL_FIRST(&c->g), GL_LAST(&c->g), c->dl <= 0 ? c->dl : t0 + c->dl);
        c->err = errno; c->at = vk_us() / 1000; c->done = 1;
        mc_log("   = %d (%s)", c->rc, c->rc ? strerror(c->err) : "ok");
    }
}
static void audit_recv(int64_t cancel) {
    size_t pos = 0; int dead = 0;
    for(int i = 0; i < ncalls; ++i) {
        struct call *c = &calls[i];
        MC_CHECK(c->done, "hung", "call %d has not returned", i);
        gl_check(&c->g);
        mc_step();
        if(dead) { MC_CHECK(c->rc == -1 && c->err == dead, "after-failure", "brecvl after a failed one gave %d (%s), expected %s", c->rc, strerror(c->err), strerror(dead)); gl_expect(&c->g, pat, 0, 0); continue; }
        int64_t w = when(pos + c->g.total); if(w != INT64_MAX && w < c->from - t0) w = c->from - t0;
        if(w != INT64_MAX && w <= 0) w = 0;
        int64_t d = c->dl < 0 ? INT64_MAX : c->dl == 0 ? c->from - t0 : c->dl < c->from - t0 ? c->from - t0 : c->dl;
        int64_t e = endtype == E_NONE ? INT64_MAX : endms < c->from - t0 ? c->from - t0 : endms;
        int64_t x = cancel;
        int exp; int64_t at;
        if(c->g.total == 0) { exp = 0; at = c->from - t0; }
        else if(w != INT64_MAX && w <= d && w <= x) { exp = 0; at = w; }
        else if(e <= d && e <= x && e != INT64_MAX) { exp = endtype == E_FIN ? EPIPE : ECONNRESET; at = e; }
        else if(d <= x && d != INT64_MAX) { exp = ETIMEDOUT; at = d; }
        else { exp = ECANCELED; at = x; }
        MC_CHECK((c->rc == 0 ? 0 : c->err) == exp, exp == 0 || c->rc ? "result" : "false-success", "call %d, brecvl %s at %ld with deadline %ld gave %d (%s), expected %s", i, gl_str(&c->g), (long)(c->from - t0), (long)c->dl, c->rc, c->rc ? strerror(c->err) : "ok", exp ? strerror(exp) : "success");
        if(x < INT64_MAX && at >= x) ; else
        MC_CHECK(c->at - t0 == at, "late", "call %d returned at %ld instead of %ld", i, (long)(c->at - t0), (long)at);
        if(exp == 0) { gl_expect(&c->g, pat + pos, c->g.total, 0); pos += c->g.total; }
        else { gl_expect(&c->g, pat + pos, 0, 1); dead = exp == EPIPE ? EPIPE : ECONNRESET; }
        mc_obs(mc_mix(i, exp));
    }
    mc_state(mc_mix(pos, dead));
}
/* The other direction works whatever happened to this one. */
static void other_out(void) {
    if(endtype == E_RST) return;
    int rc = bsend(sock, "ping", 4, -1);
    MC_CHECK(rc == 0, "other-direction", "bsend after the receiving side failed: %s", strerror(errno));
    char b[8]; MC_CHECK(vs_read(rem, b, 8) == 4 && !memcmp(b, "ping", 4), "other-direction", "bytes sent have not arrived");
}
/* arg: bit 0 ipc, 4-7 number of calls, 8-11 max items, 12-15 mode */
static const int small[] = {1, 0, 3}, tiny[] = {2, 0}, large[] = {1984, 1, 2500, 0, 1983};
static void recv_(void) {
    begin();
    int ipc = mc_arg & 1, nc = mc_arg >> 4 & 15, mi = mc_arg >> 8 & 15, mode = mc_arg >> 12 & 15;
    sock = conn(ipc);
    vk.short_rw = vk.eagain = 1;
    memset(calls, 0, sizeof calls); ncalls = nc; fedpos = 0; nfeed = 0;
    size_t total = 0; int cancel = 0;
    t0 = now();
    MC_CHECK(t0 * 1000 <= vk_us(), "vk", "clock");
    for(int i = 0; i < nc; ++i) {
        if(mode == 2) gl_pick(&calls[i].g, mi, large, i ? 3 : mc_thorough ? 5 : 4, 1);
        else if(mode == 1) gl_pick(&calls[i].g, mi, tiny, 2, 1);
        else gl_pick(&calls[i].g, mi, small, 3, 1);
        int k = mc_pick(i == nc - 1 && nc < 3 ? 3 : 2, "deadline");
        calls[i].dl = k == 0 ? -1 : k == 1 ? 5 : 0;
        total += calls[i].g.total;
    }
    /* What arrives, and when. */
    int shortby = mc_pick(3, "amount");      /* all, one less, one more */
    size_t amount = shortby == 0 ? total : shortby == 1 ? (total ? total - 1 : 0) : total + 1;
    int nf = 1 + mc_pick(amount >= 3 ? 3 : amount == 2 ? 2 : 1, "fragments");
    size_t left = amount; int64_t ms = 2 * mc_pick(2, "start");
    for(int i = 0; i < nf && left; ++i, ms += 2) {
        size_t n = left;
        if(i < nf - 1) {
            size_t max = left - (nf - 1 - i);
            if(mode == 2) { size_t o[] = {1, 1984, max, 2000, 3000}; n = o[mc_pick(i ? 3 : 5, "fragment")]; if(n > max) n = max; }
            else n = 1 + mc_pick(max > 4 ? 4 : (int)max, "fragment");
        }
        feed[nfeed].ms = ms; feed[nfeed++].n = n; left -= n;
        if(ms == 0) do_feed((void*)(intptr_t)n); else vk_at(t0 * 1000 + ms * 1000, do_feed, (void*)(intptr_t)n);
    }
    endtype = mc_pick(3, "end"); endms = ms;
    if(endtype) vk_at(t0 * 1000 + ms * 1000, do_end, NULL);
    int64_t ca = INT64_MAX;
    if(nc == 1) { int c = mc_pick(3, "cancel"); if(c) ca = c == 1 ? 1 : 3; }
    int h = go(receiver());
    if(ca != INT64_MAX) { if(!calls[nc - 1].done) msleep(t0 + ca); }
    else msleep(t0 + 20);
    int64_t c = INT64_MAX;
    if(!calls[nc - 1].done) c = vk_us() / 1000 - t0;
    MC_CHECK(hclose(h) == 0, "hclose", "hclose");
    audit_recv(c);
    msleep(t0 + 20);
    other_out();
    /* From now on the direction stays dead. */
    for(int i = 0; i < nc; ++i) gl_free(&calls[i].g);
    if(mc_pick(2, "end of the connection")) { hclose(sock); }
    else if(ipc) ipc_close(sock, now()); else tcp_close(sock, now());
    MC_CHECK(vk_open_fds() <= 1, "fd-left", "descriptor left open");
}

/* ---- sending ---- */
static uint8_t got[1 << 17]; static size_t ngot;
static struct {int64_t ms; int n;} drain[8]; static int ndrain; static int autodrain;
static void do_drain(void *a) { int n = (intptr_t)a; size_t k = vs_read(rem, got + ngot, n); ngot += k; mc_log("  remote reads %zu of %d", k, n); }
static void do_close(void *a) { mc_log("  remote resets"); vs_rst(rem); }
static coroutine void sender(void) {
    for(int i = 0; i < ncalls; ++i) {
        struct call *c = &calls[i];
        mc_log("bsendl %s, deadline %ld", gl_str(&c->g), (long)c->dl);
        c->from = vk_us() / 1000;
        errno = 0;
        if(c->g.n == 1 && (c->g.total & 1)) c->rc = bsend(sock, c->g.base[0], c->g.total, c->dl <= 0 ? c->dl : t0 + c->dl);
        else c->rc = bsendl(sock, GL_FIRST(&c->g), GL_LAST(&c->g), c->dl <= 0 ? c->dl : t0 + c->dl);
        c->err = errno; c->at = vk_us() / 1000; c->done = 1;
        mc_log("   = %d (%s)", c->rc, c->rc ? strerror(c->err) : "ok");
    }
}
static void send_(void) {
    begin();
    static const int sm[] = {1, 0, 3, 5};
    int ipc = mc_arg & 1, nc = mc_arg >> 4 & 15, mi = mc_arg >> 8 & 15, mode = mc_arg >> 12 & 15;
    vk.cap = mode == 2 ? 2000 : 4; 
    sock = conn(ipc);
    vk.short_rw = vk.eagain = 1;
    memset(calls, 0, sizeof calls); ncalls = nc; ngot = 0; ndrain = 0; endtype = E_NONE;
    size_t total = 0;
    t0 = now();
    for(int i = 0; i < nc; ++i) {
        if(mode == 2) gl_pick(&calls[i].g, mi, large, 4, 0); else gl_pick(&calls[i].g, mi, sm, nc > 1 ? 3 : 4, 0);
        gl_fill(&calls[i].g, total);
        int k = mc_pick(i == nc - 1 ? 3 : 2, "deadline");
        calls[i].dl = k == 0 ? -1 : k == 1 ? 5 : 0;
        total += calls[i].g.total;
    }
    int nd = mc_pick(4, "drains");
    int64_t ms = 2;
    for(int i = 0; i < nd; ++i, ms += 2) {
        int o[] = {1, 2, 4}; int n = o[mc_pick(i == 2 ? 1 : 3, "drain")]; if(mode == 2) n = n == 4 ? 2000 : n == 2 ? 999 : 1; if(i == 2) n = 1 << 16;
        drain[ndrain].ms = ms; drain[ndrain++].n = n;
        vk_at((t0 + ms) * 1000, do_drain, (void*)(intptr_t)n);
    }
    int end = mc_pick(2, "remote resets");
    if(end) vk_at((t0 + ms) * 1000, do_close, NULL);
    int h = go(sender());
    int64_t ca = INT64_MAX;
    if(!calls[nc - 1].done) { int c = mc_pick(3, "cancel"); msleep(t0 + (c == 0 ? 20 : c == 1 ? 1 : 3)); }
    if(!calls[nc - 1].done) ca = vk_us() / 1000 - t0;
    MC_CHECK(hclose(h) == 0, "hclose", "hclose");
    /* Oracle. */
    size_t pos = 0, certain = 0, maxpos = 0; int dead = 0;
    for(int i = 0; i < nc; ++i) {
        struct call *c = &calls[i];
        MC_CHECK(c->done, "hung", "call %d has not returned", i);
        gl_check(&c->g); mc_step();
        if(dead) { MC_CHECK(c->rc == -1 && c->err == ECONNRESET, "after-failure", "bsendl after a failed one gave %d (%s)", c->rc, strerror(c->err)); continue; }
        int64_t from = c->from - t0, w = -1;
        /* Room for everything. */
        size_t cap = vk.cap, inflight = pos + c->g.total;
        int64_t t = 0; 
        if(inflight <= cap) w = from; else {
            size_t removed = 0, sent = pos; int64_t prev = 0;
            /* replay: at each drain, removed += min(n, sent - removed) where sent grows to the room */
            size_t s = inflight < cap ? inflight : cap; w = INT64_MAX;
            /* what had been sent before this call was limited to pos */
            size_t lim = pos;
            for(int k = 0; k < ndrain; ++k) {
                if(drain[k].ms > from || (drain[k].ms == from && 0)) lim = inflight;
                size_t room = removed + cap; size_t out = lim < room ? lim : room;
                size_t d = out - removed < (size_t)drain[k].n ? out - removed : (size_t)drain[k].n;
                removed += d;
                if(inflight <= removed + cap) { w = drain[k].ms < from ? from : drain[k].ms; break; }
            }
        }
        int64_t d = c->dl < 0 ? INT64_MAX : c->dl == 0 || c->dl < from ? from : c->dl;
        int64_t e = end ? (ms < from ? from : ms) : INT64_MAX;
        int exp; int64_t at;
        int isdead = end && from >= ms;
        if(c->g.total == 0) { exp = 0; at = from; }
        else if(isdead) { exp = ECONNRESET; at = from; }
        else if(w != INT64_MAX && w <= d && w <= ca) { exp = 0; at = w; }
        else if(e != INT64_MAX && e <= d && e <= ca) { exp = ECONNRESET; at = e; }
        else if(d <= ca && d != INT64_MAX) { exp = ETIMEDOUT; at = d; }
        else { exp = ECANCELED; at = ca; }
        MC_CHECK((c->rc == 0 ? 0 : c->err) == exp, exp == 0 || c->rc ? "result" : "false-success", "call %d, bsendl %s at %ld with deadline %ld gave %d (%s), expected %s", i, gl_str(&c->g), (long)from, (long)c->dl, c->rc, c->rc ? strerror(c->err) : "ok", exp ? strerror(exp) : "success");
        if(ca == INT64_MAX || at < ca) MC_CHECK(c->at - t0 == at, "late", "call %d returned at %ld instead of %ld", i, (long)(c->at - t0), (long)at);
        maxpos = pos + c->g.total;
        if(exp == 0) pos += c->g.total; else dead = 1;
        mc_obs(mc_mix(i, exp));
    }
    mc_state(mc_mix(pos, dead));
    msleep(t0 + 20);
    if(!end || nd == 3) { do_drain((void*)(intptr_t)(1 << 16)); }
    if(!end) MC_CHECK(ngot >= pos, "lost", "%zu bytes were sent successfully but only %zu have arrived", pos, ngot);
    MC_CHECK(ngot <= maxpos || (dead == 0 && ngot <= pos), "extra", "%zu bytes have arrived, at most %zu were sent", ngot, maxpos);
    for(size_t i = 0; i < ngot; ++i) MC_CHECK(got[i] == pat[i], "data", "byte %zu arrived as %02x instead of %02x", i, got[i], pat[i]);
    if(!end) {
        /* The other direction is not affected. */
        vs_write(rem, "po", 2); char b[2];
        MC_CHECK(brecv(sock, b, 2, -1) == 0 && !memcmp(b, "po", 2), "other-direction", "brecv: %s", strerror(errno));
        if(dead) { errno = 0; MC_CHECK(bsend(sock, "x", 1, 0) == -1 && errno == ECONNRESET, "after-failure", "bsend after a failed one: %s", strerror(errno)); }
        MC_CHECK(vs_avail(rem) == 0, "extra", "bytes after the end");
    }
    for(int i = 0; i < nc; ++i) gl_free(&calls[i].g);
    hclose(sock);
}

/* ---- two ends, both directions at once ---- */
struct flow { int from, to; int nmsg; int slen[4]; int nrcv; int rlen[8]; int base; int sdone, rdone; };
static coroutine void fsend(struct flow *f) {
    size_t pos = f->base;
    for(int i = 0; i < f->nmsg; ++i) {
        int l[2] = {f->slen[i] / 2, f->slen[i] - f->slen[i] / 2};
        struct gl g; gl_build(&g, 2, l, NULL); gl_fill(&g, pos); pos += f->slen[i];
        int rc = bsendl(f->from, GL_FIRST(&g), GL_LAST(&g), -1);
        MC_CHECK(rc == 0, "result", "bsendl: %s", strerror(errno));
        gl_check(&g); gl_free(&g); mc_step();
    }
    f->sdone = 1;
}
static coroutine void frecv(struct flow *f) {
    size_t pos = f->base;
    for(int i = 0; i < f->nrcv; ++i) {
        int l[2] = {1, f->rlen[i] - 1};
        struct gl g; gl_build(&g, f->rlen[i] > 1 ? 2 : 1, l, NULL);
        int rc = brecvl(f->to, GL_FIRST(&g), GL_LAST(&g), -1);
        MC_CHECK(rc == 0, "result", "brecvl: %s", strerror(errno));
        gl_expect(&g, pat + pos, f->rlen[i], 0); pos += f->rlen[i];
        gl_check(&g); gl_free(&g); mc_step();
    }
    f->rdone = 1;
}
static struct flow fl[2];
static coroutine void acceptor(int ls, int ipc, int *out) { *out = ipc ? ipc_accept(ls, -1) : tcp_accept(ls, NULL, -1); }
static void open_pair(int kind, int s[2], int *ls) {
    *ls = -1;
    if(kind == 0) { MC_CHECK(ipc_pair(s) == 0, "pair", "ipc_pair: %s", strerror(errno)); return; }
    struct ipaddr a;
    if(kind == 1) { MC_CHECK(ipaddr_local(&a, "127.0.0.1", 5555, IPADDR_IPV4) == 0, "addr", "addr"); *ls = tcp_listen(&a, 5); }
    else *ls = ipc_listen("/sock", 5);
    MC_CHECK(*ls >= 0, "listen", "listen: %s", strerror(errno));
    s[0] = s[1] = -1;
    int h = go(acceptor(*ls, kind == 2, &s[1]));
    s[0] = kind == 1 ? tcp_connect(&a, -1) : ipc_connect("/sock", -1);
    MC_CHECK(s[0] >= 0, "connect", "connect: %s", strerror(errno));
    MC_CHECK(bundle_wait(h, -1) == 0, "accept", "accept"); hclose(h);
    MC_CHECK(s[1] >= 0, "accept", "accept: %s", strerror(errno));
}
static void pair_(void) {
    begin();
    int kind = mc_arg & 3, big = mc_arg >> 4 & 1, cap = mc_arg >> 8;
    vk.cap = cap;
    int s[2], ls;
    open_pair(kind, s, &ls);
    vk.short_rw = vk.eagain = 1; vk.ev_order = 1;
    memset(fl, 0, sizeof fl);
    for(int i = 0; i < 2; ++i) {
        struct flow *f = &fl[i];
        f->from = s[i]; f->to = s[!i]; f->base = i * 5000;
        static const int sets[4][3] = {{5, 0, 0}, {1, 4, 0}, {3, 2, 0}, {2, 1, 2}};
        static const int bsets[4][3] = {{5000, 0, 0}, {1984, 3016, 0}, {1, 1985, 3014}, {2499, 2, 2499}};
        int a = mc_pick(4, "sent as"), b = i ? a ^ 1 : mc_pick(4, "received as");
        for(int k = 0; k < 3; ++k) { int v = big ? bsets[a][k] : sets[a][k]; if(v) f->slen[f->nmsg++] = v; }
        for(int k = 0; k < 3; ++k) { int v = big ? bsets[b][k] : sets[b][k]; if(v) f->rlen[f->nrcv++] = v; }
    }
    int b = bundle();
    int ord = mc_pick(3, "order");
    if(ord == 0) { bundle_go(b, fsend(&fl[0])); bundle_go(b, fsend(&fl[1])); bundle_go(b, frecv(&fl[0])); bundle_go(b, frecv(&fl[1])); }
    else if(ord == 1) { bundle_go(b, frecv(&fl[1])); bundle_go(b, fsend(&fl[0])); bundle_go(b, frecv(&fl[0])); bundle_go(b, fsend(&fl[1])); }
    else { bundle_go(b, frecv(&fl[0])); bundle_go(b, frecv(&fl[1])); bundle_go(b, fsend(&fl[1])); bundle_go(b, fsend(&fl[0])); }
    int64_t dl = now() + 1000;
    MC_CHECK(bundle_wait(b, dl) == 0, "stuck", "transfer does not end: senders %d %d, receivers %d %d", fl[0].sdone, fl[1].sdone, fl[0].rdone, fl[1].rdone);
    hclose(b);
    mc_obs(1);
    /* Nothing more than what was sent. */
    char x; for(int i = 0; i < 2; ++i) MC_CHECK(brecv(s[i], &x, 1, now() + 1) == -1 && errno == ETIMEDOUT, "extra", "an extra byte has arrived");
    hclose(s[0]); hclose(s[1]); if(ls >= 0) hclose(ls);
}

/* ---- concurrent use of one direction ---- */
static int brc[2], berr[2];
static coroutine void one_recv(int i) { char b[2] = {0, 0}; brc[i] = brecv(sock, b, 2, -1); berr[i] = errno; if(brc[i] == 0) MC_CHECK(!memcmp(b, pat, 2), "data", "data"); }
static coroutine void one_send(int i) { brc[i] = bsend(sock, pat, 6, -1); berr[i] = errno; }
static void busy(void) {
    begin();
    int ipc = mc_pick(2, "ipc"), dir = mc_pick(2, "direction");
    vk.cap = 4;
    sock = conn(ipc);
    brc[0] = brc[1] = 99;
    int h0 = dir ? go(one_send(0)) : go(one_recv(0)), h1 = dir ? go(one_send(1)) : go(one_recv(1));
    MC_CHECK(brc[0] == 99, "vk", "first call should block");
    MC_CHECK(brc[1] == -1 && berr[1] == EBUSY, "busy", "second concurrent call: %d (%s)", brc[1], strerror(berr[1]));
    if(!dir) { vs_write(rem, pat, 2); msleep(now() + 2); } else { uint8_t b[8]; vs_read(rem, b, 4); msleep(now() + 2); MC_CHECK(vs_read(rem, b + 4, 4) == 2 && !memcmp(b, pat, 6), "data", "data"); }
    MC_CHECK(brc[0] == 0, "busy", "first call was disturbed by the second one: %d (%s)", brc[0], strerror(berr[0]));
    hclose(h0); hclose(h1);
    /* The refused call has no after-effect. */
    if(!dir) { vs_write(rem, pat, 2); brc[1] = 99; hclose(go(one_recv(1))); } else { uint8_t b[8]; brc[1] = 99; h1 = go(one_send(1)); vs_read(rem, b, 4); msleep(now() + 2); hclose(h1); }
    MC_CHECK(brc[1] == 0, "busy", "call after a refused one: %d (%s)", brc[1], strerror(berr[1]));
    hclose(sock);
    mc_obs(dir);
}

/* ---- long lists ---- */
static struct dill_iolist ll[1700]; static uint8_t lb[1700];
static void longlist(void) {
    begin();
    int ipc = mc_pick(2, "ipc"), n = (int[]){127, 128, 129, 1024, 1025, 1700}[mc_pick(6, "items")], dir = mc_pick(3, "direction");
    sock = conn(ipc);
    int step = 1 + mc_pick(2, "empty items");
    size_t tot = 0;
    for(int i = 0; i < n; ++i) { ll[i] = (struct dill_iolist){&lb[i], step == 2 && i % 2 ? 0 : 1, i < n - 1 ? &ll[i + 1] : NULL, 0}; lb[i] = 0; tot += ll[i].iol_len; }
    if(dir == 0) {
        for(int i = 0, k = 0; i < n; ++i) if(ll[i].iol_len) lb[i] = pat[k++];
        MC_CHECK(bsendl(sock, ll, &ll[n - 1], now() + 5) == 0, "long-list", "bsendl of %d items: %s", n, strerror(errno));
        MC_CHECK(vs_read(rem, got, sizeof got) == tot && !memcmp(got, pat, tot), "data", "data sent");
    } else {
        if(dir == 2) { vs_write(rem, pat, 1); char c; brecv(sock, &c, 1, -1); ll[n / 2].iol_len = 2500; static uint8_t bb[2500]; ll[n / 2].iol_base = bb; tot = 0; for(int i = 0; i < n; ++i) tot += ll[i].iol_len; }
        vs_write(rem, pat + (dir == 2), tot);
        MC_CHECK(brecvl(sock, ll, &ll[n - 1], now() + 5) == 0, "long-list", "brecvl of %d items: %s", n, strerror(errno));
        size_t k = dir == 2;
        for(int i = 0; i < n; ++i) { MC_CHECK(!memcmp(ll[i].iol_base, pat + k, ll[i].iol_len), "data", "item %d", i); k += ll[i].iol_len; }
    }
    for(int i = 0; i < n; ++i) MC_CHECK(ll[i].iol_rsvd == 0 && ll[i].iol_next == (i < n - 1 ? &ll[i + 1] : NULL), "list-changed", "item %d modified", i);
    hclose(sock);
    mc_obs(n);
}

struct mc_scn mc_scns[] = {
    {"tcp-recv1", "one brecvl: every list of 1-3 items of {0,1,3} bytes or NULL, every fragmentation into 1-3 pieces, every ending, deadline, cancellation", recv_, 0, 1, 0x310},
    {"tcp-recv1s", "lists of 1-2 items, with short reads and EAGAIN", recv_, 1, 3, 0x210},
    {"ipc-recv1", "the same over IPC", recv_, -1, 1, 0x311},
    {"ipc-recv1s", "lists of 1-2 items, with short reads and EAGAIN", recv_, 1, 3, 0x211},
    {"tcp-recv2", "two brecvl of 1-2 items", recv_, 0, 2, 0x1220},
    {"ipc-recv2", "two brecvl of 1-2 items", recv_, -1, 2, 0x1221},
    {"tcp-recv3", "three brecvl of one item", recv_, 0, 2, 0x130},
    {"tcp-big1", "one brecvl around the size of the rx buffer", recv_, 0, 1, 0x2210},
    {"tcp-big2", "two brecvl around the size of the rx buffer", recv_, 0, 1, 0x2120},
    {"ipc-big1", "one brecvl of large buffers over IPC", recv_, 0, 1, 0x2211},
    {"tcp-send1", "one bsendl of 1-3 items through a 4 byte pipe, every schedule of up to 3 drains, reset, deadline, cancellation", send_, 1, 3, 0x310},
    {"ipc-send1", "the same over IPC", send_, 1, 3, 0x311},
    {"tcp-send2", "two bsendl of 1-2 items", send_, 0, 2, 0x220},
    {"tcp-bigsend", "bsendl of items around 2000 bytes through a 2000 byte pipe", send_, 1, 2, 0x2210},
    {"ipc-pair", "both directions at once over a 3 byte pipe", pair_, 2, 4, 0x300},
    {"tcp-pair", "both directions at once over a TCP connection, 3 byte pipe", pair_, 2, 4, 0x301},
    {"ipc-lis-pair", "both directions over an accepted IPC connection", pair_, 1, 3, 0x302},
    {"tcp-pair-big", "large messages, 1500 byte pipe", pair_, 1, 2, 0x5dc11},
    {"busy", "two coroutines in the same direction", busy, 0, 0, 0},
    {"long-list", "lists of up to 1700 items", longlist, 0, 0, 0},
    {0}};
