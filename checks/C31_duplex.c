// mc: variant=tls redef=tls:SSL_CTX_use_PrivateKey_file:te_usekey,tls:SSL_CTX_use_certificate_file:te_usecert
/* C31: the two directions of a socket are independent, and each belongs to one
   coroutine at a time: a second one gets EBUSY and disturbs nothing. On every
   kind of socket and stack of protocols, over the library's TCP and IPC
   sockets of little capacity. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "libdillimpl.h"
#include "tlsenv.h"

const char *mc_property = "C31";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "the kernel's answers come from the virtual kernel: at each read and write, short transfers and EAGAIN within the bound",
    "OpenSSL (the installed one) is trusted, with its random numbers replaced by a deterministic sequence", NULL};

/* ---- stacks ----
   t tcp, i ipc; p prefix of 4 bytes, q prefix of 1 byte little endian, s suffix, m term, w and W binary and text websocket, h http, L tls */
static const char *const K[] = {"t", "i", "ip", "tq", "is", "ipm", "tsm", "iw", "tW", "ih", "tL", "iLp", "iLw", "iLh"};
#define NK ((int)(sizeof K / sizeof *K))
static const char *k; static char top; static char top_(int kind) { return K[kind][strlen(K[kind]) - 1]; } static int S[2], tls;
static int deads(void) { int p[2]; if(ipc_pair(p)) mc_fail("setup", "ipc_pair"); hclose(p[1]); return p[0]; }
static int attach(int s, int srv) {
    for(const char *c = k + 1; *c && s >= 0; ++c) switch(*c) {
    case 'p': s = prefix_attach(s, 4, 0); break; case 'q': s = prefix_attach(s, 1, PREFIX_LITTLE_ENDIAN); break;
    case 's': s = suffix_attach(s, "\r\n", 2); break; case 'm': s = term_attach(s, "END", 3); break; case 'h': s = http_attach(s); break;
    case 'w': case 'W': { int f = (*c == 'w' ? WS_BINARY : WS_TEXT) | WS_NOHTTP; s = srv ? ws_attach_server(s, f, NULL, 0, NULL, 0, now() + 500) : ws_attach_client(s, f, NULL, NULL, now() + 500); break; }
    case 'L': s = srv ? tls_attach_server(s, te_cert, te_key, now() + 500) : tls_attach_client(s, now() + 500); break; }
    MC_CHECK(s >= 0, "attach", "%s, side %d: %s", k, srv, strerror(errno)); return s;
}
/* Lets everybody go on, and polls once. */
static void step(void) { int rc = msleep(now()); MC_CHECK(rc == 0, "msleep", "%s", strerror(errno)); }

/* ---- what is sent ---- */
#define MAXM 8
static int len[2][MAXM];
static char pat(int e, int i, int j) { return 'a' + (e * 11 + i * 5 + j * (1 + e)) % 26; }
static int bytes(void) { return top == 't' || top == 'i' || top == 'L'; }
static long snd(int e, int i, int how, int64_t dl) {
    char b[600]; int n = len[e][i]; for(int j = 0; j < n; ++j) b[j] = pat(e, i, j); b[n] = 0; if(n > 500) mc_broken("length");
    struct iolist l[2] = {{b, n / 2, &l[1], 0}, {b + n / 2, n - n / 2, NULL, 0}}; int s = S[e];
    if(top == 'h') return i ? http_sendfield(s, "n", b, dl) : http_sendrequest(s, "GET", b, dl);
    if(bytes()) return how ? bsendl(s, l, l + 1, dl) : bsend(s, b, n, dl);
    if(top == 'w' && how == 2) return ws_send(s, WS_BINARY, b, n, dl);
    return how ? msendl(s, l, l + 1, dl) : msend(s, b, n, dl);
}
/* Receives what the other end has sent as i, 1 if it is right. */
static long rcv(int e, int i, int how, int64_t dl, int *intact) {
    char b[602], v[602], m[16]; int n = len[!e][i]; memset(b, '#', sizeof b); memset(v, '#', sizeof v); memset(m, '#', sizeof m); long rc; int s = S[e];
    struct iolist l[2] = {{b, n / 2, &l[1], 0}, {b + n / 2, n - n / 2, NULL, 0}}, sk = {NULL, n, NULL, 0};
    if(top == 'h') rc = i ? http_recvfield(s, m, sizeof m, b, 600, dl) : http_recvrequest(s, m, sizeof m, b, 600, dl);
    else if(bytes()) rc = how == 2 ? brecvl(s, &sk, &sk, dl) : how ? brecvl(s, l, l + 1, dl) : brecv(s, b, n, dl);
    else rc = how == 2 ? mrecvl(s, NULL, NULL, dl) : how ? mrecvl(s, l, l + 1, dl) : mrecv(s, b, 600, dl);
    int er = errno;
    if(rc >= 0) { MC_CHECK(rc == (bytes() || top == 'h' ? 0 : n), "size", "receiving %d bytes gave %ld", n, rc);
        if(how != 2 || top == 'h') { for(int j = 0; j < n; ++j) MC_CHECK(b[j] == pat(!e, i, j), "data", "item %d towards %d, byte %d of %d is %02x", i, e, j, n, b[j]);
            MC_CHECK(b[n] == (top == 'h' ? 0 : '#'), "data", "something after the data"); if(top == 'h') MC_CHECK(!strcmp(m, i ? "n" : "GET"), "data", "'%.16s'", m); } }
    else if(intact) { *intact = 1; for(int j = 0; j < 600; ++j) if(b[j] != '#' || v[j] != '#') *intact = 0; for(int j = 0; j < 16; ++j) if(m[j] != '#') *intact = 0; }
    errno = er; return rc;
}
/* The server's tickets have to be read by the client. */
static coroutine void attacher(int i, int *fin) { S[i] = attach(S[i], i); if(tls) { len[1][MAXM - 1] = 1; long rc = i ? snd(1, MAXM - 1, 0, now() + 100) : rcv(0, MAXM - 1, 0, now() + 100, NULL); MC_CHECK(rc >= 0, "setup", "%s", strerror(errno)); } ++*fin; }
static void begin(int kind, int cap) {
    k = K[kind]; top = k[strlen(k) - 1]; tls = !!strchr(k, 'L'); vk.cap = tls && cap < 25 ? 20 + cap : cap; if(tls) te_begin(deads);
    if(*k == 'i') { if(ipc_pair(S)) mc_fail("setup", "ipc_pair"); }
    else { struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 5555, 0); int l = tcp_listen(&a, 1); S[0] = tcp_connect(&a, now() + 100); S[1] = tcp_accept(l, NULL, now() + 100); if(S[0] < 0 || S[1] < 0) mc_fail("setup", "tcp"); hclose(l); }
    int fin = 0, h[2]; for(int i = 0; i < 2; ++i) h[i] = go(attacher(i, &fin)); for(int i = 0; fin < 2; ++i) { if(i > 1000) mc_fail("hang", "attaching"); msleep(now() + 1); } hclose(h[0]); hclose(h[1]);
}
static void finish(void) { for(int i = 0; i < 2; ++i) if(S[i] >= 0) { int rc = hclose(S[i]); MC_CHECK(rc == 0, "close", "hclose: %s", strerror(errno)); } if(tls) te_finish(); }

static int hasdone(void) { return !strchr("pqs", top); }
static long done_(int e, int64_t dl) { switch(top) { case 't': return tcp_done(S[e], dl); case 'i': return ipc_done(S[e], dl); case 'm': return term_done(S[e], dl); case 'w': case 'W': return ws_done(S[e], 1000, NULL, 0, dl); case 'h': return http_done(S[e], dl); case 'L': return tls_done(S[e], dl); } return -1; }
/* One coroutine in one direction. */
struct job { int e, in, from, to, how; int64_t dl; int n, fin, pend, err; long rc; int64_t t; } J[8];
static coroutine void job(struct job *j) {
    j->n = j->from; j->fin = 0; j->rc = 0;
    for(; j->n < j->to; ++j->n) { j->pend = 1; errno = 0; j->rc = j->in ? rcv(j->e, j->n, j->how, j->dl, NULL) : snd(j->e, j->n, j->how, j->dl); j->err = errno; j->pend = 0; j->t = now(); if(j->rc < 0) break; mc_step(); }
    j->fin = 1;
}
static int start(int i, int e, int in, int from, int to, int how, int64_t dl) { J[i] = (struct job){e, in, from, to, how, dl, 0, 0, 0, 0, 0, 0}; int h = go(job(&J[i])); if(h < 0) mc_fail("setup", "go"); return h; }
static void good(int i) { MC_CHECK(J[i].rc >= 0, "broken", "%s: %s %d at %d: %s", k, J[i].in ? "receiving" : "sending", J[i].n, J[i].e, strerror(J[i].err)); }
static void all(int n, int max) { for(int t = 0;; ++t) { int f = 0; for(int i = 0; i < n; ++i) f += J[i].fin; for(int i = 0; i < n; ++i) if(J[i].fin && J[i].rc < 0) good(i); if(f == n) return; if(t > max) { for(int i = 0; i < n; ++i) if(!J[i].fin) mc_fail("hang", "%s: %s %d at %d never ends", k, J[i].in ? "receiving" : "sending", J[i].n, J[i].e); } int rc = msleep(now() + 1); MC_CHECK(rc == 0, "msleep", "%s", strerror(errno)); } }
/* Messages go both ways still. */
static void works(int from, int to, int e0, int e1) {
    int n = 0, h[4]; if(e0) { h[n] = start(n, 0, 0, from, to, 0, -1); n++; h[n] = start(n, 1, 1, from, to, 0, -1); n++; } if(e1) { h[n] = start(n, 1, 0, from, to, 0, -1); n++; h[n] = start(n, 0, 1, from, to, 0, -1); n++; }
    all(n, 300); for(int i = 0; i < n; ++i) { good(i); hclose(h[i]); }
}

/* ---- both directions of both ends at once ---- */
static void duplex(void) {
    static const int L[3][2][3] = {{{7, 1, 4}, {5, 3, 9}}, {{30, 2, 1}, {1, 40, 3}}, {{1, 1, 1}, {60, 5, 2}}};
    int kind = mc_pick(NK, "stack"), prog = mc_pick(3, "sizes"), cap = mc_pick(3, "capacity"), how = mc_pick(3, "how"), ord = mc_pick(mc_thorough ? 24 : 8, "order");
    begin(kind, cap == 0 ? 1 : cap == 1 ? 5 : 1000); for(int e = 0; e < 2; ++e) for(int i = 0; i < 3; ++i) len[e][i] = L[prog][e][i];
    vk.short_rw = vk.eagain = 1; vk.rw_choice_max = tls ? 12 : 30; vk_rw_points = 0;
    int q[4] = {0, 1, 2, 3}, h[4], o = mc_thorough ? ord : ord * 3 + 1; for(int i = 0; i < 4; ++i) { int d = i == 0 ? o / 6 : i == 1 ? o / 2 % 3 : i == 2 ? o % 2 : 0, x = q[i + d]; memmove(q + i + 1, q + i, d * sizeof *q); q[i] = x; }
    for(int i = 0; i < 4; ++i) h[i] = start(i, q[i] & 1, q[i] >> 1, 0, 3, how, -1);
    all(4, 2000); for(int i = 0; i < 4; ++i) { good(i); hclose(h[i]); } vk.short_rw = vk.eagain = 0;
    mc_state(mc_mix(mc_mix(kind, prog), mc_mix(cap, ord))); finish();
}

/* ---- one direction fails, the other goes on ---- */
static void onefails(void) {
    int kind = mc_pick(NK, "stack"), in = mc_pick(2, "direction"), why = mc_pick(3, "why"), cap = mc_pick(2, "capacity"), ord = mc_pick(2, "order"), part = mc_pick(3, "progress"), late = mc_pick(2, "other");
    begin(kind, cap ? 5 : 1); for(int e = 0; e < 2; ++e) for(int i = 0; i < MAXM; ++i) len[e][i] = i == 1 || tls ? 60 : 4 + i;
    int peerdone = why == 2; if(peerdone && (!in || !hasdone())) { mc_trivial(); finish(); return; }
    /* job 0 fails at 20 ms; job 1 of the other direction at the same end gets through at 50 ms */
    int64_t t0 = now(); int h[4], n = 2;
    for(int i = 0; i < 2; ++i) { if(i ^ ord) h[1] = start(1, 0, !in, late ? 1 : 0, 2, 0, -1); else h[0] = start(0, 0, in, 0, MAXM, 0, why == 0 ? t0 + 20 : -1); }
    /* The peer: before the failure it serves the failing direction a little. */
    if(part && !peerdone) { h[2] = start(2, 1, !in, 0, 1, 0, t0 + 10); int64_t t = t0 + 10; msleep(t); if(part == 2) { msleep(t0 + 11); } hclose(h[2]); if(in) { /* 0 was received, or cut */ } }
    msleep(t0 + 20);
    if(why == 1) { hclose(h[0]); MC_CHECK(J[0].fin, "cancel", "not cancelled"); }
    if(why == 2) { long rc = done_(1, -1); int er = errno; MC_CHECK(rc == 0, "done", "%s: the peer's done: %s", k, strerror(er)); for(int i = 0; i < 20 && !J[0].fin; ++i) step(); }
    msleep(t0 + 22);
    MC_CHECK(J[0].fin, "fails", "%s: %s goes on after its %s", k, in ? "receiving" : "sending", why == 0 ? "deadline" : why == 1 ? "cancellation" : "end");
    MC_CHECK(J[0].rc < 0 && J[0].err == (why == 0 ? ETIMEDOUT : why == 1 ? ECANCELED : EPIPE), "fails", "%s: %s: %ld %s", k, in ? "receiving" : "sending", J[0].rc, strerror(J[0].err)); if(why != 2) MC_CHECK(J[0].t == t0 + 20, "time", "after %d ms", (int)(J[0].t - t0));
    if(why != 1) hclose(h[0]);
    J[0].fin = 1; J[0].rc = 0; msleep(t0 + 50);
    /* Now the peer serves the other direction. */
    if(!J[1].fin || J[1].in == 0) { n = late ? 1 : 0; h[3] = start(2, 1, in, n, 2, 0, -1); all(3, 200); good(1); good(2); hclose(h[3]); } else good(1);
    hclose(h[1]); works(2, 5, in, !in);
    errno = 0; int intact; long rc = in ? rcv(0, 6, 0, now() + 5, &intact) : snd(0, 6, 0, now() + 5); if(why == 2) MC_CHECK(rc < 0 && errno == EPIPE, "sticky", "%s: after the end: %ld %s", k, rc, strerror(errno));
    else if(top != 'm' && top != 'h') MC_CHECK(rc < 0 && errno == ECONNRESET, "sticky", "%s: after the failure: %ld %s", k, rc, strerror(errno));
    mc_step(); mc_state(mc_mix(mc_mix(kind, in * 4 + why), mc_mix(cap * 4 + ord, part * 2 + late))); finish();
}

/* ---- two coroutines in the same direction ---- */
static int poker_n;
static void poke(int e, int in, int y, int64_t dl) {
    errno = 0; int intact = 1; int64_t t = now(); long rc; len[e][6] = len[!e][6] = 3;
    if(in) rc = rcv(e, 6, y, dl, &intact); else rc = snd(e, 6, y, dl);
    int er = errno; MC_CHECK(now() == t, "blocked", "%s: a second coroutine %s is blocked", k, in ? "receiving" : "sending");
    MC_CHECK(rc == -1 && er == EBUSY, "ebusy", "%s: a second coroutine %s got %ld %s", k, in ? "receiving" : "sending", rc, strerror(er));
    MC_CHECK(intact, "buffer", "%s: the buffer was changed", k); poker_n++; mc_step();
}
static void busy(void) {
    int kind = mc_pick(NK, "stack"), in = mc_pick(2, "direction"), y = mc_pick(in || top_(kind) == 'w' ? 3 : 2, "second"), x = mc_pick(3, "first"), often = mc_pick(3, "often"), dl = mc_pick(2, "deadline"), other = mc_pick(3, "other"), cap = mc_pick(2, "capacity");
    int half = other == 2; if(half) { other = 0; char t = top_(kind); if(strchr("pqs", t)) { mc_trivial(); return; } }
    begin(kind, cap ? 7 : 1); if(half) { /* the other direction has ended before */
        int e = in ? 0 : 1; len[e][5] = 5; int r = start(4, !e, 1, 5, 6, 0, now() + 50); long rc = done_(e, now() + 50); MC_CHECK(rc == 0, "done", "%s: done: %s", k, strerror(errno));
        for(int i = 0; i < 60 && !J[4].fin; ++i) msleep(now() + 1); MC_CHECK(J[4].fin && J[4].rc < 0 && J[4].err == EPIPE, "done", "%s: after the end: %ld %s", k, J[4].rc, strerror(J[4].err)); hclose(r); }
    for(int e = 0; e < 2; ++e) for(int i = 0; i < MAXM; ++i) len[e][i] = i == 0 ? 20 : 4 + i; poker_n = 0;
    vk.short_rw = 1; vk.rw_choice_max = tls ? 4 : 8; vk_rw_points = 0;
    int h[4]; h[0] = start(0, 0, in, 0, 1, x, -1); MC_CHECK(J[0].pend, "setup", "%s is not blocked", in ? "receiving" : "sending");
    if(often) poke(0, in, y, dl ? -1 : 0);
    if(other) { h[2] = start(2, 0, !in, 0, 1, 0, -1); h[3] = start(3, 1, in, 0, 1, 0, -1); }
    h[1] = start(1, 1, !in, 0, 1, 0, -1);
    for(int i = 0; i < 3000 && J[0].pend; ++i) { if(often == 2 || (often == 0 && i == 2)) poke(0, in, y, dl ? -1 : 0); step(); }
    all(other ? 4 : 2, 300); for(int i = 0; i < (other ? 4 : 2); ++i) { good(i); hclose(h[i]); }
    if(half) works(1, 4, !in, in); else { if(!other) works(0, 1, in, !in); works(1, 4, 1, 1); } if(!poker_n) mc_trivial();
    mc_obs(poker_n > 20 ? 20 : poker_n); mc_state(mc_mix(mc_mix(kind, in * 4 + y), mc_mix(x * 4 + often, dl * 4 + other * 2 + cap))); finish();
}
/* ---- two coroutines accepting ---- */
static int ls, ipc, acc[2], aerr[2], afin[2];
static coroutine void accepter(int i, int64_t dl) { errno = 0; acc[i] = ipc ? ipc_accept(ls, dl) : tcp_accept(ls, NULL, dl); aerr[i] = errno; afin[i] = 1; }
static void accepting(void) {
    ipc = mc_pick(2, "ipc"); int d2 = mc_pick(2, "deadline"), how = mc_pick(3, "then"); struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 5555, 0); ls = ipc ? ipc_listen("/s", 4) : tcp_listen(&a, 4); if(ls < 0) mc_fail("setup", "listen");
    afin[0] = afin[1] = 0; acc[0] = acc[1] = -1; int h[2]; h[0] = go(accepter(0, how == 2 ? now() + 20 : -1)); h[1] = go(accepter(1, d2 ? -1 : now() + 10));
    step(); MC_CHECK(!afin[0], "accept", "accept returned %d %s", acc[0], strerror(aerr[0]));
    MC_CHECK(afin[1] && acc[1] == -1 && aerr[1] == EBUSY, "ebusy", "a second accept: %d %s", acc[1], strerror(aerr[1])); hclose(h[1]);
    if(how == 0) { struct vstream *v = vk_remote_client(5555, ipc ? "/s" : NULL); MC_CHECK(v, "accept", "refused"); for(int i = 0; i < 20 && !afin[0]; ++i) step(); MC_CHECK(afin[0] && acc[0] >= 0, "accept", "%d %d %s", afin[0], acc[0], strerror(aerr[0])); hclose(acc[0]); }
    if(how == 1) { hclose(h[0]); MC_CHECK(afin[0] && aerr[0] == ECANCELED, "accept", "cancelled: %d %s", afin[0], strerror(aerr[0])); }
    if(how == 2) { msleep(now() + 21); MC_CHECK(afin[0] && acc[0] == -1 && aerr[0] == ETIMEDOUT, "accept", "timed out: %d %s", afin[0], strerror(aerr[0])); }
    if(how != 1) hclose(h[0]);
    /* It can be used by the next. */
    struct vstream *v = vk_remote_client(5555, ipc ? "/s" : NULL); MC_CHECK(v, "accept", "refused"); int s = ipc ? ipc_accept(ls, now() + 10) : tcp_accept(ls, NULL, now() + 10); MC_CHECK(s >= 0, "accept", "%s", strerror(errno)); hclose(s); hclose(ls); mc_step();
}

struct mc_scn mc_scns[] = {
    {"duplex", "both directions at both ends of every stack at once, every order, short transfers", duplex, 0, 1, 0},
    {"duplex-short", "the same", duplex, -1, 2, 0},
    {"onefails", "a deadline, cancellation or end of one direction, with every progress of the other", onefails, 0, 0, 0},
    {"busy", "a second coroutine in the same direction, at every step of the first", busy, 1, 2, 0},
    {"accept", "two coroutines accepting from a listener", accepting, 0, 0, 0},
    {0}};
