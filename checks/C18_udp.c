/* C18: UDP sockets. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "libdillimpl.h"
#include "iolgen.h"
#include <stdlib.h>
#include <arpa/inet.h>
#include <netinet/in.h>

const char *mc_property = "C18";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {"the virtual kernel delivers every datagram once, in order, and truncates as POSIX says", "lists of at most 1024 items", NULL};

static void addr(struct ipaddr *a, int v6, int host, int port) {
    char t[32]; sprintf(t, v6 ? "fd00::%x" : "10.0.0.%d", host); memset(a, 0, sizeof *a);
    if(v6) { struct sockaddr_in6 *s = (void*)a; s->sin6_family = AF_INET6; s->sin6_port = htons(port); inet_pton(AF_INET6, t, &s->sin6_addr); }
    else { struct sockaddr_in *s = (void*)a; s->sin_family = AF_INET; s->sin_port = htons(port); inet_pton(AF_INET, t, &s->sin_addr); }
}
/* The remote side. */
static struct { struct ipaddr from, to; uint8_t b[70000]; size_t n; } O[8]; static int nO;
static void onsend(const struct sockaddr *from, const struct sockaddr *to, const void *b, size_t n) {
    if(nO == 8) mc_broken("O"); size_t l = to->sa_family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
    memcpy(&O[nO].from, from, l); memcpy(&O[nO].to, to, l); memcpy(O[nO].b, b, n); O[nO++].n = n;
}
static void begin(void) { nO = 0; vk_remote_dgram = onsend; }
static int v6; static struct ipaddr L, R;
static int opensock(int remote, int mem) {
    static struct udp_storage st; addr(&L, v6, 1, 0); addr(&R, v6, 2, 5000);
    int s = mem ? udp_open_mem(&L, remote ? &R : NULL, &st) : udp_open(&L, remote ? &R : NULL);
    MC_CHECK(s >= 0, "open", "udp_open: %s", strerror(errno)); MC_CHECK(ipaddr_port(&L) > 0, "port", "the ephemeral port was not filled in"); return s;
}
static void send_(void) {
    begin(); v6 = mc_pick(2, "IPv6"); int rem = mc_pick(2, "remote"), s = opensock(rem, mc_pick(2, "mem")); vk.eagain = 1;
    static const int lens[] = {0, 1, 3}; static const int big[] = {0, 1, 1472, 65506, 65507, 65508, 66000};
    for(int k = 0; k < 2; ++k) {
        struct gl g; if(mc_arg) { int t = big[mc_pick(7, "size")], c = mc_pick(2, "cut") ? t / 2 : t; int l[2] = {c, t - c}; gl_build(&g, c == t ? 1 : 2, l, NULL); } else gl_pick(&g, k ? 2 : 3, lens, 3, 0);
        gl_fill(&g, k * 10); int api = mc_pick(4, "api"); struct ipaddr d; addr(&d, v6, 3, 6000); int give = api < 2 && mc_pick(2, "address");
        if(api % 2 == 0 && g.n > 1) api++;
        errno = 0; int at = mc_budget(), n0 = nO; int rc = api == 0 ? udp_send(s, give ? &d : NULL, g.base[0], g.total) : api == 1 ? udp_sendl(s, give ? &d : NULL, GL_FIRST(&g), GL_LAST(&g)) : api == 2 ? msend(s, g.base[0], g.total, -1) : msendl(s, GL_FIRST(&g), GL_LAST(&g), -1), err = errno;
        mc_step(); gl_check(&g); struct ipaddr *to = give ? &d : rem ? &R : NULL;
        if(!to) MC_CHECK(rc == -1 && err == EINVAL && nO == n0, "no-address", "sending nowhere gave %d (%s)", rc, strerror(err));
        else if(g.total > 65507) MC_CHECK(rc == -1 && err == EMSGSIZE && nO == n0, "emsgsize", "sending %zu bytes gave %d (%s)", g.total, rc, strerror(err));
        else {
            MC_CHECK(rc == 0, "send", "sending %s: %s", gl_str(&g), strerror(err)); MC_CHECK(nO <= n0 + 1, "twice", "%d datagrams were sent", nO - n0);
            MC_CHECK(nO == n0 + 1 || mc_budget() < at, "lost", "the datagram was not sent");
            if(nO > n0) { MC_CHECK(ipaddr_equal(&O[n0].to, to, 0), "destination", "the datagram went to another address"); MC_CHECK(ipaddr_equal(&O[n0].from, &L, 0), "source", "the datagram came from another address"); MC_CHECK(O[n0].n == g.total, "size", "%zu bytes instead of %zu", O[n0].n, g.total); for(size_t i = 0; i < g.total; ++i) MC_CHECK(O[n0].b[i] == gl_pat(k * 10 + i), "data", "byte %zu of %s", i, gl_str(&g)); }
        }
        gl_free(&g); mc_state(mc_mix(rc, err)); mc_obs(mc_mix(nO, rc));
    }
    hclose(s);
}
/* ---- receiving ---- */
static struct {struct ipaddr from; uint8_t b[16]; size_t n; int64_t at; int mine;} D[4]; static int nD;
static struct rc_ {struct gl g; int drop, api, wantaddr; int64_t dl; ssize_t rc; int err; struct ipaddr a; int64_t from, until; int called;} C[4]; static int nC, S;
static void inject(void *p) { int i = (int)(intptr_t)p; vk_inject_dgram((struct sockaddr*)&D[i].from, (struct sockaddr*)&L, D[i].b, D[i].n); }
static coroutine void rx(void) {
    for(int i = 0; i < nC; ++i) {
        struct rc_ *c = &C[i]; c->from = now(); c->called = 1; memset(&c->a, 0, sizeof c->a); errno = 0; struct dill_iolist *f = c->drop ? NULL : GL_FIRST(&c->g), *l = c->drop ? NULL : GL_LAST(&c->g); struct ipaddr *a = c->wantaddr ? &c->a : NULL;
        int one = c->g.n == 1 && !c->drop && c->g.base[0];
        switch(c->api) { case 0: c->rc = one ? udp_recv(S, a, c->g.base[0], c->g.total, c->dl) : udp_recvl(S, a, f, l, c->dl); break; case 1: c->rc = udp_recvl(S, a, f, l, c->dl); break; case 2: c->rc = one ? mrecv(S, c->g.base[0], c->g.total, c->dl) : mrecvl(S, f, l, c->dl); break; }
        c->err = errno; c->until = now(); mc_log("recv %s = %zd (%s)", c->drop ? "-" : gl_str(&c->g), c->rc, c->rc < 0 ? strerror(c->err) : "ok");
    }
}
static void prefix(struct gl *g, const uint8_t *b, size_t n) { for(int i = 0; i < g->n; ++i) for(size_t k = 0; k < g->it[i].iol_len && n; ++k, --n, ++b) if(g->base[i]) MC_CHECK(((uint8_t*)g->base[i])[k] == *b, "data", "a wrong byte in %s", gl_str(g)); }
static void recv_(void) {
    begin(); v6 = mc_pick(2, "IPv6"); int rem = mc_pick(2, "remote"); S = opensock(rem, 0); int64_t t0 = now();
    static const int sz[] = {3, 0, 1, 6}; nD = mc_arg == 1 ? mc_pick(2, "datagrams") + 1 : mc_pick(3, "datagrams") + 1;
    for(int i = 0; i < nD; ++i) {
        int who = mc_arg == 1 ? 0 : mc_pick(3, "sender"); addr(&D[i].from, v6, who == 2 ? 7 : 2, who == 1 ? 5001 : 5000); D[i].mine = !rem || who == 0;
        D[i].n = sz[mc_pick(mc_arg == 1 ? 4 : 2, "size")]; for(size_t k = 0; k < D[i].n; ++k) D[i].b[k] = gl_pat(20 * i + k);
        D[i].at = mc_arg == 1 ? 0 : mc_pick(2, "later") ? 4 * (i + 1) : 0; if(i && D[i].at < D[i - 1].at) D[i].at = D[i - 1].at;
        if(D[i].at) vk_at(vk_us() + D[i].at * 1000, inject, (void*)(intptr_t)i); else inject((void*)(intptr_t)i);
    }
    vk.eagain = 1; nC = mc_arg == 1 ? 2 : 3; static const int ls[] = {6, 0, 2}; int small = mc_arg == 1 ? 0 : 2 * mc_pick(2, "small buffers");
    for(int i = 0; i < nC; ++i) {
        struct rc_ *c = &C[i]; memset(c, 0, sizeof *c); c->drop = mc_arg == 1 && mc_pick(4, "drop") == 3; c->wantaddr = mc_arg == 1 ? i : 1; c->api = mc_arg == 1 ? mc_pick(3, "api") : i == 0 ? 0 : 2;
        if(c->drop) { static const int one = 1; gl_build(&c->g, 1, &one, NULL); if(c->api == 0) c->api = 1; } else if(mc_arg == 1 && (i == 0 || mc_thorough)) gl_pick(&c->g, i ? 1 : 2, ls, 3, 1); else gl_build(&c->g, 1, ls + small, NULL);
        c->dl = t0 + (mc_arg == 1 ? 20 : 6 + 7 * i);
    }
    int h = go(rx()); MC_CHECK(h >= 0, "go", "go"); msleep(t0 + 40); hclose(h);
    int d = 0, foreign = 0; for(int i = 0; i < nD; ++i) if(!D[i].mine) foreign = 1; /* a discarded datagram may have been in the buffer */
    for(int i = 0; i < nC; ++i) {
        struct rc_ *c = &C[i]; gl_check(&c->g); mc_step(); MC_CHECK(c->called, "hung", "the receiver is stuck");
        size_t room = c->g.total; while(d < nD && !D[d].mine) d++;
        /* Which datagram is the next one, and is it there in time? */
        if(d == nD || t0 + D[d].at > c->dl) { MC_CHECK(c->rc == -1 && c->err == ETIMEDOUT, "invented", "a receive without a datagram gave %zd (%s)", c->rc, strerror(c->err)); MC_CHECK(c->until >= c->dl && c->until <= c->dl + 1, "deadline", "timed out at %lld instead of %lld", (long long)(c->until - t0), (long long)(c->dl - t0)); if(!foreign) gl_expect(&c->g, D[0].b, 0, 0); continue; }
        int64_t when = c->from > t0 + D[d].at ? c->from : t0 + D[d].at; MC_CHECK(c->until <= when + 1, "late", "received at %lld instead of %lld", (long long)(c->until - t0), (long long)(when - t0));
        if(!c->drop && room < D[d].n) { MC_CHECK(c->rc == -1 && c->err == EMSGSIZE, "truncated", "a datagram of %zu bytes into %s gave %zd (%s)", D[d].n, gl_str(&c->g), c->rc, strerror(c->err)); if(!foreign) gl_partial(&c->g, D[d].b, D[d].n); }
        else { MC_CHECK(c->rc == (ssize_t)D[d].n, c->rc < 0 ? "result" : "size", "a datagram of %zu bytes into %s gave %zd (%s)", D[d].n, c->drop ? "-" : gl_str(&c->g), c->rc, c->rc < 0 ? strerror(c->err) : "ok"); if(!c->drop) { if(!foreign) gl_expect(&c->g, D[d].b, D[d].n, 0); else prefix(&c->g, D[d].b, D[d].n); }
            if(c->wantaddr && c->api < 2) MC_CHECK(ipaddr_equal(&c->a, &D[d].from, 0), "sender", "the wrong sender was reported"); }
        d++; mc_state(mc_mix(d, c->rc)); mc_obs(c->rc);
    }
    for(int i = 0; i < nC; ++i) gl_free(&C[i].g); hclose(S);
}
/* Both directions at once, cancellation, a second receiver. */
static ssize_t q_rc; static int q_err; static coroutine void rx1(int64_t dl) { char b[8]; q_rc = mrecv(S, b, 8, dl); q_err = errno; }
static void duplex_(void) {
    begin(); v6 = 0; int rem = 1; S = opensock(rem, mc_pick(2, "mem")); q_rc = -7; int64_t t0 = now(); int dlk = mc_pick(3, "deadline"); int64_t dl = dlk == 0 ? -1 : dlk == 1 ? t0 + 5 : t0 + 50; int h = go(rx1(dl)); if(mc_pick(2, "pause")) msleep(t0 + 2);
    int blocked = q_rc == -7; MC_CHECK(blocked, "early", "mrecv returned %zd", q_rc);
    int n = mc_pick(2, "second") ; char b[4];
    if(n) { int k = mc_pick(2, "api"); int rc = k ? mrecv(S, b, 4, -1) : udp_recv(S, NULL, b, 4, -1); MC_CHECK(rc == -1 && errno == EBUSY, "busy", "a second receiver got %d (%s)", rc, strerror(errno)); }
    int sd = mc_pick(3, "send"); if(sd) { int rc = sd == 1 ? udp_send(S, NULL, "out", 3) : msend(S, "out", 3, -1); MC_CHECK(rc == 0, "send-busy", "sending while another coroutine receives: %s", strerror(errno)); MC_CHECK(nO == 1 && O[0].n == 3 && !memcmp(O[0].b, "out", 3), "data", "wrong datagram"); }
    int how = mc_pick(3, "then"); memcpy(&D[0].from, &R, sizeof R); D[0].n = 2; memcpy(D[0].b, "in", 2);
    if(how == 0) { inject(0); msleep(now() + 1); MC_CHECK(q_rc == 2, "receive", "mrecv gave %zd", q_rc); }
    else if(how == 1) { if(mc_pick(2, "datagram too")) inject(0); hclose(h); h = -1; MC_CHECK(q_rc == 2 || (q_rc == -1 && q_err == ECANCELED), "cancel", "mrecv gave %zd (%s)", q_rc, strerror(q_err)); if(q_rc == -1 && D[0].n) { q_rc = -7; } }
    else { msleep(t0 + 10); if(dlk == 1) MC_CHECK(q_rc == -1 && q_err == ETIMEDOUT, "deadline", "mrecv gave %zd", q_rc); else MC_CHECK(q_rc == -7, "early", "mrecv gave %zd", q_rc); }
    if(h >= 0) hclose(h);
    /* The socket still works. */
    inject(0); ssize_t rc = mrecv(S, b, 4, now() + 3); MC_CHECK(rc == 2 && !memcmp(b, "in", 2), "after", "mrecv gave %zd (%s)", rc, strerror(errno)); MC_CHECK(msend(S, "x", 1, -1) == 0, "after", "msend"); hclose(S); mc_step(); mc_obs(mc_mix(how * 10 + sd, n));
}
static void open_(void) {
    begin(); hclose(opensock(0, 0)); struct ipaddr l, r; int lk = mc_pick(6, "local"), rk = mc_pick(3, "remote"), mem = mc_pick(3, "mem"); static struct udp_storage st; vk.faults = 1; 
    int other = -1; struct ipaddr o; if(lk == 3) { addr(&o, 0, 1, 7000); other = udp_open(&o, NULL); MC_CHECK(other >= 0 && ipaddr_port(&o) == 7000, "open", "other"); }
    /* none, v4 port 0, v4 with a port, v4 taken, v6 port 0, v6 with a port */
    int p = lk == 2 || lk == 5 ? 7001 : lk == 3 ? 7000 : 0; if(lk) addr(&l, lk > 3, 1, p); if(rk) addr(&r, rk == 2, 2, 5000);
    int mismatch = lk && rk && (lk > 3) != (rk == 2); long mem0 = vk_outstanding(); int fds = vk_open_fds(); vk_faults_on(1); int f0 = vk_fault_count; errno = 0;
    int s = mem ? udp_open_mem(lk ? &l : NULL, rk ? &r : NULL, mem == 2 ? NULL : &st) : udp_open(lk ? &l : NULL, rk ? &r : NULL), err = errno; vk_faults_on(0); int faulted = vk_fault_count > f0; mc_step();
    if(mem == 2 || mismatch) MC_CHECK(s == -1 && (err == EINVAL || faulted), "bad-args", "open gave %d (%s)", s, strerror(err));
    else if(faulted) MC_CHECK(s == -1, "fault", "open succeeded though %s failed", vk_last_fault);
    else if(lk == 3) MC_CHECK(s == -1 && err == EADDRINUSE, "in-use", "binding to a port in use gave %d (%s)", s, strerror(err));
    else MC_CHECK(s >= 0, "open", "open: %s", strerror(err));
    if(s < 0) { MC_CHECK(err, "errno", "no errno"); MC_CHECK(vk_open_fds() == fds, "leak", "a descriptor was leaked"); MC_CHECK(vk_outstanding() <= mem0 + (faulted ? 64 : 64), "leak", "memory"); }
    else {
        if(lk) { MC_CHECK(p ? ipaddr_port(&l) == p : ipaddr_port(&l) > 0, "port", "the local port is %d", ipaddr_port(&l)); addr(&D[0].from, lk > 3, 2, 5000); memcpy(&L, &l, sizeof L); D[0].n = 2; inject(0); char b[4]; MC_CHECK(mrecv(s, b, 4, now() + 1) == 2, "receive", "receive: %s", strerror(errno)); }
        if(rk) { MC_CHECK(msend(s, "ab", 2, -1) == 0 && nO == 1 && ipaddr_equal(&O[0].to, &r, 0), "send", "send"); }
        hclose(s); MC_CHECK(vk_open_fds() == fds, "leak", "the descriptor was not closed");
    }
    if(other >= 0) hclose(other); mc_obs(mc_mix(lk * 3 + rk, mc_mix(mem, s >= 0 ? 0 : err)));
}
/* Other handles are refused. */
static void *mq(struct hvfs *v, const void *t) { static struct msock_vfs mv; (void)v; if(t == dill_msock_type) return &mv; errno = ENOTSUP; return NULL; }
static void mcl(struct hvfs *v) { (void)v; }
static void handles_(void) {
    begin(); static struct hvfs hv; hv.query = mq; hv.close = mcl; int k = mc_pick(4, "call"), bad = mc_pick(2, "bad"), h = bad ? 12345 : hmake(&hv); struct ipaddr a; addr(&a, 0, 2, 1); char b[4]; static const int one = 2; struct gl g; gl_build(&g, 1, &one, NULL); errno = 0;
    ssize_t rc = k == 0 ? udp_send(h, &a, "x", 1) : k == 1 ? udp_recv(h, &a, b, 4, 0) : k == 2 ? udp_sendl(h, &a, GL_FIRST(&g), GL_LAST(&g)) : udp_recvl(h, &a, GL_FIRST(&g), GL_LAST(&g), 0);
    MC_CHECK(rc == -1 && errno == (bad ? EBADF : ENOTSUP), "bad-handle", "call %d gave %zd (%s)", k, rc, strerror(errno)); gl_check(&g); gl_free(&g); if(!bad) hclose(h); mc_step(); mc_obs(k * 2 + bad);
}
static void lists_(void) { /* malformed lists */
    begin(); v6 = 0; int s = opensock(1, 0), k = mc_pick(6, "defect"), call = mc_pick(4, "call"); struct gl g; int l[3] = {1, 1, 1}; gl_build(&g, 3, l, NULL); struct dill_iolist *f = &g.it[0], *z = &g.it[2];
    switch(k) { case 0: z = &g.it[1]; break; case 1: g.it[1].iol_rsvd = 1; break; case 2: g.it[2].iol_next = &g.it[0]; break; case 3: f = NULL; break; case 4: z = NULL; break; case 5: f = &g.it[2]; z = &g.it[0]; g.it[0].iol_next = NULL; break; }
    memcpy(g.cp, g.it, sizeof g.it); D[0].from = R; D[0].n = 2; inject(0); errno = 0;
    ssize_t rc = call == 0 ? udp_sendl(s, NULL, f, z) : call == 1 ? udp_recvl(s, NULL, f, z, 0) : call == 2 ? msendl(s, f, z, 0) : mrecvl(s, f, z, 0); MC_CHECK(rc == -1 && errno == EINVAL && nO == 0, "bad-list", "list %d gave %zd (%s)", k, rc, strerror(errno)); if(k == 1) { MC_CHECK(g.it[1].iol_rsvd == 1, "list-changed", "the list was modified"); g.it[1].iol_rsvd = g.cp[1].iol_rsvd = 0; } gl_check(&g); char b[4]; MC_CHECK(mrecv(s, b, 4, 0) == 2, "bad-list", "a refused receive has taken the datagram"); gl_free(&g); hclose(s); mc_step(); mc_obs(k * 4 + call);
}
struct mc_scn mc_scns[] = {
    {"send", "two datagrams, every list of up to 3 items, every function, address given, pre-set, both or none", send_, 1, 2, 0},
    {"send-big", "sizes around the limits", send_, 1, 2, 1},
    {"recv", "up to 3 datagrams of 3 senders, now or later, three receives with deadlines", recv_, 1, 2, 0},
    {"recv-lists", "every list of up to 2 items with empty and NULL ones, dropped, truncated", recv_, 0, 1, 1},
    {"duplex", "sending and a second receiver while one is blocked; cancellation, deadline", duplex_, 0, 0, 0},
    {"open", "every combination of addresses; every system call and allocation fails", open_, 1, 2, 0},
    {"handles", "invalid handles", handles_, 0, 0, 0},
    {"lists", "malformed lists", lists_, 0, 0, 0},
    {0}};
