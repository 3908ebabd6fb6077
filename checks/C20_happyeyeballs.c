// mc: redef=happyeyeballs:dill_ipaddr_remotes:c20_remotes
/* C20: happyeyeballs_connect. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include <stdlib.h>
#include <arpa/inet.h>
#include <netinet/in.h>

const char *mc_property = "C20";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {"name resolution is replaced (it is the subject of C29): each family's answer comes after a chosen delay", "at most 3 addresses per family, at most 4 in total", NULL};

/* What the resolver says. */
static struct { int64_t delay; int n, err; } Q[2]; static int64_t t0; static int nq[2]; static int port = 80;
static void mk(struct ipaddr *a, int v6, int i, int p) {
    memset(a, 0, sizeof *a);
    if(v6) { struct sockaddr_in6 *s = (void*)a; s->sin6_family = AF_INET6; s->sin6_port = htons(p); inet_pton(AF_INET6, "fd00::", &s->sin6_addr); s->sin6_addr.s6_addr[15] = i + 1; }
    else { struct sockaddr_in *s = (void*)a; s->sin_family = AF_INET; s->sin_port = htons(p); s->sin_addr.s_addr = htonl(0x0a000001 + i); }
}
int c20_remotes(struct ipaddr *a, int max, const char *name, int p, int mode, int64_t deadline) {
    int m6 = mode == IPADDR_IPV6 || mode == IPADDR_PREF_IPV6, both = mode != IPADDR_IPV6 && mode != IPADDR_IPV4, n = 0;
    MC_CHECK(!strcmp(name, "host"), "query", "the name asked for is %s", name); MC_CHECK(p == port, "query", "port %d", p);
    for(int k = 0; k < (both ? 2 : 1); ++k) {
        int v6 = m6 ^ k; nq[v6]++; int64_t at = Q[v6].delay < 0 ? -1 : t0 + Q[v6].delay;
        if(at < 0 || at > now()) { int64_t w = at < 0 || (deadline >= 0 && deadline < at) ? deadline : at; if(w < 0) { int ch[2]; struct chstorage cs; char c; int rc = chmake_mem(&cs, ch); if(rc < 0) return -1; rc = chrecv(ch[0], &c, 1, -1); int e = errno; hclose(ch[0]); hclose(ch[1]); errno = e; return -1; } if(msleep(w) < 0) return -1; if(w != at) { errno = ETIMEDOUT; return -1; } }
        if(Q[v6].err) { errno = ETIMEDOUT; return -1; }
        for(int i = 0; i < Q[v6].n && n < max; ++i) mk(&a[n++], v6, i, p);
    }
    return n;
}
/* What the hosts do: delay (ms) and outcome. */
static struct { int64_t delay; int kind; } H[2][3]; enum {OK, REFUSE, HOLE};
static struct { int v6, i; int64_t at; int ok; int64_t ends; } A[16]; static int nA; static struct vstream *rs[16];
static int hostconn(const struct sockaddr *sa, int64_t *delay, struct vstream *r) {
    int v6 = sa->sa_family == AF_INET6, i = v6 ? ((struct sockaddr_in6*)sa)->sin6_addr.s6_addr[15] - 1 : (int)(ntohl(((struct sockaddr_in*)sa)->sin_addr.s_addr) - 0x0a000001);
    MC_CHECK(ntohs(((struct sockaddr_in*)sa)->sin_port) == port && i >= 0 && i < Q[v6].n && !Q[v6].err, "address", "an attempt to an address that was not given");
    if(nA == 16) mc_fail("setup", "A"); A[nA].v6 = v6; A[nA].i = i; A[nA].at = vk_us() / 1000 - t0; rs[nA] = r; *delay = H[v6][i].delay * 1000; A[nA].ok = H[v6][i].kind == OK; A[nA].ends = H[v6][i].kind == HOLE ? -1 : A[nA].at + H[v6][i].delay; mc_log("  %lld ms: attempt to v%d.%d", (long long)A[nA].at, v6 ? 6 : 4, i); nA++;
    return H[v6][i].kind == OK ? 0 : H[v6][i].kind == REFUSE ? -ECONNREFUSED : VK_BLACKHOLE;
}
static int64_t avail(int v6, int i) { return Q[v6].delay < 0 || Q[v6].err || i >= Q[v6].n ? -1 : Q[v6].delay; }
static int res, rerr, ret; static int64_t rat;
static coroutine void client(int64_t dl) { errno = 0; ret = 0; res = happyeyeballs_connect("host", port, dl); rerr = errno; rat = vk_us() / 1000 - t0; ret = 1; }
static void begin(void) { nA = 0; nq[0] = nq[1] = 0; ret = 0; res = -7; vk_remote_connect = hostconn; port = 80; t0 = now(); t0 = vk_us() / 1000; }
/* The attempts made until 'end' (ms): are they those the protocol makes? */
static void attempts(int64_t end) {
    int next[2] = {0, 0};
    for(int k = 0; k <= nA; ++k) {
        /* What could be attempted next, and since when? */
        int64_t a6 = avail(1, next[1]), a4 = avail(0, next[0]), since = a6 < 0 ? a4 : a4 < 0 ? a6 : a4 < a6 ? a4 : a6;
        if(k == nA) { /* Should there have been another attempt? */
            if(since < 0) break; int64_t due;
            if(!k) { int64_t v6end = Q[1].delay; due = a6 >= 0 && a6 <= 50 ? a6 : since > 50 ? since : v6end >= 0 && v6end < 50 ? 50 : 50; if(due < since) due = since; } else { due = A[k - 1].at + 300; if(due < since) due = since; }
            MC_CHECK(end <= due + 2, "missing", "no attempt was made at %lld (the call ended at %lld)", (long long)due, (long long)end); break; }
        int64_t at = A[k].at; int f = A[k].v6;
        MC_CHECK(A[k].i == next[f], "order", "address %d of family v%d instead of %d", A[k].i, f ? 6 : 4, next[f]); int64_t av = avail(f, A[k].i); MC_CHECK(av >= 0 && av <= at, "early", "an attempt before its address was known");
        int64_t other = avail(!f, next[!f]);
        if(!k) {
            if(a6 >= 0 && a6 < 50) MC_CHECK(f == 1 && at <= a6 + 1, "first", "the first attempt was v%d at %lld, IPv6 known since %lld", f ? 6 : 4, (long long)at, (long long)a6);
            else if(f == 0) { MC_CHECK(a6 < 0 || a6 + 1 >= at || a6 > 50, "first", "IPv4 first, though IPv6 was known"); int64_t d = a4 > 50 ? a4 : 50; MC_CHECK(at <= d + 1, "late", "the first attempt was made at %lld instead of %lld", (long long)at, (long long)d); MC_CHECK(at >= 50 || (Q[1].delay >= 0 && Q[1].delay <= at), "first", "IPv4 was attempted without waiting for IPv6"); }
            else MC_CHECK(at <= (a6 > 50 ? a6 : 50) + 1, "late", "the first attempt was made at %lld", (long long)at);
        } else {
            int failed = 0; for(int j = 0; j < k; ++j) if(!A[j].ok && A[j].ends >= 0 && A[j].ends <= at) failed = 1;
            if(!failed) MC_CHECK(at >= A[k - 1].at + 300, "hasty", "attempts at %lld and %lld", (long long)A[k - 1].at, (long long)at);
            int64_t due = A[k - 1].at + 300; if(due < since) due = since; MC_CHECK(at <= due + 1, "late", "an attempt was made at %lld instead of %lld", (long long)at, (long long)due);
            if(A[k - 1].v6 == f) MC_CHECK(other < 0 || other + 1 >= at, "alternate", "two attempts of v%d in sequence, though the other family was known at %lld", f ? 6 : 4, (long long)other);
        }
        for(int j = 0; j < k; ++j) if(A[j].ok) MC_CHECK(A[j].ends + 1 >= at, "needless", "an attempt after a successful one");
        next[f]++;
    }
}
static void verdict(int64_t dl, int64_t cancel) {
    int64_t best = -1; int pend = 0; int64_t lastfail = 0; for(int k = 0; k < nA; ++k) { if(A[k].ok && (best < 0 || A[k].ends < best)) best = A[k].ends; if(!A[k].ok && A[k].ends < 0) pend = 1; if(!A[k].ok && A[k].ends > lastfail) lastfail = A[k].ends; }
    int left = 0; for(int f = 0; f < 2; ++f) { if(Q[f].delay < 0) pend = 1; int tried = 0; for(int k = 0; k < nA; ++k) tried += A[k].v6 == f; if(Q[f].delay >= 0 && !Q[f].err && tried < Q[f].n) left = 1; if(Q[f].delay > lastfail) lastfail = Q[f].delay; } if(lastfail < 50) lastfail = 50; if(nA && A[nA - 1].at + 300 > lastfail) lastfail = A[nA - 1].at + 300;
    MC_CHECK(ret, "hung", "happyeyeballs_connect has not returned"); attempts(rat);
    if(res >= 0) {
        MC_CHECK(best >= 0 && rat <= best + 2 && rat >= best, "result", "connected at %lld, an attempt succeeded at %lld", (long long)rat, (long long)best); MC_CHECK(dl < 0 || rat <= dl + 2, "deadline", "late");
        int w = -1; for(int k = 0; k < nA; ++k) if(A[k].ok && A[k].ends <= rat && !vs_closed(rs[k])) { MC_CHECK(w < 0, "two", "two connections are left"); w = k; } MC_CHECK(w >= 0, "result", "the connection is not to any of the hosts");
        MC_CHECK(A[w].ends <= best + 1, "first-wins", "the connection made at %lld was returned, not that made at %lld", (long long)A[w].ends, (long long)best);
        vs_write(rs[w], "hi", 2); char b[2]; MC_CHECK(brecv(res, b, 2, now() + 5) == 0 && !memcmp(b, "hi", 2), "result", "the connection does not work"); MC_CHECK(bsend(res, "yo", 2, now() + 5) == 0, "result", "the connection does not work"); int rc = hclose(res); MC_CHECK(rc == 0, "result", "hclose");
    } else {
        MC_CHECK(res == -1, "result", "%d was returned", res);
        if(rerr == ECANCELED) MC_CHECK(cancel >= 0 && rat >= cancel && rat <= cancel + 1, "cancel", "canceled at %lld", (long long)rat);
        else { MC_CHECK(best < 0 || best + 1 >= rat, "lost", "failed at %lld though an attempt has succeeded at %lld", (long long)rat, (long long)best);
            if(rerr == ETIMEDOUT && dl >= 0 && rat >= dl) MC_CHECK(rat <= dl + 2, "deadline", "returned at %lld, the deadline is %lld", (long long)rat, (long long)dl);
            else { MC_CHECK(rerr != 0, "errno", "no errno"); MC_CHECK(!pend && !left, "gave-up", "failed at %lld (%s) though something was still to be tried", (long long)rat, strerror(rerr)); MC_CHECK(rat <= lastfail + 2, "slow", "failed at %lld, everything had failed at %lld", (long long)rat, (long long)lastfail); } }
    }
    for(int k = 0; k < nA; ++k) MC_CHECK(A[k].ok == 0 || vs_closed(rs[k]), "leak", "the connection of attempt %d was left open", k);
}
static void setq(int v6, int thorough) {
    static const int64_t d[] = {0, 30, 70, 400, 50, 5}; int k = mc_pick(thorough ? 6 : 4, v6 ? "v6 delay" : "v4 delay"); Q[v6].delay = d[k]; Q[v6].err = 0; int n = mc_pick(5, "answer"); Q[v6].n = n < 3 ? n : 0; if(n == 3) { Q[v6].err = 1; Q[v6].n = 0; } if(n == 4) { Q[v6].delay = -1; }
}
static void seth(int few) {
    static const struct { int64_t d; int k; } o[] = {{20, OK}, {20, REFUSE}, {0, HOLE}, {350, OK}, {350, REFUSE}, {0, OK}, {0, REFUSE}, {300, OK}, {650, OK}}; 
    for(int f = 1; f >= 0; --f) for(int i = 0; i < Q[f].n; ++i) { int k = mc_pick(few, "host"); H[f][i].delay = o[k].d; H[f][i].kind = o[k].k; }
}
static void drive(int64_t dl, int64_t cancel) {
    int fds = vk_open_fds(); int h = go(client(dl < 0 ? -1 : t0 + dl)); MC_CHECK(h >= 0, "go", "go");
    if(cancel >= 0) { if(cancel) msleep(t0 + cancel); } else msleep(t0 + 4000);
    hclose(h); mc_step();
    if(cancel < 0 && !ret) { }
    if(!ret) mc_fail("hung", "no return");
    if(rerr == ECANCELED && cancel < 0) { /* Still waiting: legal only if something may still happen. */
        int pend = 0; for(int k = 0; k < nA; ++k) if(!A[k].ok && A[k].ends < 0) pend = 1; for(int f = 0; f < 2; ++f) if(Q[f].delay < 0) pend = 1; int ok = 0; for(int k = 0; k < nA; ++k) if(A[k].ok) ok = 1; MC_CHECK(pend && !ok && dl < 0, "hung", "the call goes on though %s", ok ? "a connection was made" : dl >= 0 ? "the deadline has passed" : "everything has failed"); attempts(3990); mc_obs(1); }
    else verdict(dl, cancel);
    MC_CHECK(vk_open_fds() == fds, "leak", "%d descriptors are left", vk_open_fds() - fds); { uint64_t s = nA; for(int k = 0; k < nA; ++k) s = mc_mix(s, A[k].v6 * 1000 + A[k].at); mc_state(s); } mc_obs(mc_mix(rat, res >= 0 ? 0 : rerr));
}
static void race_(void) {
    begin(); setq(1, mc_thorough); setq(0, mc_thorough); int t = Q[0].n + Q[1].n; seth(mc_thorough ? t > 3 ? 6 : 9 : t > 3 ? 4 : t == 3 ? 5 : 7);
    static const int64_t dls[] = {-1, 320, 1000, 40}; drive(dls[mc_pick(mc_arg ? 4 : 1, "deadline")], -1);
}
static void cancel_(void) {
    begin(); Q[1].delay = mc_pick(2, "v6") * 60; Q[0].delay = mc_pick(2, "v4") * 20; Q[0].err = Q[1].err = 0; Q[1].n = mc_pick(3, "n6"); Q[0].n = mc_pick(3, "n4"); seth(4); static const int64_t dls[] = {-1, 0, 1, 20, 50, 51, 60, 299, 300, 301, 320, 350, 370, 600, 650, 900}; int k = mc_pick(16, "when"); if(mc_pick(2, "deadline")) drive(dls[k], -1); else drive(-1, dls[k]);
}
static void many_(void) { /* 3 and more addresses: all attempts stall or fail */
    begin(); Q[1].delay = mc_pick(3, "v6") * 40; Q[0].delay = mc_pick(3, "v4") * 40; Q[0].err = Q[1].err = 0; int a = mc_pick(4, "n6"), b = mc_pick(4, "n4"); Q[1].n = a; Q[0].n = b; int kind = mc_pick(3, "kind"); int last = a + b ? mc_pick(a + b + 1, "works") : 0, k = 0; for(int f = 1; f >= 0; --f) for(int i = 0; i < Q[f].n; ++i, ++k) { H[f][i].kind = k == last ? OK : kind == 0 ? HOLE : REFUSE; H[f][i].delay = k == last ? 10 : kind == 1 ? 20 : kind == 2 ? 700 : 0; } drive(-1, -1);
}
static void args_(void) {
    begin(); Q[0].n = Q[1].n = 0; int k = mc_pick(5, "defect"); static const int p[] = {0, -1, 65536, 1 << 30}; errno = 0; int rc = happyeyeballs_connect(k ? "host" : NULL, k ? p[k - 1] : 80, -1); MC_CHECK(rc == -1 && errno == EINVAL && !nq[0] && !nq[1], "args", "invalid argument %d gave %d (%s)", k, rc, strerror(errno)); mc_step(); mc_obs(k);
}
static void ends_(void) { /* the highest port; several calls at once */
    begin(); port = 65535; Q[0].delay = Q[1].delay = 0; Q[0].err = Q[1].err = 0; Q[0].n = Q[1].n = 1; seth(3); static const int64_t dls[] = {-1, 500}; drive(dls[mc_pick(2, "deadline")], -1); port = 80;
}
static void faults_(void) {
    begin(); now(); hclose(go(client(0))); begin(); vk.faults = 1; Q[0].delay = mc_pick(2, "v4") * 60; Q[1].delay = mc_pick(2, "v6") * 60; Q[0].err = Q[1].err = 0; Q[0].n = mc_pick(3, "n4"); Q[1].n = mc_pick(3, "n6"); seth(3); int fds = vk_open_fds(); int h = go(client(t0 + 1500)); vk_faults_on(1); msleep(t0 + 2000); vk_faults_on(0); MC_CHECK(ret, "hung", "no return"); hclose(h);
    MC_CHECK(rat <= 1502, "deadline", "late"); if(res >= 0) { MC_CHECK(hclose(res) == 0, "result", "hclose"); } else MC_CHECK(res == -1 && rerr && rerr != ECANCELED, "errno", "errno is %d", rerr);
    for(int k = 0; k < nA; ++k) MC_CHECK(A[k].ok == 0 || A[k].ends > rat || vs_closed(rs[k]), "leak", "the connection of attempt %d was left open", k); MC_CHECK(vk_open_fds() == fds, "leak", "%d descriptors are left", vk_open_fds() - fds); mc_step(); mc_obs(mc_mix(rat, rerr));
}
struct mc_scn mc_scns[] = {
    {"race", "all answers of both families, all behaviours of up to 4 hosts", race_, 0, 0, 0},
    {"race-deadline", "the same with deadlines", race_, 0, 0, 1},
    {"cancel", "cancelled or timed out at every interesting time", cancel_, 0, 0, 0},
    {"many", "up to 6 addresses, one of which works", many_, 0, 0, 0},
    {"ends", "the highest port", ends_, 0, 0, 0},
    {"args", "invalid arguments", args_, 0, 0, 0},
    {"faults", "each system call and allocation fails", faults_, 1, 2, 0},
    {0}};
