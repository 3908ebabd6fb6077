/* C23: scatter/gather lists. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include <stdlib.h>
#include <arpa/inet.h>
#include <netinet/in.h>

const char *mc_property = "C23";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "TLS sockets are the subject of C27", "a list is used by one call at a time",
    "sending from NULL buffers, which is not documented, is not examined", "UDP takes at most 1024 buffers, as the kernel does", NULL};

enum {IPC, TCP, PREFIX, SUFFIX, TERM, WS, UDP, NSOCK};
static const char *sname[] = {"ipc", "tcp", "prefix", "suffix", "term", "ws", "udp"};
static int s[2], kind;
#define MSG (kind >= PREFIX)
static coroutine void conn(struct ipaddr *a) { s[1] = tcp_connect(a, -1); }
static void pair(int k) {
    kind = k; int rc = 0;
    if(k == TCP) { struct ipaddr a; rc = ipaddr_local(&a, "127.0.0.1", 5555, 0); int l = tcp_listen(&a, 5); int h = go(conn(&a)); s[0] = tcp_accept(l, NULL, -1); bundle_wait(h, -1); hclose(h); hclose(l); }
    else if(k == UDP) { struct ipaddr a, b; ipaddr_local(&a, "127.0.0.1", 5001, 0); ipaddr_local(&b, "127.0.0.1", 5002, 0); s[0] = udp_open(&a, &b); s[1] = udp_open(&b, &a); }
    else { rc = ipc_pair(s); for(int i = 0; i < 2; ++i) {
        if(k == PREFIX || k == TERM) s[i] = prefix_attach(s[i], 2, 0); if(k == SUFFIX) s[i] = suffix_attach(s[i], "\r\n", 2); if(k == TERM) s[i] = term_attach(s[i], "end", 3);
        if(k == WS) s[i] = i ? ws_attach_server(s[i], WS_NOHTTP, NULL, 0, NULL, 0, -1) : ws_attach_client(s[i], WS_NOHTTP, NULL, NULL, -1); } }
    MC_CHECK(rc == 0 && s[0] >= 0 && s[1] >= 0, "setup", "%s pair: %s", sname[k], strerror(errno));
}
static int send1(int h, const void *b, size_t n) { return MSG ? msend(h, b, n, now() + 5) : bsend(h, b, n, now() + 5); }
static ssize_t recv1(int h, void *b, size_t n) { if(MSG) return mrecv(h, b, n, now() + 5); return brecv(h, b, n, now() + 5) == 0 ? (ssize_t)n : -1; }
static int sendl(struct iolist *f, struct iolist *l) { return MSG ? msendl(s[0], f, l, now() + 5) : bsendl(s[0], f, l, now() + 5); }
static ssize_t recvl(struct iolist *f, struct iolist *l, size_t n) { if(MSG) return mrecvl(s[0], f, l, now() + 5); return brecvl(s[0], f, l, now() + 5) == 0 ? (ssize_t)n : -1; }

static struct iolist it[4], cp[4]; static uint8_t buf[4][8], sv[4][8];
static const size_t lens[] = {2, 0, 3, 1};
static void build(int n) { memset(buf, 0xEE, sizeof buf); for(int i = 0; i < n; ++i) it[i] = (struct iolist){buf[i] + 2, lens[i], NULL, 0}; }
static void same(int n, const char *when) { for(int i = 0; i < n; ++i) MC_CHECK(it[i].iol_base == cp[i].iol_base && it[i].iol_len == cp[i].iol_len && it[i].iol_next == cp[i].iol_next && it[i].iol_rsvd == cp[i].iol_rsvd, "list-changed", "item %d of the list was changed by %s", i, when); }
/* Every graph of up to n items. */
static void shapes_(void) {
    int send = mc_arg & 1, n = 4; pair(mc_pick(NSOCK, "socket")); build(n);
    int f = mc_pick(n + 1, "first"), l = mc_pick(n + 1, "last");
    for(int i = 0; i < n; ++i) { int nx = mc_pick(n + 1, "next"); it[i].iol_next = nx < n ? &it[nx] : NULL; }
    int rs = mc_thorough ? mc_pick(1 << n, "reserved") : 1 << mc_pick(n + 1, "reserved") & 15; for(int i = 0; i < n; ++i) it[i].iol_rsvd = rs >> i & 1 ? (i & 1 ? 1 : -1) : 0;
    struct iolist *F = f < n ? &it[f] : NULL, *L = l < n ? &it[l] : NULL; memcpy(cp, it, sizeof it);
    /* Is it well-formed? */
    int valid = F && L, seen = 0, path[5], np = 0; size_t total = 0;
    for(struct iolist *p = F; valid && p; p = p->iol_next) { int i = p - it; if((seen >> i & 1) || p->iol_rsvd) valid = 0; seen |= 1 << i; path[np++] = i; total += p->iol_len; if(p == L) { if(p->iol_next) valid = 0; break; } if(!p->iol_next) valid = 0; }
    if(!F && !L) {
        if(!send) { /* drop */
            if(MSG) { send1(s[1], "abc", 3); ssize_t rc = mrecvl(s[0], NULL, NULL, now() + 5); MC_CHECK(rc == 3, "drop", "dropping a message gave %zd (%s)", rc, strerror(errno)); char b[8]; send1(s[1], "de", 2); MC_CHECK(recv1(s[0], b, 2) == 2 && !memcmp(b, "de", 2), "drop", "the next message"); }
            else { send1(s[1], "abc", 3); int64_t t = now(); int rc = brecvl(s[0], NULL, NULL, t + 5); MC_CHECK(rc == -1 && errno == ETIMEDOUT && now() >= t + 5, "drop", "dropping until the end gave %d (%s)", rc, strerror(errno)); }
        } else if(MSG) { int rc = msendl(s[0], NULL, NULL, now() + 5); MC_CHECK(rc == -1 && errno == EINVAL, "null-list", "msendl without a list gave %d (%s)", rc, strerror(errno)); }
        else mc_trivial();
        same(n, "a call that does not have it"); hclose(s[0]); hclose(s[1]); return;
    }
    char want[16], got[16]; size_t w = 0;
    if(send) {
        for(int i = 0; i < n; ++i) for(size_t k = 0; k < lens[i]; ++k) buf[i][2 + k] = 'a' + i * 3 + k;
        if(valid) for(int i = 0; i < np; ++i) { memcpy(want + w, it[path[i]].iol_base, it[path[i]].iol_len); w += it[path[i]].iol_len; }
        memcpy(sv, buf, sizeof buf);
        for(int rep = 0; rep < 2; ++rep) {
            errno = 0; int rc = sendl(F, L), err = errno; mc_step(); same(n, "sending"); MC_CHECK(!memcmp(sv, buf, sizeof buf), "buffers", "sending has written to the buffers");
            if(!valid) MC_CHECK(rc == -1 && err == EINVAL, "malformed", "a malformed list gave %d (%s)", rc, strerror(err)); else MC_CHECK(rc == 0, "valid", "sending a valid list: %s", strerror(err));
            if(send1(s[0], "ZY", 2)) mc_fail("after", "sending after %s: %s", valid ? "a list" : "a malformed list", strerror(errno));
            if(valid && (MSG || w)) { ssize_t k = recv1(s[1], got, MSG ? 16 : w); MC_CHECK(k == (ssize_t)w && !memcmp(got, want, w), "data", "the peer got %zd bytes", k); }
            MC_CHECK(recv1(s[1], got, 2) == 2 && !memcmp(got, "ZY", 2), "effect", "a malformed list has sent something");
        }
    } else {
        for(int rep = 0; rep < 2; ++rep) {
            size_t m = valid ? total : 4; for(size_t k = 0; k < m; ++k) want[k] = 'a' + k + 5 * rep; if(m || MSG) send1(s[1], want, m); memset(buf, 0xEE, sizeof buf);
            errno = 0; ssize_t rc = recvl(F, L, total); int err = errno; mc_step(); same(n, "receiving");
            if(valid) { MC_CHECK(rc == (ssize_t)total, "valid", "receiving gave %zd (%s)", rc, strerror(err)); for(int i = 0; i < np; ++i) { MC_CHECK(!memcmp(it[path[i]].iol_base, want + w, it[path[i]].iol_len), "data", "item %d", path[i]); w += it[path[i]].iol_len; } w = 0; }
            else { MC_CHECK(rc == -1 && err == EINVAL, "malformed", "a malformed list gave %zd (%s)", rc, strerror(err)); for(int i = 0; i < 4; ++i) for(int k = 0; k < 8; ++k) MC_CHECK(buf[i][k] == 0xEE, "effect", "a malformed list was written to");
                MC_CHECK(recv1(s[0], got, m) == (ssize_t)m && !memcmp(got, want, m), "effect", "receiving to a malformed list has consumed data"); }
            for(int i = 0; i < n; ++i) { MC_CHECK(buf[i][1] == 0xEE && buf[i][2 + lens[i]] == 0xEE, "overrun", "item %d", i); if(valid && !(seen >> i & 1)) MC_CHECK(buf[i][2] == 0xEE, "foreign", "an item outside of the list was written"); }
        }
    }
    { uint64_t g = mc_mix(f, l); for(int i = 0; i < n; ++i) g = mc_mix(g, it[i].iol_next ? it[i].iol_next - it : 9); mc_state(mc_mix(g, rs)); }
    hclose(s[0]); hclose(s[1]); mc_obs(mc_mix(mc_mix(valid, kind), mc_mix(f * 8 + l, send)));
}
/* The list is unchanged after a call that fails half way. */
static void starve_(void) {
    int k = mc_pick(NSOCK, "socket"); int send = mc_pick(2, "send"), cancel = mc_pick(3, "how"), n = 3; if(send) vk.cap = 4; pair(k); build(n); size_t have = mc_pick(6, "have");
    if(send && k == UDP) { mc_trivial(); hclose(s[0]); hclose(s[1]); return; }
    int nulls = send ? 0 : mc_pick(1 << n, "NULL"); static const int ls[] = {2, 0, 3, 600}; for(int i = 0; i < n; ++i) { it[i].iol_next = i + 1 < n ? &it[i + 1] : NULL; if(nulls >> i & 1) it[i].iol_base = NULL; }
    int big = mc_pick(2, "large"); static uint8_t room[4000]; memset(room, 0xEE, sizeof room); if(big) { it[1].iol_len = 3000; if(it[1].iol_base) it[1].iol_base = room + 500; } (void)ls; memcpy(cp, it, sizeof it); if(k == UDP) have = 0; if(send) for(int i = 0; i < 3; ++i) memset(buf[i], 'x', 8);
    int p[2] = {-1, -1}; errno = 0; int rc;
    if(!send && have) { /* A part of the message or of the data: written beneath the protocol of the peer. */
        if(!MSG) send1(s[1], "abcdefg", have > 4 ? 4 : have); }
    extern int c23_run(int, int, int); 
    if(cancel == 2) { rc = c23_run(send, n, 1); } else if(cancel == 1) rc = MSG ? (send ? msendl(s[0], it, &it[2], 0) : (int)mrecvl(s[0], it, &it[2], 0)) : send ? bsendl(s[0], it, &it[2], 0) : brecvl(s[0], it, &it[2], 0);
    else rc = send ? sendl(it, &it[2]) : (int)recvl(it, &it[2], 5);
    mc_step(); same(n, "a call that failed"); MC_CHECK(send || rc == -1, "succeeded", "the call succeeded"); (void)p; hclose(s[0]); hclose(s[1]); mc_obs(mc_mix(mc_mix(kind, send), mc_mix(cancel, nulls * 10 + have)));
}
static int w_rc; static coroutine void worker(int send) { w_rc = MSG ? (send ? msendl(s[0], it, &it[2], -1) : (int)mrecvl(s[0], it, &it[2], -1)) : send ? bsendl(s[0], it, &it[2], -1) : brecvl(s[0], it, &it[2], -1); }
int c23_run(int send, int n, int x) { w_rc = 0; int h = go(worker(send)); if(x) msleep(now() + 2); hclose(h); return w_rc; }
/* Long lists. */
static struct iolist lo[3000], locp[3000]; static uint8_t lb[6000], gb[6000];
static void long_(void) {
    static const int ns[] = {1, 2, 127, 128, 129, 255, 256, 257, 1022, 1023, 1024, 1025, 2500}; int n = ns[mc_pick(13, "items")], k = mc_pick(NSOCK, "socket"), send = mc_pick(2, "send"), len = mc_pick(4, "lengths"), rep = mc_pick(2, "pieces");
    if(k == UDP && n > 1024) { mc_trivial(); return; }
    if(rep) vk.cap = 100; pair(k); if(rep && k == UDP) { mc_trivial(); hclose(s[0]); hclose(s[1]); return; }
    size_t t = 0; for(int i = 0; i < n; ++i) { size_t l = len == 0 ? 1 : len == 1 ? i % 3 == 1 : len == 2 ? (i * 7 % 5 == 0) * 2 : i == n - 1 ? 5 : 0; lo[i] = (struct iolist){(send ? lb : gb) + t, l, i + 1 < n ? &lo[i + 1] : NULL, 0}; t += l; }
    if(!send && mc_pick(2, "skip")) for(int i = 0; i < n; i += 2) lo[i].iol_base = NULL;
    for(size_t i = 0; i < t; ++i) lb[i] = 'A' + i % 53; memset(gb, 0xEE, sizeof gb); memcpy(locp, lo, sizeof lo);
    extern coroutine void c23_peer(int, size_t); extern int c23_prc; int h = go(c23_peer(send, t)); 
    ssize_t rc = MSG ? (send ? msendl(s[0], lo, &lo[n - 1], -1) : mrecvl(s[0], lo, &lo[n - 1], -1)) : send ? bsendl(s[0], lo, &lo[n - 1], -1) : brecvl(s[0], lo, &lo[n - 1], -1); MC_CHECK(rc == (MSG && !send ? (ssize_t)t : 0), "long", "%d items of %zu bytes gave %zd (%s)", n, t, rc, strerror(errno));
    bundle_wait(h, now() + 100); hclose(h); MC_CHECK(c23_prc == (MSG && send ? (int)t : 0), "long", "the peer got %d of %zu bytes", c23_prc, t); MC_CHECK(!memcmp(lo, locp, sizeof lo), "list-changed", "the list was changed");
    size_t o = 0; for(int i = 0; i < n; ++i) { size_t l = lo[i].iol_len; for(size_t j = 0; j < l; ++j, ++o) MC_CHECK(gb[o] == (lo[i].iol_base ? lb[o] : 0xEE), "data", "byte %zu of %d items", o, n); }
    mc_step(); hclose(s[0]); hclose(s[1]); mc_obs(mc_mix(mc_mix(n, kind), mc_mix(send, len)));
}
int c23_prc;
coroutine void c23_peer(int send, size_t t) { if(send) c23_prc = MSG ? (int)mrecv(s[1], gb, sizeof gb, -1) : brecv(s[1], gb, t, -1); else c23_prc = MSG ? msend(s[1], lb, t, -1) : bsend(s[1], lb, t, -1); }
struct mc_scn mc_scns[] = {
    {"send", "every graph of 4 items, first, last, reserved fields (quick: at most one set), on every kind of socket", shapes_, 0, 0, 1},
    {"recv", "the same, receiving", shapes_, 0, 0, 0},
    {"starve", "calls that fail half way, by deadline or cancellation, leave the list as it was", starve_, 0, 0, 0},
    {"long", "lists of up to 2500 items", long_, 0, 0, 0},
    {0}};
