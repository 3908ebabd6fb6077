/* C30: operations on handles that do not exist or are of another kind. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include "libdill.h"
#include "libdillimpl.h"
#include <stdlib.h>
#include <unistd.h>
#include <poll.h>
#include <limits.h>
#include <netinet/in.h>
#include <arpa/inet.h>

const char *mc_property = "C30";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "TLS sockets are left out",
    "attaching to and detaching from an unsuitable object may close the handle that was passed, or leave it as it was; nothing else",
    "attaching to, detaching from and closing a socket that another coroutine is blocked in is left out",
    "system calls, clock and heap are those of the virtual kernel", NULL};

/* What an object can do. */
enum {cB = 1, cM = 2, cCH = 4, cBN = 8, cTC = 16, cTL = 32, cIC = 64, cIL = 128, cU = 256, cPF = 512, cSF = 1024, cTM = 2048, cHT = 4096, cWS = 8192};
enum {BAD_NEG, BAD_MIN, BAD_BIG, BAD_MAX, BAD_CLOSED, BAD_OWNED, CHAN, BNDL, CORO, USER, BYTES, MSGS, TCPC, TCPL, IPCC, IPCL, UDP, PFX, SFX, TRM, HTTP, WSC, WSS, NKIND};
static const struct { const char *n; int caps; } K[NKIND] = {
    {"-1", 0}, {"INT_MIN", 0}, {"1000000", 0}, {"INT_MAX", 0}, {"a closed handle", 0}, {"a handle that was taken over", 0}, {"channel", cCH}, {"bundle", cBN}, {"coroutine", cBN}, {"user's object", 0}, {"user's bytestream", cB}, {"user's message socket", cM},
    {"TCP connection", cB | cTC}, {"TCP listener", cTL}, {"IPC connection", cB | cIC}, {"IPC listener", cIL}, {"UDP socket", cU | cM}, {"PREFIX", cM | cPF}, {"SUFFIX", cM | cSF}, {"TERM", cM | cTM}, {"HTTP", cHT}, {"WS client", cM | cWS}, {"WS server", cM | cWS}};

/* ---- the object ---- */
static int kind, h, dead_, peer[2], peer2, port; static struct mb B; static struct mm M; static struct ipaddr ua; static int userclosed, corostate; static struct vstream *rem; static const char ut;
static void *uq(struct hvfs *v, const void *t) { if(t == &ut) return v; errno = ENOTSUP; return NULL; }
static void uc(struct hvfs *v) { userclosed++; }
static struct hvfs user;
static coroutine void victim(void) { corostate = 1; int rc = msleep(-1); corostate = rc == -1 && errno == ECANCELED ? 2 : 3; }
static coroutine void waiter(int fd) { (void)fd; msleep(-1); }
static void make(void) {
    peer[0] = peer[1] = peer2 = -1; dead_ = userclosed = corostate = 0; rem = NULL; user.query = uq; user.close = uc;
    struct ipaddr a;
    switch(kind) {
    case BAD_NEG: h = -1; break;
    case BAD_MIN: h = INT_MIN; break;
    case BAD_BIG: h = 1000000; break;
    case BAD_MAX: h = INT_MAX; break;
    case BAD_CLOSED: h = hmake(&user); hclose(h); userclosed = 0; break;
    case BAD_OWNED: h = hmake(&user); peer[0] = hown(h); break;
    case CHAN: MC_CHECK(chmake(peer) == 0, "setup", "chmake"); h = peer[0]; break;
    case BNDL: h = bundle(); MC_CHECK(bundle_go(h, victim()) == 0, "setup", "bundle_go"); yield(); break;
    case CORO: h = go(victim()); yield(); break;
    case USER: h = hmake(&user); break;
    case TCPC: h = tcp_fromfd(vk_stream_fd(AF_INET, &rem)); vs_write(rem, "pq", 2); break;
    case IPCC: h = ipc_fromfd(vk_stream_fd(AF_UNIX, &rem)); vs_write(rem, "pq", 2); break;
    case TCPL: MC_CHECK(ipaddr_local(&a, "127.0.0.1", 5555, 0) == 0, "setup", "ipaddr"); h = tcp_listen(&a, 10); break;
    case IPCL: h = ipc_listen("/s", 10); break;
    case UDP: MC_CHECK(ipaddr_local(&ua, "127.0.0.1", 5556, 0) == 0, "setup", "ipaddr"); h = udp_open(&ua, NULL); if(h >= 0) MC_CHECK(udp_send(h, &ua, "pq", 2) == 0, "setup", "udp_send"); break;
    case MSGS: h = mm_open(&M); mm_feed(&M, "pq", 2, 0); break;
    default:
        h = mb_open(&B);
        switch(kind) {
        case PFX: mb_feed(&B, "\0\2pq", 4); h = prefix_attach(h, 2, 0); break;
        case SFX: mb_str(&B, "pq\r\n"); h = suffix_attach(h, "\r\n", 2); break;
        case TRM: mb_feed(&B, "\0\2pq", 4); h = term_attach(prefix_attach(h, 2, 0), "end", 3); break;
        case HTTP: mb_str(&B, "pq: rs\r\n"); h = http_attach(h); break;
        case WSC: mb_feed(&B, "\x82\2pq", 4); h = ws_attach_client(h, WS_BINARY | WS_NOHTTP, NULL, NULL, -1); break;
        case WSS: mb_feed(&B, "\x82\x82\0\0\0\0pq", 8); h = ws_attach_server(h, WS_BINARY | WS_NOHTTP, NULL, 0, NULL, 0, -1); break;
        default: mb_str(&B, "pq");
        }
    }
    if(kind >= CHAN) MC_CHECK(h >= 0, "setup", "%s: %s", K[kind].n, strerror(errno));
}
static coroutine void snd(int ch) { chsend(ch, "pq", 2, now() + 50); }
static int alive(void) { errno = 0; void *p = hquery(h, &ut); return p || errno != EBADF; }
/* The object is as if nothing had been tried with it. */
static void intact(const char *f) {
    char b[8] = "", v[8] = "";
    MC_CHECK(alive(), "closed", "%s closed the %s", f, K[kind].n);
    int64_t d = now() + 50; ssize_t n; int s;
    switch(kind) {
    case CHAN: s = go(snd(peer[1])); n = chrecv(h, b, 2, d); MC_CHECK(n == 0 && !memcmp(b, "pq", 2), "disturbed", "after %s the channel does not work: %s", f, strerror(errno)); hclose(s); break;
    case BNDL: case CORO: MC_CHECK(corostate == 1, "disturbed", "after %s the coroutine has ended", f); n = bundle_wait(h, now() + 2); MC_CHECK(n == -1 && errno == ETIMEDOUT, "disturbed", "after %s waiting for the %s: %s", f, K[kind].n, strerror(errno)); break;
    case USER: MC_CHECK(!userclosed && hquery(h, &ut) == &user, "disturbed", "%s: the object has changed", f); break;
    case TCPC: case IPCC: MC_CHECK(vs_avail(rem) == 0 && !vs_eof(rem) && !vs_closed(rem), "disturbed", "%s: something was done to the connection", f); n = brecv(h, b, 2, d); MC_CHECK(n == 0 && !memcmp(b, "pq", 2), "disturbed", "after %s the connection does not work: %s", f, strerror(errno)); n = bsend(h, "rs", 2, d); MC_CHECK(n == 0 && vs_read(rem, b, 8) == 2 && !memcmp(b, "rs", 2), "disturbed", "after %s the connection does not send: %s", f, strerror(errno)); vs_write(rem, "pq", 2); break;
    case TCPL: case IPCL: { struct vstream *c = vk_remote_client(5555, kind == IPCL ? "/s" : NULL); MC_CHECK(c, "disturbed", "after %s connections are refused", f); s = kind == IPCL ? ipc_accept(h, d) : tcp_accept(h, NULL, d); MC_CHECK(s >= 0, "disturbed", "after %s accept: %s", f, strerror(errno)); hclose(s); break; }
    case UDP: n = udp_recv(h, NULL, b, 8, d); MC_CHECK(n == 2 && !memcmp(b, "pq", 2), "disturbed", "after %s udp_recv: %zd %s", f, n, strerror(errno)); MC_CHECK(udp_send(h, &ua, "pq", 2) == 0, "disturbed", "after %s udp_send: %s", f, strerror(errno)); break;
    case BYTES: MC_CHECK(!B.nsend && !B.nrecv && !B.closed, "disturbed", "%s used the socket", f); break;
    case MSGS: MC_CHECK(!M.nsend && !M.nrecv && !M.closed, "disturbed", "%s used the socket", f); break;
    default: MC_CHECK(!B.nsend && !B.nrecv && !B.closed, "disturbed", "%s used the socket below %s", f, K[kind].n); }
}
static void works(void) {
    char b[8] = "", v[8] = ""; ssize_t n; int64_t d = now() + 50;
    if(dead_) return;
    switch(kind) {
    case PFX: case SFX: case TRM: case WSC: case WSS: case MSGS: n = mrecv(h, b, 8, d); MC_CHECK(n == 2 && !memcmp(b, "pq", 2), "disturbed", "%s does not work any more: %s", K[kind].n, strerror(errno)); MC_CHECK(msend(h, "rs", 2, d) == 0, "disturbed", "%s does not send any more: %s", K[kind].n, strerror(errno)); break;
    case BYTES: n = brecv(h, b, 2, d); MC_CHECK(n == 0 && !memcmp(b, "pq", 2) && bsend(h, "rs", 2, d) == 0, "disturbed", "%s does not work any more: %s", K[kind].n, strerror(errno)); break;
    case HTTP: n = http_recvfield(h, b, 8, v, 8, d); MC_CHECK(n == 0 && !strcmp(b, "pq") && !strcmp(v, "rs") && http_sendfield(h, "a", "b", d) == 0, "disturbed", "%s does not work any more: %s", K[kind].n, strerror(errno)); break;
    }
}
/* It was closed, with everything below it, once. */
static void gone(const char *f) {
    dead_ = 1; errno = 0; MC_CHECK(hclose(h) == -1 && errno == EBADF, "stale", "hclose: %s", strerror(errno));
    switch(kind) {
    case BNDL: case CORO: MC_CHECK(corostate == 2, "gone", "%s closed the handle but the coroutine still runs", f); break;
    case USER: MC_CHECK(userclosed == 1, "gone", "%s closed the object %d times", f, userclosed); break;
    case TCPC: case IPCC: MC_CHECK(vs_closed(rem), "gone", "%s closed the handle but not the connection", f); break;
    case TCPL: case IPCL: MC_CHECK(!vk_remote_client(5555, kind == IPCL ? "/s" : NULL), "gone", "%s closed the handle but not the socket", f); break;
    case MSGS: MC_CHECK(M.closed == 1, "gone", "%s closed the object %d times", f, M.closed); break;
    case CHAN: break;
    case UDP: break;
    default: MC_CHECK(B.closed == 1, "gone", "%s closed the object %d times", f, B.closed); }
}

/* ---- the calls ---- */
struct call { const char *n; int caps; int consumes; };
#define CALLS(X) \
    X(chsend, cCH, 0, chsend(h, b, 2, dl)) X(chrecv, cCH, 0, chrecv(h, b, 2, dl)) X(chdone, cCH, 0, chdone(h)) \
    X(bundle_wait, cBN, 0, bundle_wait(h, dl)) X(bundle_go, cBN, 0, bundle_go(h, waiter(0))) X(bundle_go_mem, cBN, 0, bundle_go_mem(h, waiter(0), stk, sizeof stk)) \
    X(bsend, cB, 0, bsend(h, b, 2, dl)) X(brecv, cB, 0, brecv(h, b, 2, dl)) X(bsendl, cB, 0, bsendl(h, &io, &io, dl)) X(brecvl, cB, 0, brecvl(h, &io, &io, dl)) X(brecvl_skip, cB, 0, brecvl(h, NULL, NULL, dl)) \
    X(msend, cM, 0, msend(h, b, 2, dl)) X(mrecv, cM, 0, mrecv(h, b, 2, dl)) X(msendl, cM, 0, msendl(h, &io, &io, dl)) X(mrecvl, cM, 0, mrecvl(h, &io, &io, dl)) X(mrecvl_drop, cM, 0, mrecvl(h, NULL, NULL, dl)) \
    X(tcp_accept, cTL, 0, tcp_accept(h, NULL, dl)) X(tcp_accept_mem, cTL, 0, tcp_accept_mem(h, NULL, &tm, dl)) X(tcp_done, cTC, 0, tcp_done(h, dl)) X(tcp_close, cTC | cTL, 2, tcp_close(h, dl)) \
    X(ipc_accept, cIL, 0, ipc_accept(h, dl)) X(ipc_accept_mem, cIL, 0, ipc_accept_mem(h, &im, dl)) X(ipc_done, cIC, 0, ipc_done(h, dl)) X(ipc_close, cIC | cIL, 2, ipc_close(h, dl)) X(ipc_sendfd, cIC, 0, ipc_sendfd(h, 0, dl)) X(ipc_recvfd, cIC, 0, ipc_recvfd(h, dl)) \
    X(udp_send, cU, 0, udp_send(h, &ua, b, 2)) X(udp_recv, cU, 0, udp_recv(h, NULL, b, 2, dl)) X(udp_sendl, cU, 0, udp_sendl(h, &ua, &io, &io)) X(udp_recvl, cU, 0, udp_recvl(h, NULL, &io, &io, dl)) \
    X(prefix_detach, cPF, 2, prefix_detach(h)) X(suffix_detach, cSF, 2, suffix_detach(h, dl)) X(term_done, cTM, 0, term_done(h, dl)) X(term_detach, cTM, 2, term_detach(h, dl)) \
    X(http_done, cHT, 0, http_done(h, dl)) X(http_detach, cHT, 2, http_detach(h, dl)) X(http_sendrequest, cHT, 0, http_sendrequest(h, "GET", "/", dl)) X(http_recvrequest, cHT, 0, http_recvrequest(h, b, 8, b2, 8, dl)) X(http_sendstatus, cHT, 0, http_sendstatus(h, 200, "OK", dl)) X(http_recvstatus, cHT, 0, http_recvstatus(h, b, 8, dl)) X(http_sendfield, cHT, 0, http_sendfield(h, "a", "b", dl)) X(http_recvfield, cHT, 0, http_recvfield(h, b, 8, b2, 8, dl)) \
    X(ws_send, cWS, 0, ws_send(h, WS_TEXT, b, 2, dl)) X(ws_recv, cWS, 0, ws_recv(h, &fl, b, 2, dl)) X(ws_sendl, cWS, 0, ws_sendl(h, WS_TEXT, &io, &io, dl)) X(ws_recvl, cWS, 0, ws_recvl(h, &fl, &io, &io, dl)) X(ws_done, cWS, 0, ws_done(h, 1000, NULL, 0, dl)) X(ws_detach, cWS, 2, ws_detach(h, 1000, NULL, 0, dl)) X(ws_status, cWS, 0, ws_status(h, &fl, b, 8)) \
    X(prefix_attach, cB, 1, prefix_attach(h, 2, 0)) X(prefix_attach_mem, cB, 1, prefix_attach_mem(h, 2, 0, &pm)) X(suffix_attach, cB, 1, suffix_attach(h, "\n", 1)) X(suffix_attach_mem, cB, 1, suffix_attach_mem(h, "\n", 1, &sm)) X(term_attach, cM, 1, term_attach(h, "x", 1)) X(term_attach_mem, cM, 1, term_attach_mem(h, "x", 1, &rm)) \
    X(http_attach, cB, 1, http_attach(h)) X(http_attach_mem, cB, 1, http_attach_mem(h, &hm)) X(ws_attach_client, cB, 1, ws_attach_client(h, WS_TEXT | WS_NOHTTP, NULL, NULL, dl)) X(ws_attach_server, cB, 1, ws_attach_server(h, WS_TEXT | WS_NOHTTP, NULL, 0, NULL, 0, dl)) X(ws_attach_client_http, cB, 1, ws_attach_client(h, WS_TEXT, "/", "x", dl)) X(ws_attach_server_http, cB, 1, ws_attach_server(h, WS_TEXT, b, 8, b2, 8, dl)) X(ws_attach_client_mem, cB, 1, ws_attach_client_mem(h, WS_TEXT | WS_NOHTTP, NULL, NULL, &wm, dl)) X(ws_attach_server_mem, cB, 1, ws_attach_server_mem(h, WS_TEXT | WS_NOHTTP, NULL, 0, NULL, 0, &wm, dl)) \
    X(socks5_client_connect, cB, 0, socks5_client_connect(h, NULL, NULL, &ua4, dl)) X(socks5_client_connectbyname, cB, 0, socks5_client_connectbyname(h, NULL, NULL, "x", 80, dl)) X(socks5_proxy_auth, cB, 0, socks5_proxy_auth(h, NULL, dl)) X(socks5_proxy_recvcommand, cB, 0, socks5_proxy_recvcommand(h, &ra, dl)) X(socks5_proxy_recvcommandbyname, cB, 0, socks5_proxy_recvcommandbyname(h, b, &fl, dl)) X(socks5_proxy_sendreply, cB, 0, socks5_proxy_sendreply(h, 0, &ua4, dl))
#define DECL(n, c, k, e) {#n, c, k},
static const struct call C[] = {CALLS(DECL)};
#define NCALL ((int)(sizeof C / sizeof *C))
static char b[300], b2[16], stk[16384] __attribute__((aligned(16))); static int fl; static struct iolist io; static struct ipaddr ua4, ra;
static struct tcp_storage tm; static struct ipc_storage im; static struct prefix_storage pm; static struct suffix_storage sm; static struct term_storage rm; static struct http_storage hm; static struct ws_storage wm;
static int which; static int64_t dl;
static long call(void) {
    io = (struct iolist){b, 2, NULL, 0};
#define CASE(n, c, k, e) case __COUNTER__ - base - 1: return e;
    enum {base = __COUNTER__};
    switch(which) { CALLS(CASE) }
    mc_broken("call"); return 0;
}
/* A coroutine that legitimately uses the object meanwhile. */
static int urc, uerr, udone; static char ub[8];
static coroutine void userof(void) {
    udone = 0;
    switch(kind) { case CHAN: urc = chrecv(h, ub, 2, -1); break; case TCPC: case IPCC: { char t[2]; urc = brecv(h, t, 2, -1); if(!urc) urc = brecv(h, ub, 2, -1); break; } case TCPL: urc = tcp_accept(h, NULL, -1); break; case IPCL: urc = ipc_accept(h, -1); break; case BNDL: case CORO: urc = bundle_wait(h, -1); break; }
    uerr = errno; udone = 1;
}
static void once(int used) {
    which = mc_pick(NCALL, "call"); dl = mc_pick(2, "deadline") ? 0 : -1;
    if((C[which].caps & K[kind].caps) || (kind <= BAD_MIN && C[which].caps == cBN) || (used && C[which].consumes)) { mc_trivial(); which = -1; return; }
    int was = dead_ || kind < CHAN, fds = vk_open_fds(), polls = vk_blocking_polls; int64_t t = vk_us();
    memset(b, 'b', sizeof b); memset(b2, 'c', sizeof b2);
    mc_log("%s on %s%s", C[which].n, dead_ ? "the closed " : "", K[kind].n); mc_step();
    errno = 0; long rc = call(); int err = errno;
    MC_CHECK(rc == -1, "accepted", "%s on %s%s returned %ld", C[which].n, dead_ ? "the closed " : "", K[kind].n, rc);
    int want = was ? EBADF : C[which].consumes == 1 ? EPROTO : ENOTSUP;
    MC_CHECK(err == want, "errno", "%s on %s%s: %s", C[which].n, dead_ ? "the closed " : "", K[kind].n, strerror(err));
    MC_CHECK(vk_us() == t, "blocked", "%s on %s took time", C[which].n, K[kind].n);
    for(int i = 0; i < (int)sizeof b; ++i) MC_CHECK(b[i] == 'b', "written", "%s wrote to the buffer", C[which].n);
    for(int i = 0; i < (int)sizeof b2; ++i) MC_CHECK(b2[i] == 'c', "written", "%s wrote to the buffer", C[which].n);
    if(kind == BAD_OWNED) MC_CHECK(!userclosed && hquery(peer[0], &ut) == &user, "disturbed", "%s on the old handle of an object affects the object", C[which].n);
    if(was) { MC_CHECK(vk_open_fds() == fds, "fds", "%s changed the open descriptors", C[which].n); return; }
    if(!alive()) { MC_CHECK(C[which].consumes, "closed", "%s closed the %s", C[which].n, K[kind].n); gone(C[which].n); return; }
    if(!used) intact(C[which].n);
}
static void misuse(void) {
    int base = vk_open_fds();
    MC_CHECK(ipaddr_local(&ua4, "10.0.0.1", 80, 0) == 0, "setup", "ipaddr");
    kind = mc_pick(NKIND, "kind"); make();
    for(int i = 0; i < mc_arg; ++i) { once(0); if(which < 0) break; mc_state(mc_mix(kind, mc_mix(which, dead_))); }
    if(kind >= CHAN && !dead_) { works(); MC_CHECK(hclose(h) == 0, "hclose", "hclose: %s", strerror(errno)); }
    if(kind == CHAN) hclose(peer[1]);
    if(kind == BAD_OWNED) { hclose(peer[0]); MC_CHECK(userclosed == 1, "disturbed", "the object was closed %d times", userclosed); }
    MC_CHECK(vk_open_fds() == base, "fds", "descriptors were left open");
}
/* Another coroutine is blocked in a proper operation on the object. */
static void busy(void) {
    static const int ks[] = {CHAN, BNDL, CORO, TCPC, IPCC, TCPL, IPCL};
    MC_CHECK(ipaddr_local(&ua4, "10.0.0.1", 80, 0) == 0, "setup", "ipaddr");
    kind = ks[mc_pick(7, "kind")]; make();
    int u = go(userof()); MC_CHECK(u >= 0, "setup", "go"); yield();
    MC_CHECK(!udone, "setup", "the user of the object does not block");
    once(1);
    if(which >= 0) {
        yield(); MC_CHECK(!udone, "woken", "%s on %s woke up a coroutine that uses it", C[which].n, K[kind].n);
        switch(kind) { case CHAN: MC_CHECK(chsend(peer[1], "vw", 2, now() + 50) == 0, "disturbed", "chsend: %s", strerror(errno)); break; case TCPC: case IPCC: vs_write(rem, "vw", 2); break; case TCPL: case IPCL: MC_CHECK(vk_remote_client(5555, kind == IPCL ? "/s" : NULL), "disturbed", "refused"); break; default: break; }
        if(kind != BNDL && kind != CORO) {
            msleep(now() + 5);
            MC_CHECK(udone && urc >= 0, "disturbed", "after %s the operation in progress on %s: %s", C[which].n, K[kind].n, udone ? strerror(uerr) : "blocked");
            if(kind == TCPL || kind == IPCL) hclose(urc); else MC_CHECK(!memcmp(ub, "vw", 2), "disturbed", "data");
        }
    }
    hclose(u); hclose(h); if(kind == CHAN) hclose(peer[1]);
}
struct mc_scn mc_scns[] = {
    {"one", "each of 68 calls with each of 23 handles it is not for", misuse, 0, 0, 1},
    {"two", "two such calls one after another", misuse, 0, 0, 2},
    {"busy", "such a call while another coroutine is blocked in a proper one", busy, 0, 0},
    {0}
};
