/* Every way of making an object: making, using and ending it (C33, C34). */
#ifndef OBJS_H
#define OBJS_H
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "libdillimpl.h"
#include "tlsenv.h"
#include <sys/socket.h>
#include <netinet/in.h>

enum {CHAN, BUNDLE, TCPL, TCPA, TCPC, TCPF, TCPLF, IPCL, IPCA, IPCC, IPCF, IPCLF, IPCP, UDP, PREFIX, SUFFIX, TERM, HTTP, WSC, WSS, TLSC, TLSS, NK};
static const char *const kn[] = {"chmake", "bundle", "tcp_listen", "tcp_accept", "tcp_connect", "tcp_fromfd", "tcp_listener_fromfd", "ipc_listen", "ipc_accept", "ipc_connect", "ipc_fromfd", "ipc_listener_fromfd", "ipc_pair", "udp_open", "prefix_attach", "suffix_attach", "term_attach", "http_attach", "ws_attach_client", "ws_attach_server", "tls_attach_client", "tls_attach_server"};
static const size_t sz[] = {sizeof(struct chstorage), sizeof(struct bundle_storage), sizeof(struct tcp_listener_storage), sizeof(struct tcp_storage), sizeof(struct tcp_storage), sizeof(struct tcp_storage), sizeof(struct tcp_listener_storage), sizeof(struct ipc_listener_storage), sizeof(struct ipc_storage), sizeof(struct ipc_storage), sizeof(struct ipc_storage), sizeof(struct ipc_listener_storage), sizeof(struct ipc_pair_storage), sizeof(struct udp_storage), sizeof(struct prefix_storage), sizeof(struct suffix_storage), sizeof(struct term_storage), sizeof(struct http_storage), sizeof(struct ws_storage), sizeof(struct ws_storage), sizeof(struct tls_storage), sizeof(struct tls_storage)};

struct obj { int kind, i, h, h2, peer, aux, fd; struct vstream *r; void *mem; int ended; struct ipaddr a; char path[8]; } O[NOBJ];
static long allocs; static int counting; static void onalloc(void *p, size_t n) { (void)p; (void)n; if(counting) allocs++; }
static int deads(void) { int p[2]; if(ipc_pair(p)) mc_fail("setup", "ipc_pair"); hclose(p[1]); return p[0]; }
static int stream(int k) { return k == TCPA || k == TCPC || k == TCPF || k == IPCA || k == IPCC || k == IPCF || k == IPCP || k == TLSC || k == TLSS; }
static int listener(int k) { return k == TCPL || k == TCPLF || k == IPCL || k == IPCLF; }
static int message(int k) { return k == PREFIX || k == SUFFIX || k == TERM || k == WSC || k == WSS; }
/* The other end of the protocol, in memory of the library. */
static coroutine void other(struct obj *o) {
    int s = o->peer;
    switch(o->kind) { case PREFIX: s = prefix_attach(s, 2, 0); break; case SUFFIX: s = suffix_attach(s, "\r\n", 2); break; case TERM: s = term_attach(prefix_attach(s, 2, 0), "END", 3); break; case HTTP: s = http_attach(s); break;
    case WSC: s = ws_attach_server(s, WS_BINARY | WS_NOHTTP, NULL, 0, NULL, 0, -1); break; case WSS: s = ws_attach_client(s, WS_BINARY | WS_NOHTTP, NULL, NULL, -1); break; case TLSC: s = tls_attach_server(s, te_cert, te_key, now() + 100); break; case TLSS: s = tls_attach_client(s, now() + 100); break; }
    if(s < 0) mc_fail("setup", "the peer of %s: %s", kn[o->kind], strerror(errno)); o->peer = s;
    if(o->kind == TLSC) { if(bsend(s, "!", 1, now() + 100)) mc_fail("setup", "tls"); }
    if(o->kind == TLSS) { char b[1]; if(brecv(s, b, 1, now() + 100)) mc_fail("setup", "tls"); }
}
/* What is there before the object. */
static void prepare(struct obj *o) {
    int k = o->kind, s[2] = {-1, -1}; o->h = o->h2 = o->peer = o->aux = o->fd = -1; o->r = NULL; o->ended = 0; ipaddr_local(&o->a, "127.0.0.1", 5555 + o->i, IPADDR_IPV4); sprintf(o->path, "/s%d", o->i);
    extern int vk_socket(int, int, int); extern int vk_bind(int, const struct sockaddr*, socklen_t); extern int vk_listen(int, int);
    switch(k) {
    case TCPA: o->aux = tcp_listen(&o->a, 4); o->peer = tcp_connect(&o->a, -1); break;
    case TCPC: o->aux = tcp_listen(&o->a, 4); break;
    case IPCA: o->aux = ipc_listen(o->path, 4); o->peer = ipc_connect(o->path, -1); break;
    case IPCC: o->aux = ipc_listen(o->path, 4); break;
    case TCPF: o->fd = vk_stream_fd(AF_INET, &o->r); break; case IPCF: o->fd = vk_stream_fd(AF_UNIX, &o->r); break;
    case TCPLF: o->fd = vk_socket(AF_INET, SOCK_STREAM, 0); vk_bind(o->fd, ipaddr_sockaddr(&o->a), ipaddr_len(&o->a)); vk_listen(o->fd, 4); break;
    case IPCLF: { struct {sa_family_t f; char p[108];} su = {AF_UNIX, {0}}; strcpy(su.p, o->path); o->fd = vk_socket(AF_UNIX, SOCK_STREAM, 0); vk_bind(o->fd, (void*)&su, 110); vk_listen(o->fd, 4); break; }
    case PREFIX: case SUFFIX: case TERM: case HTTP: case WSC: case WSS: case TLSC: case TLSS: if(ipc_pair(s)) mc_fail("setup", "ipc_pair"); o->aux = s[0]; o->peer = s[1]; if(k == TERM) o->aux = prefix_attach(o->aux, 2, 0); { int h = go(other(o)); if(h < 0) mc_fail("setup", "go"); o->h2 = h; } break;
    }
}
/* mem NULL: the usual function; bad: with a NULL storage. */
static void open_(struct obj *o, void *mem, int bad) {
    int k = o->kind, s[2] = {-1, -1}, rc = -1, m = mem || bad; o->mem = mem; allocs = 0; counting = 1; errno = 0;
    switch(k) {
    case CHAN: rc = m ? chmake_mem(mem, s) : chmake(s); if(!rc) { rc = s[0]; o->h2 = s[1]; } break;
    case BUNDLE: rc = m ? bundle_mem(mem) : bundle(); break;
    case TCPL: rc = m ? tcp_listen_mem(&o->a, 4, mem) : tcp_listen(&o->a, 4); break;
    case TCPA: rc = m ? tcp_accept_mem(o->aux, NULL, mem, -1) : tcp_accept(o->aux, NULL, -1); break;
    case TCPC: rc = m ? tcp_connect_mem(&o->a, mem, -1) : tcp_connect(&o->a, -1); break;
    case TCPF: rc = m ? tcp_fromfd_mem(o->fd, mem) : tcp_fromfd(o->fd); break;
    case TCPLF: rc = m ? tcp_listener_fromfd_mem(o->fd, mem) : tcp_listener_fromfd(o->fd); break;
    case IPCL: rc = m ? ipc_listen_mem(o->path, 4, mem) : ipc_listen(o->path, 4); break;
    case IPCA: rc = m ? ipc_accept_mem(o->aux, mem, -1) : ipc_accept(o->aux, -1); break;
    case IPCC: rc = m ? ipc_connect_mem(o->path, mem, -1) : ipc_connect(o->path, -1); break;
    case IPCF: rc = m ? ipc_fromfd_mem(o->fd, mem) : ipc_fromfd(o->fd); break;
    case IPCLF: rc = m ? ipc_listener_fromfd_mem(o->fd, mem) : ipc_listener_fromfd(o->fd); break;
    case IPCP: rc = m ? ipc_pair_mem(mem, s) : ipc_pair(s); if(!rc) { rc = s[0]; o->peer = s[1]; } break;
    case UDP: rc = m ? udp_open_mem(&o->a, NULL, mem) : udp_open(&o->a, NULL); break;
    case PREFIX: rc = m ? prefix_attach_mem(o->aux, 2, 0, mem) : prefix_attach(o->aux, 2, 0); break;
    case SUFFIX: rc = m ? suffix_attach_mem(o->aux, "\r\n", 2, mem) : suffix_attach(o->aux, "\r\n", 2); break;
    case TERM: rc = m ? term_attach_mem(o->aux, "END", 3, mem) : term_attach(o->aux, "END", 3); break;
    case HTTP: rc = m ? http_attach_mem(o->aux, mem) : http_attach(o->aux); break;
    case WSC: rc = m ? ws_attach_client_mem(o->aux, WS_BINARY | WS_NOHTTP, NULL, NULL, mem, -1) : ws_attach_client(o->aux, WS_BINARY | WS_NOHTTP, NULL, NULL, -1); break;
    case WSS: rc = m ? ws_attach_server_mem(o->aux, WS_BINARY | WS_NOHTTP, NULL, 0, NULL, 0, mem, -1) : ws_attach_server(o->aux, WS_BINARY | WS_NOHTTP, NULL, 0, NULL, 0, -1); break;
    case TLSC: rc = m ? tls_attach_client_mem(o->aux, mem, now() + 100) : tls_attach_client(o->aux, now() + 100); break;
    case TLSS: rc = m ? tls_attach_server_mem(o->aux, te_cert, te_key, mem, now() + 100) : tls_attach_server(o->aux, te_cert, te_key, now() + 100); break;
    }
    counting = 0; o->h = rc; int er = errno;
    if(bad) { MC_CHECK(rc < 0 && er == EINVAL, "null", "%s with NULL memory: %d %s", kn[k], rc, strerror(er)); return; }
    MC_CHECK(rc >= 0, "open", "%s%s: %s", kn[k], mem ? "_mem" : "", strerror(er));
    /* Peers that come to be now */
    if(k == TCPC) { o->peer = tcp_accept(o->aux, NULL, -1); } if(k == IPCC) o->peer = ipc_accept(o->aux, -1);
    if(k >= PREFIX) { o->aux = -1; if(k == TLSC) { char b[1]; if(brecv(rc, b, 1, now() + 100)) mc_fail("use", "tls"); } if(k == TLSS && bsend(rc, "!", 1, now() + 100)) mc_fail("use", "tls"); msleep(now()); hclose(o->h2); o->h2 = -1; }
}
static void same(const char *a, const char *b, int n, const char *what, struct obj *o) { MC_CHECK(!memcmp(a, b, n), "data", "%s: wrong data %s", kn[o->kind], what); }
#define OK(x, what) do { long rc_ = (x); MC_CHECK(rc_ >= 0, "use", "%s: %s: %s", kn[o->kind], what, strerror(errno)); } while(0)
static int64_t dl(void) { return now() + 20; }
static coroutine void chs(int h, const char *p) { chsend(h, p, 4, dl()); }
static coroutine void nap(int64_t t) { msleep(t); }
static coroutine void brs(struct obj *o, char *b, int *rc) { *rc = brecv(o->h, b, 4, -1); }
static void use(struct obj *o, int phase) {
    int k = o->kind; char b[40] = {0}, c[40] = {0}; const char *x = phase ? "wxyz" : "abcd", *y = phase ? "4321" : "1234";
    if(k == CHAN) { int h = go(chs(o->h, x)); OK(h, "go"); OK(chrecv(o->h2, b, 4, dl()), "chrecv"); same(b, x, 4, "received", o); hclose(h); h = go(chs(o->h2, y)); OK(chrecv(o->h, b, 4, dl()), "chrecv"); same(b, y, 4, "received", o); hclose(h); MC_CHECK(chrecv(o->h, b, 4, now()) < 0 && errno == ETIMEDOUT, "use", "chrecv from nobody: %s", strerror(errno)); }
    if(k == BUNDLE) { OK(bundle_wait(o->h, -1), "waiting for nobody"); for(int i = 0; i < 3; ++i) OK(bundle_go(o->h, nap(now() + i)), "bundle_go"); MC_CHECK(bundle_wait(o->h, now() + 1) < 0 && errno == ETIMEDOUT, "use", "bundle_wait did not time out"); int64_t t = now(); OK(bundle_wait(o->h, -1), "bundle_wait"); MC_CHECK(now() == t + 1, "use", "bundle_wait took %d ms", (int)(now() - t)); }
    if(listener(k)) { struct vstream *v = vk_remote_client(5555 + o->i, k == IPCL || k == IPCLF ? o->path : NULL); MC_CHECK(v, "use", "%s: connecting to it is refused", kn[k]); int s = k == TCPL || k == TCPLF ? tcp_accept(o->h, NULL, dl()) : ipc_accept(o->h, dl()); OK(s, "accept"); vs_write(v, x, 4); OK(brecv(s, b, 4, dl()), "brecv"); same(b, x, 4, "received", o); OK(hclose(s), "hclose");
        s = k == TCPL || k == TCPLF ? tcp_accept(o->h, NULL, now() + 1) : ipc_accept(o->h, now() + 1); MC_CHECK(s < 0 && errno == ETIMEDOUT, "use", "accept of nobody: %d %s", s, strerror(errno)); }
    if(stream(k)) {
        int rc = 5, h = go(brs(o, b, &rc)); OK(h, "go"); MC_CHECK(rc == 5, "use", "received before it was sent: %s", strerror(errno));
        if(o->r) vs_write(o->r, x, 4); else OK(bsend(o->peer, x, 4, dl()), "the peer's bsend"); for(int i = 0; i < 5 && rc == 5; ++i) msleep(now()); hclose(h); MC_CHECK(rc == 0, "use", "%s: receiving: %d", kn[k], rc); same(b, x, 4, "received", o);
        OK(bsend(o->h, y, 4, dl()), "bsend"); if(o->r) { MC_CHECK(vs_read(o->r, c, 4) == 4, "use", "%s: not sent", kn[k]); } else OK(brecv(o->peer, c, 4, dl()), "the peer's brecv"); same(c, y, 4, "sent", o);
    }
    if(message(k)) {
        OK(msend(o->peer, x, 4, dl()), "the peer's msend"); ssize_t n = mrecv(o->h, b, 40, dl()); OK(n, "mrecv"); MC_CHECK(n == 4, "use", "size %zd", n); same(b, x, 4, "received", o);
        OK(msend(o->h, y, 4, dl()), "msend"); n = mrecv(o->peer, c, 40, dl()); OK(n, "the peer's mrecv"); MC_CHECK(n == 4, "use", "size %zd", n); same(c, y, 4, "sent", o);
        if(k == WSC || k == WSS) { int st = 0; ssize_t q = ws_status(o->h, &st, b, 40); MC_CHECK(q < 0 && errno == EAGAIN, "use", "%s: ws_status before the end: %zd %s", kn[k], q, strerror(errno)); }
    }
    if(k == UDP) { OK(udp_send(o->h, &o->a, x, 4), "udp_send"); struct ipaddr f; ssize_t n = udp_recv(o->h, &f, b, 40, dl()); MC_CHECK(n == 4 && ipaddr_equal(&f, &o->a, 0), "use", "udp_recv: %zd %s", n, strerror(errno)); same(b, x, 4, "received", o); n = udp_recv(o->h, NULL, b, 40, now() + 1); MC_CHECK(n < 0 && errno == ETIMEDOUT, "use", "udp_recv from nobody: %zd %s", n, strerror(errno)); }
    if(k == HTTP) {
        if(!phase) { OK(http_sendrequest(o->peer, "GET", "/x", dl()), "the peer's request"); OK(http_recvrequest(o->h, b, 10, c, 10, dl()), "http_recvrequest"); MC_CHECK(!strcmp(b, "GET") && !strcmp(c, "/x"), "data", "request"); OK(http_sendstatus(o->h, 200, "Ok", dl()), "http_sendstatus"); char r[10]; int st = http_recvstatus(o->peer, r, 10, dl()); MC_CHECK(st == 200, "use", "the peer's status %d", st); }
        OK(http_sendfield(o->peer, "n", x, dl()), "the peer's field"); OK(http_recvfield(o->h, b, 10, c, 10, dl()), "http_recvfield"); MC_CHECK(!strcmp(b, "n") && !strcmp(c, x), "data", "field");
        OK(http_sendfield(o->h, "m", y, dl()), "http_sendfield"); OK(http_recvfield(o->peer, b, 10, c, 10, dl()), "the peer's http_recvfield"); MC_CHECK(!strcmp(b, "m") && !strcmp(c, y), "data", "field");
    }
}
static coroutine void peerend(struct obj *o) {
    char b[4];
    switch(o->kind) { case TCPA: case TCPC: tcp_done(o->peer, dl()); break; case IPCA: case IPCC: case IPCP: ipc_done(o->peer, dl()); break; case TERM: term_done(o->peer, dl()); break; case HTTP: http_done(o->peer, dl()); break; case TLSC: case TLSS: tls_done(o->peer, dl()); break;
    case WSC: case WSS: ws_done(o->peer, o->i ? 1000 : 0, NULL, 0, dl()); break; case PREFIX: case SUFFIX: hclose(o->peer); o->peer = -1; break; }
    if(o->peer >= 0) { if(message(o->kind)) mrecv(o->peer, b, 4, dl()); else if(o->kind != HTTP) brecv(o->peer, b, 1, dl()); }
}
/* The ways an object comes to its end; the last thing is that its handle is gone. */
static void end(struct obj *o, int how) {
    int k = o->kind, rc = 0, u = -1; char b[8];
    if(k == CHAN) { if(how == 1) { OK(chdone(o->h), "chdone"); MC_CHECK(chrecv(o->h2, b, 4, -1) < 0 && errno == EPIPE, "use", "chrecv after the end"); } if(how == 2) { OK(hclose(o->h2), "hclose"); o->h2 = o->h; o->h = -1; MC_CHECK(chsend(o->h2, b, 4, now() + 1) < 0, "use", "chsend to nobody"); } if(o->h >= 0) OK(hclose(o->h), "hclose"); OK(hclose(o->h2), "hclose"); o->h = o->h2 = -1; return; }
    if(k == BUNDLE) for(int i = 0; i < how; ++i) OK(bundle_go(o->h, nap(-1)), "bundle_go");
    if(how == 0 || k == BUNDLE || listener(k) || k == UDP || ((k == PREFIX) && how == 1)) { OK(hclose(o->h), "hclose"); if(k == IPCP) { hclose(o->peer); o->peer = -1; } o->h = -1; return; }
    int h = -1;
    if(o->r) vs_shut(o->r); else { h = go(peerend(o)); OK(h, "go"); }
    if(how == 1) { /* the end of both directions, then hclose */
        if(message(k)) { for(int i = 0; i < 5; ++i) { rc = mrecv(o->h, b, 8, dl()); if(rc < 0) break; } MC_CHECK(rc < 0 && (errno == EPIPE || k == SUFFIX), "use", "%s: at the end: %d %s", kn[k], rc, strerror(errno)); }
        else if(k == HTTP) { MC_CHECK(http_recvfield(o->h, b, 8, b, 8, dl()) < 0 && errno == EPIPE, "use", "http: at the end: %s", strerror(errno)); }
        else { MC_CHECK(brecv(o->h, b, 1, dl()) < 0 && errno == EPIPE, "use", "%s: at the end: %s", kn[k], strerror(errno)); }
        switch(k) { case TCPA: case TCPC: case TCPF: OK(tcp_done(o->h, dl()), "tcp_done"); break; case IPCA: case IPCC: case IPCF: case IPCP: OK(ipc_done(o->h, dl()), "ipc_done"); break; case TERM: OK(term_done(o->h, dl()), "term_done"); break; case HTTP: OK(http_done(o->h, dl()), "http_done"); break;
            case WSC: case WSS: OK(ws_done(o->h, 1000, NULL, 0, dl()), "ws_done"); { int st = 0; rc = ws_status(o->h, &st, b, 8); OK(rc, "ws_status"); MC_CHECK(rc == 0 && st == (o->i ? 1000 : 0), "use", "status %d", st); } break; }
        OK(hclose(o->h), "hclose");
    } else {
        switch(k) { case TCPA: case TCPC: case TCPF: OK(tcp_close(o->h, dl()), "tcp_close"); break; case IPCA: case IPCC: case IPCF: case IPCP: OK(ipc_close(o->h, dl()), "ipc_close"); break;
        case PREFIX: u = prefix_detach(o->h); OK(u, "detach"); break; case SUFFIX: u = suffix_detach(o->h, dl()); OK(u, "detach"); break; case TERM: u = term_detach(o->h, dl()); OK(u, "detach"); break; case HTTP: u = http_detach(o->h, dl()); OK(u, "detach"); break; case WSC: case WSS: u = ws_detach(o->h, 1000, NULL, 0, dl()); OK(u, "detach"); break; case TLSC: case TLSS: u = tls_detach(o->h, dl()); OK(u, "detach"); break; }
    }
    o->h = -1; if(h >= 0) { msleep(now() + 1); hclose(h); } if(k == IPCP && o->peer >= 0) { hclose(o->peer); o->peer = -1; } if(u >= 0) OK(hclose(u), "closing the socket below");
}
static void clean(struct obj *o) { if(o->peer >= 0) hclose(o->peer); if(o->aux >= 0) hclose(o->aux); o->peer = o->aux = -1; }

#endif
