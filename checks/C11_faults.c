/* C11: failed calls leave nothing behind. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "libdillimpl.h"
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <netinet/in.h>
#include <arpa/inet.h>

const char *mc_property = "C11";
const char *mc_level = "fault_enumeration";
const char *mc_assumptions[] = {
    "one thread; the library has already been used once in the thread (its first use aborts the process if there is no memory, as the source states)",
    "system calls, clock and heap are those of the virtual kernel; each allocation and each resource-creating system call may fail, with up to the stated number of failures in an execution",
    "epoll_ctl does not run out of watches", NULL};

static const int tX = 0;
struct xobj { struct hvfs v; int closed; };
static void *xq(struct hvfs *v, const void *t) { if(t == &tX) return v; errno = ENOTSUP; return NULL; }
static void xc(struct hvfs *v) { ((struct xobj*)v)->closed++; }

/* ---- everything that is alive: a connection, a channel, a sleeper ---- */
static int w_s, w_c[2], w_h, w_fd; static struct vstream *w_rem; static int slept;
static int ran;
static coroutine void sleeper(void) { slept = 0; int rc = msleep(now() + 5); slept = rc == 0 ? 1 : -1; }
static coroutine void nothing(void) { ++ran; }
static coroutine void waits(void) { ++ran; msleep(-1); ++ran; }
static void world(void) {
    w_fd = vk_stream_fd(AF_INET, &w_rem);
    w_s = tcp_fromfd(w_fd);
    MC_CHECK(w_s >= 0, "setup", "tcp_fromfd");
    MC_CHECK(chmake(w_c) == 0, "setup", "chmake");
    char c; vs_write(w_rem, "ab", 2);
    MC_CHECK(brecv(w_s, &c, 1, -1) == 0 && c == 'a', "setup", "brecv");
    w_h = go(sleeper()); MC_CHECK(w_h >= 0, "setup", "go");
}
static coroutine void csend(int ch, int v) { int rc = chsend(ch, &v, sizeof v, -1); MC_CHECK(rc == 0, "world-chan", "chsend: %s", strerror(errno)); }
static void world_ok(void) {
    char c = 0; int v = 0;
    MC_CHECK(brecv(w_s, &c, 1, -1) == 0 && c == 'b', "world-recv", "an unrelated connection was affected: %s", strerror(errno));
    MC_CHECK(bsend(w_s, "xyz", 3, -1) == 0, "world-send", "an unrelated connection was affected: %s", strerror(errno));
    char b[8]; MC_CHECK(vs_read(w_rem, b, 8) == 3 && !memcmp(b, "xyz", 3), "world-send", "wrong bytes");
    int h = go(csend(w_c[0], 77)); MC_CHECK(h >= 0, "world-go", "go: %s", strerror(errno));
    MC_CHECK(chrecv(w_c[1], &v, sizeof v, -1) == 0 && v == 77, "world-chan", "an unrelated channel was affected: %s", strerror(errno));
    MC_CHECK(hclose(h) == 0, "world-go", "hclose");
    MC_CHECK(msleep(now() + 10) == 0 && slept == 1, "world-sleep", "an unrelated coroutine was affected (%d)", slept);
}
static void world_end(void) { hclose(w_s); hclose(w_c[0]); hclose(w_c[1]); hclose(w_h); }

/* Number of valid handles. */
#define HMAX 340
static int handles(void) {
    int n = 0;
    for(int h = 0; h < HMAX; ++h) { errno = 0; if(hquery(h, &tX) || errno != EBADF) ++n; }
    return n;
}

/* ---- operations ---- */
enum { GO, GO_RUN, BUNDLE_GO, BUNDLE, BUNDLE_MEM, GO_MEM, CHMAKE, CHMAKE_MEM, HMAKE, HOWN,
    TCP_LISTEN, TCP_CONNECT, TCP_ACCEPT, TCP_FROMFD, TCP_LFROMFD,
    TCP_LISTEN_M, TCP_CONNECT_M, TCP_ACCEPT_M, TCP_FROMFD_M, TCP_LFROMFD_M,
    IPC_LISTEN, IPC_CONNECT, IPC_ACCEPT, IPC_FROMFD, IPC_LFROMFD, IPC_PAIR,
    IPC_LISTEN_M, IPC_CONNECT_M, IPC_ACCEPT_M, IPC_FROMFD_M, IPC_LFROMFD_M, IPC_PAIR_M,
    UDP_OPEN, UDP_OPEN_M,
    PREFIX, PREFIX_M, SUFFIX, SUFFIX_M, TERM, TERM_M, HTTP, HTTP_M, WS_RAW, WS_RAW_M,
    PREFIX_D, SUFFIX_D, TERM_D, HTTP_D, WS_D,
    FDIN, FDOUT, BRECV, BSEND, IPC_BRECV, SENDFD, MSLEEP, CHOOSE, NOPS };
static const char *opname[] = { "go", "go (runs to its end)", "bundle_go", "bundle", "bundle_mem", "go_mem", "chmake", "chmake_mem", "hmake", "hown",
    "tcp_listen", "tcp_connect", "tcp_accept", "tcp_fromfd", "tcp_listener_fromfd",
    "tcp_listen_mem", "tcp_connect_mem", "tcp_accept_mem", "tcp_fromfd_mem", "tcp_listener_fromfd_mem",
    "ipc_listen", "ipc_connect", "ipc_accept", "ipc_fromfd", "ipc_listener_fromfd", "ipc_pair",
    "ipc_listen_mem", "ipc_connect_mem", "ipc_accept_mem", "ipc_fromfd_mem", "ipc_listener_fromfd_mem", "ipc_pair_mem",
    "udp_open", "udp_open_mem", "prefix_attach", "prefix_attach_mem", "suffix_attach", "suffix_attach_mem", "term_attach", "term_attach_mem",
    "http_attach", "http_attach_mem", "ws_attach", "ws_attach_mem", "prefix_detach", "suffix_detach", "term_detach", "http_detach", "ws_detach",
    "fdin", "fdout", "brecv", "bsend", "brecv on ipc", "ipc_sendfd", "msleep", "choose" };

struct st { /* one instance of an operation */
    int op, base_h, base_fd, res[2], nres, aux[4], fd, consumed; struct vstream *rem;
    struct xobj x;
    union { struct bundle_storage b; struct chstorage c; struct tcp_storage t; struct tcp_listener_storage tl; struct ipc_storage i; struct ipc_listener_storage il;
        struct ipc_pair_storage ip; struct udp_storage u; struct prefix_storage p; struct suffix_storage s; struct term_storage te; struct http_storage h; struct ws_storage w; } m;
    uint8_t *stk;
};
static int bh;
/* What the operation needs; nothing fails here. */
static void prepare(struct st *t) {
    struct ipaddr a;
    t->nres = 0; t->consumed = 0; t->res[0] = t->res[1] = -1;
    memset(t->aux, -1, sizeof t->aux); t->fd = -1; t->rem = NULL;
    int op = t->op;
    switch(op) {
    case BUNDLE_GO: t->aux[0] = bundle(); break;
    case HMAKE: case HOWN: t->x.v.query = xq; t->x.v.close = xc; t->x.closed = 0; if(op == HOWN) t->aux[0] = hmake(&t->x.v); break;
    case TCP_CONNECT: case TCP_CONNECT_M: case TCP_ACCEPT: case TCP_ACCEPT_M:
        ipaddr_local(&a, "127.0.0.1", 5555, 0);
        t->aux[0] = tcp_listen(&a, 10); MC_CHECK(t->aux[0] >= 0, "setup", "tcp_listen: %s", strerror(errno));
        if(op == TCP_ACCEPT || op == TCP_ACCEPT_M) { t->rem = vk_remote_client(5555, NULL); MC_CHECK(t->rem != NULL, "setup", "client"); }
        break;
    case IPC_CONNECT: case IPC_CONNECT_M: case IPC_ACCEPT: case IPC_ACCEPT_M:
        t->aux[0] = ipc_listen("/x/s", 10); MC_CHECK(t->aux[0] >= 0, "setup", "ipc_listen: %s", strerror(errno));
        if(op == IPC_ACCEPT || op == IPC_ACCEPT_M) { t->rem = vk_remote_client(0, "/x/s"); MC_CHECK(t->rem != NULL, "setup", "client"); }
        break;
    case TCP_FROMFD: case TCP_FROMFD_M: t->fd = vk_stream_fd(AF_INET, &t->rem); break;
    case IPC_FROMFD: case IPC_FROMFD_M: t->fd = vk_stream_fd(AF_UNIX, &t->rem); break;
    case TCP_LFROMFD: case TCP_LFROMFD_M: case IPC_LFROMFD: case IPC_LFROMFD_M: {
        extern int vk_socket(int, int, int), vk_bind(int, const struct sockaddr*, socklen_t), vk_listen(int, int);
        int un = op == IPC_LFROMFD || op == IPC_LFROMFD_M;
        t->fd = vk_socket(un ? AF_UNIX : AF_INET, SOCK_STREAM, 0);
        ipaddr_local(&a, "127.0.0.1", 6666, 0);
        struct { sa_family_t f; char p[108]; } su = {AF_UNIX, "/x/l"};
        vk_bind(t->fd, un ? (void*)&su : (void*)ipaddr_sockaddr(&a), un ? sizeof su : ipaddr_len(&a));
        vk_listen(t->fd, 5);
        break; }
    case SUFFIX: case SUFFIX_M: case PREFIX: case PREFIX_M: case HTTP: case HTTP_M: case WS_RAW: case WS_RAW_M:
    case PREFIX_D: case SUFFIX_D: case HTTP_D: case WS_D: case TERM: case TERM_M: case TERM_D: case BRECV: case BSEND: {
        int fd = vk_stream_fd(AF_INET, &t->rem); t->aux[0] = tcp_fromfd(fd);
        if(op == TERM || op == TERM_M || op == TERM_D || op == PREFIX_D) t->aux[0] = prefix_attach(t->aux[0], 2, 0);
        if(op == TERM_D) t->aux[0] = term_attach(t->aux[0], "E", 1);
        if(op == SUFFIX_D) t->aux[0] = suffix_attach(t->aux[0], "\r\n", 2);
        if(op == HTTP_D) t->aux[0] = http_attach(t->aux[0]);
        if(op == WS_D) t->aux[0] = ws_attach_client(t->aux[0], WS_BINARY | WS_NOHTTP, NULL, NULL, -1);
        MC_CHECK(t->aux[0] >= 0, "setup", "connection: %s", strerror(errno));
        if(op == TERM_D) vs_write(t->rem, "\0\1E", 3);
        if(op == WS_D) vs_write(t->rem, "\x88\x00", 2);
        if(op == HTTP_D) vs_write(t->rem, "\r\n", 2);
        if(op == BRECV) vs_write(t->rem, "q", 1);
        if(op == PREFIX_D || op == SUFFIX_D) ;
        break; }
    case IPC_BRECV: { int fd = vk_stream_fd(AF_UNIX, &t->rem); t->aux[0] = ipc_fromfd(fd); vs_write(t->rem, "q", 1); break; }
    case SENDFD: { int fd = vk_stream_fd(AF_UNIX, &t->rem); t->aux[0] = ipc_fromfd(fd); t->fd = vk_probe(); break; }
    case FDIN: case FDOUT: t->fd = vk_probe(); vk_probe_set(t->fd, 1 | 4); break; /* POLLIN|POLLOUT */
    case GO_MEM: t->stk = malloc(65536); break;
    case CHOOSE: { int c[2]; chmake(c); t->aux[0] = c[0]; t->aux[1] = c[1]; break; }
    }
}
static int64_t DL;
static int perform(struct st *t) {
    struct ipaddr a; int op = t->op, p[2] = {-1, -1}, rc = -1, r;
    if(op == CHOOSE) t->aux[2] = 0;
    errno = 0;
    switch(op) {
    case GO: rc = go(waits()); break;
    case GO_RUN: rc = go(nothing()); break;
    case BUNDLE_GO: rc = bundle_go(t->aux[0], nothing()); break;
    case BUNDLE: rc = bundle(); break;
    case BUNDLE_MEM: rc = bundle_mem(&t->m.b); break;
    case GO_MEM: rc = go_mem(waits(), t->stk, 65536); break;
    case CHMAKE: rc = chmake(p); break;
    case CHMAKE_MEM: rc = chmake_mem(&t->m.c, p); break;
    case HMAKE: rc = hmake(&t->x.v); break;
    case HOWN: rc = hown(t->aux[0]); t->consumed = 1; break;
    case TCP_LISTEN: case TCP_LISTEN_M: r = ipaddr_local(&a, "127.0.0.1", 5555, 0); rc = op == TCP_LISTEN ? tcp_listen(&a, 10) : tcp_listen_mem(&a, 10, &t->m.tl); break;
    case TCP_CONNECT: case TCP_CONNECT_M: ipaddr_remote(&a, "127.0.0.1", 5555, 0, -1); rc = op == TCP_CONNECT ? tcp_connect(&a, DL) : tcp_connect_mem(&a, &t->m.t, DL); break;
    case TCP_ACCEPT: rc = tcp_accept(t->aux[0], NULL, DL); break;
    case TCP_ACCEPT_M: rc = tcp_accept_mem(t->aux[0], &a, &t->m.t, DL); break;
    case TCP_FROMFD: rc = tcp_fromfd(t->fd); break;
    case TCP_FROMFD_M: rc = tcp_fromfd_mem(t->fd, &t->m.t); break;
    case TCP_LFROMFD: rc = tcp_listener_fromfd(t->fd); break;
    case TCP_LFROMFD_M: rc = tcp_listener_fromfd_mem(t->fd, &t->m.tl); break;
    case IPC_LISTEN: rc = ipc_listen("/x/s", 10); break;
    case IPC_LISTEN_M: rc = ipc_listen_mem("/x/s", 10, &t->m.il); break;
    case IPC_CONNECT: rc = ipc_connect("/x/s", DL); break;
    case IPC_CONNECT_M: rc = ipc_connect_mem("/x/s", &t->m.i, DL); break;
    case IPC_ACCEPT: rc = ipc_accept(t->aux[0], DL); break;
    case IPC_ACCEPT_M: rc = ipc_accept_mem(t->aux[0], &t->m.i, DL); break;
    case IPC_FROMFD: rc = ipc_fromfd(t->fd); break;
    case IPC_FROMFD_M: rc = ipc_fromfd_mem(t->fd, &t->m.i); break;
    case IPC_LFROMFD: rc = ipc_listener_fromfd(t->fd); break;
    case IPC_LFROMFD_M: rc = ipc_listener_fromfd_mem(t->fd, &t->m.il); break;
    case IPC_PAIR: rc = ipc_pair(p); break;
    case IPC_PAIR_M: rc = ipc_pair_mem(&t->m.ip, p); break;
    case UDP_OPEN: case UDP_OPEN_M: ipaddr_local(&a, "127.0.0.1", 7777, 0); rc = op == UDP_OPEN ? udp_open(&a, NULL) : udp_open_mem(&a, NULL, &t->m.u); break;
    case PREFIX: rc = prefix_attach(t->aux[0], 2, 0); t->consumed = 1; break;
    case PREFIX_M: rc = prefix_attach_mem(t->aux[0], 2, 0, &t->m.p); t->consumed = 1; break;
    case SUFFIX: rc = suffix_attach(t->aux[0], "\r\n", 2); t->consumed = 1; break;
    case SUFFIX_M: rc = suffix_attach_mem(t->aux[0], "\r\n", 2, &t->m.s); t->consumed = 1; break;
    case TERM: rc = term_attach(t->aux[0], "E", 1); t->consumed = 1; break;
    case TERM_M: rc = term_attach_mem(t->aux[0], "E", 1, &t->m.te); t->consumed = 1; break;
    case HTTP: rc = http_attach(t->aux[0]); t->consumed = 1; break;
    case HTTP_M: rc = http_attach_mem(t->aux[0], &t->m.h); t->consumed = 1; break;
    case WS_RAW: rc = ws_attach_client(t->aux[0], WS_BINARY | WS_NOHTTP, NULL, NULL, DL); t->consumed = 1; break;
    case WS_RAW_M: rc = ws_attach_client_mem(t->aux[0], WS_BINARY | WS_NOHTTP, NULL, NULL, &t->m.w, DL); t->consumed = 1; break;
    case PREFIX_D: rc = prefix_detach(t->aux[0]); t->consumed = 1; break;
    case SUFFIX_D: rc = suffix_detach(t->aux[0], DL); t->consumed = 1; break;
    case TERM_D: rc = term_detach(t->aux[0], DL); t->consumed = 1; break;
    case HTTP_D: rc = http_detach(t->aux[0], DL); t->consumed = 1; break;
    case WS_D: rc = ws_detach(t->aux[0], 0, NULL, 0, DL); t->consumed = 1; break;
    case FDIN: rc = fdin(t->fd, DL); break;
    case FDOUT: rc = fdout(t->fd, DL); break;
    case BRECV: case IPC_BRECV: { char c = 0; rc = brecv(t->aux[0], &c, 1, DL); if(rc == 0) MC_CHECK(c == 'q', "data", "wrong byte"); break; }
    case BSEND: rc = bsend(t->aux[0], "hello", 5, DL); break;
    case SENDFD: rc = ipc_sendfd(t->aux[0], t->fd, DL); break;
    case MSLEEP: rc = msleep(now() + 1); break;
    case CHOOSE: { int v; struct chclause cl[] = {{CHRECV, t->aux[0], &v, sizeof v}}; rc = choose(cl, 1, now() + 1); if(rc == -1 && errno == ETIMEDOUT) rc = 0; break; }
    }
    (void)r;
    int e = errno;
    if(rc >= 0) {
        switch(op) {
        case CHMAKE: case CHMAKE_MEM: case IPC_PAIR: case IPC_PAIR_M: t->res[0] = p[0]; t->res[1] = p[1]; t->nres = 2; break;
        case BUNDLE_GO: case FDIN: case FDOUT: case BRECV: case IPC_BRECV: case BSEND: case SENDFD: case MSLEEP: case CHOOSE: t->nres = 0; break;
        default: t->res[0] = rc; t->nres = 1;
        }
    }
    errno = e;
    return rc;
}
/* Use what was created. */
static void use(struct st *t) {
    char b[8];
    switch(t->op) {
    case CHMAKE: case CHMAKE_MEM: { int v = 5, w = 0; int h = go(csend(t->res[0], v)); (void)h; MC_CHECK(chrecv(t->res[1], &w, sizeof w, -1) == 0 && w == 5, "use", "channel: %s", strerror(errno)); hclose(h); break; }
    case TCP_ACCEPT: case TCP_ACCEPT_M: case IPC_ACCEPT: case IPC_ACCEPT_M: case TCP_FROMFD: case TCP_FROMFD_M: case IPC_FROMFD: case IPC_FROMFD_M:
        MC_CHECK(bsend(t->res[0], "abc", 3, -1) == 0, "use", "bsend: %s", strerror(errno));
        MC_CHECK(vs_read(t->rem, b, 8) == 3, "use", "bytes");
        vs_write(t->rem, "z", 1);
        MC_CHECK(brecv(t->res[0], b, 1, -1) == 0 && b[0] == 'z', "use", "brecv: %s", strerror(errno));
        break;
    case PREFIX: case PREFIX_M: MC_CHECK(msend(t->res[0], "abc", 3, -1) == 0 && vs_read(t->rem, b, 8) == 5 && !memcmp(b, "\3\0abc", 5) | !memcmp(b, "\0\3abc", 5), "use", "msend: %s", strerror(errno)); break;
    case SUFFIX: case SUFFIX_M: MC_CHECK(msend(t->res[0], "abc", 3, -1) == 0 && vs_read(t->rem, b, 8) == 5 && !memcmp(b, "abc\r\n", 5), "use", "msend: %s", strerror(errno)); break;
    case TERM: case TERM_M: MC_CHECK(msend(t->res[0], "abc", 3, -1) == 0 && vs_read(t->rem, b, 8) == 5, "use", "msend: %s", strerror(errno)); break;
    case IPC_PAIR: case IPC_PAIR_M: MC_CHECK(bsend(t->res[0], "k", 1, -1) == 0 && brecv(t->res[1], b, 1, -1) == 0 && b[0] == 'k', "use", "pair: %s", strerror(errno)); break;
    case BUNDLE: case BUNDLE_MEM: { int r0 = ran; MC_CHECK(bundle_go(t->res[0], nothing()) == 0 && bundle_wait(t->res[0], -1) == 0 && ran == r0 + 1, "use", "bundle"); break; }
    case TCP_LISTEN: case TCP_LISTEN_M: { struct vstream *r = vk_remote_client(5555, NULL); MC_CHECK(r != NULL, "use", "nobody listens"); int s = tcp_accept(t->res[0], NULL, -1); MC_CHECK(s >= 0, "use", "tcp_accept: %s", strerror(errno)); hclose(s); break; }
    case IPC_LISTEN: case IPC_LISTEN_M: { struct vstream *r = vk_remote_client(0, "/x/s"); MC_CHECK(r != NULL, "use", "nobody listens"); int s = ipc_accept(t->res[0], -1); MC_CHECK(s >= 0, "use", "ipc_accept: %s", strerror(errno)); hclose(s); break; }
    case TCP_CONNECT: case TCP_CONNECT_M: { int s = tcp_accept(t->aux[0], NULL, -1); MC_CHECK(s >= 0, "use", "tcp_accept: %s", strerror(errno)); MC_CHECK(bsend(t->res[0], "k", 1, -1) == 0 && brecv(s, b, 1, -1) == 0, "use", "data"); hclose(s); break; }
    case IPC_CONNECT: case IPC_CONNECT_M: { int s = ipc_accept(t->aux[0], -1); MC_CHECK(s >= 0, "use", "ipc_accept: %s", strerror(errno)); MC_CHECK(bsend(t->res[0], "k", 1, -1) == 0 && brecv(s, b, 1, -1) == 0, "use", "data"); hclose(s); break; }
    case HMAKE: case HOWN: MC_CHECK(hquery(t->res[0], &tX) == &t->x, "use", "the handle does not refer to its object"); break;
    case BSEND: MC_CHECK(vs_read(t->rem, b, 8) == 5, "use", "bytes"); break;
    }
}
/* Handles behind the one passed (the protocols below have their own). */
static int depth(int op) { return op == TERM_D ? 3 : op == TERM || op == TERM_M || op == PREFIX_D || op == SUFFIX_D || op == WS_D ? 2 : op == HTTP_D ? 4 : 1; }
/* A failed call must not consume what was passed to it, unless documented. */
static int keeps_fd(int op) { return op == TCP_FROMFD || op == TCP_FROMFD_M || op == IPC_FROMFD || op == IPC_FROMFD_M || op == TCP_LFROMFD || op == TCP_LFROMFD_M || op == IPC_LFROMFD || op == IPC_LFROMFD_M; }
static void finish(struct st *t) {
    for(int i = 0; i < t->nres; ++i) MC_CHECK(hclose(t->res[i]) == 0, "close", "hclose: %s", strerror(errno));
    if(t->op == HMAKE && t->nres) MC_CHECK(t->x.closed == 1, "close", "the object was not closed");
    for(int i = 0; i < (t->op == CHOOSE ? 2 : 4); ++i) if(t->aux[i] >= 0 && !t->consumed) MC_CHECK(hclose(t->aux[i]) == 0, "close", "hclose: %s", strerror(errno));
    if(t->op == GO_MEM) free(t->stk);
    if((t->op == FDIN || t->op == FDOUT) && t->fd >= 0) { fdclean(t->fd); vk_close_raw(t->fd); }
    if(t->op == SENDFD) vk_close_raw(t->fd);
    if(keeps_fd(t->op) && !t->nres && vk_is_open(t->fd)) vk_close_raw(t->fd);
}
static int errno_ok(int e) { return e == ENOMEM || e == EMFILE || e == EADDRINUSE || e == ENOBUFS || e == ENOSPC; }
static void fault_errno(int e, const char *name) {
    MC_CHECK(errno_ok(e), "errno", "%s failed with %s", name, strerror(e));
    /* A single failure is reported as what it is. */
    if(vk_fault_count == 1 && vk_last_fault) {
        const char *f = vk_last_fault; int want = 0;
        if(!strcmp(f, "malloc") || !strcmp(f, "calloc") || !strcmp(f, "realloc") || !strcmp(f, "posix_memalign") || !strcmp(f, "mprotect")) want = ENOMEM;
        else if(!strcmp(f, "dup") || !strcmp(f, "socket") || !strcmp(f, "socketpair") || !strcmp(f, "accept")) want = EMFILE;
        else if(!strcmp(f, "bind") || !strcmp(f, "listen")) want = EADDRINUSE;
        else if(!strcmp(f, "connect")) want = ENOBUFS;
        if(want) MC_CHECK(e == want, "errno", "%s failed with %s after a failed %s", name, strerror(e), f);
    }
}
static void warm(void) {
    struct vstream *r; int fd = vk_stream_fd(AF_INET, &r); int s = tcp_fromfd(fd); char c;
    vs_write(r, "a", 1); MC_CHECK(brecv(s, &c, 1, -1) == 0, "setup", "brecv"); hclose(s);
    s = vk_probe(); vk_probe_set(s, 1); fdin(s, -1); fdclean(s); vk_close_raw(s);
}
static int filler[300], nfill; static struct xobj fx[300];
static void fill(int n) { nfill = n; for(int i = 0; i < n; ++i) { fx[i].v.query = xq; fx[i].v.close = xc; fx[i].closed = 0; filler[i] = hmake(&fx[i].v); } }
static void unfill(void) { for(int i = 0; i < nfill; ++i) { MC_CHECK(hclose(filler[i]) == 0 && fx[i].closed == 1, "filler", "an unrelated handle was lost"); } nfill = 0; }

static void one_(int op, int full, int drain_stacks) {
    static struct st a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    ran = 0; vk.faults = vk.faults ? vk.faults : 1; vk_faults_on(0);
    warm(); world();
    (void)drain_stacks;
    a.op = op; prepare(&a);
    /* Fill the handle table so that the next handle makes it grow. */
    if(full) fill(full - handles());
    int h0 = handles(), f0 = vk_open_fds(), r0 = ran;
    DL = -1;
    mc_log("%s", opname[op]);
    mc_step();
    vk_faults_on(1);
    int rc = perform(&a), e = errno;
    vk_faults_on(0);
    int nf = vk_fault_count;
    mc_log("= %d %s", rc, rc < 0 ? strerror(e) : "");
    if(rc < 0) {
        MC_CHECK(nf > 0, "failed", "%s failed without a reason: %s", opname[op], strerror(e));
        fault_errno(e, opname[op]);
        if(op == WS_D || op == TERM_D || op == HTTP_D || op == SUFFIX_D) {} /* may report after the socket is gone */
        /* Operations that take a handle take it also when they fail. */
        int lost = 0;
        if(a.consumed) {
            errno = 0; int alive = hquery(a.aux[0], &tX) || errno != EBADF;
            if(alive) a.consumed = 0; else lost = depth(op);
        }
        MC_CHECK(handles() == h0 - lost, "handle-left", "%s failed and %d handles are left (%d taken)", opname[op], handles() - h0 + lost, lost);
        if(!lost && !(op == TCP_ACCEPT || op == TCP_ACCEPT_M || op == IPC_ACCEPT || op == IPC_ACCEPT_M)) {
            MC_CHECK(vk_open_fds() <= f0, "fd-left", "%s failed and %d descriptors are left", opname[op], vk_open_fds() - f0);
            if(!keeps_fd(op)) MC_CHECK(vk_open_fds() == f0, "fd-lost", "%s failed and closed a descriptor of someone else", opname[op]);
        }
        MC_CHECK(vk_open_fds() <= f0, "fd-left", "%s failed and %d descriptors are left", opname[op], vk_open_fds() - f0);
        if(lost && a.rem) MC_CHECK(vs_closed(a.rem), "fd-left", "%s failed and took the socket without closing it", opname[op]);
        MC_CHECK(ran == r0, "ran", "%s failed and the coroutine runs", opname[op]);
    } else {
        if(op != FDIN && op != FDOUT && op != BRECV && op != BSEND && op != IPC_BRECV && op != SENDFD && op != MSLEEP && op != CHOOSE) {}
        use(&a);
    }
    world_ok();
    MC_CHECK(ran == r0 + (rc >= 0 && (op == GO || op == GO_MEM || op == GO_RUN || op == BUNDLE_GO || op == BUNDLE || op == BUNDLE_MEM)), "ran", "the coroutine ran %d times", ran - r0);
    finish(&a);
    /* Once more, without failures. */
    b.op = op; prepare(&b);
    rc = perform(&b);
    MC_CHECK(rc >= 0, "retry", "%s fails without a reason after an earlier failure: %s", opname[op], strerror(errno));
    use(&b); finish(&b);
    world_end(); if(nfill) unfill();
    mc_state(mc_mix(mc_mix(op, rc < 0), nf)); mc_obs(mc_mix(op, e));
}
static void one(void) { nfill = 0; int op = mc_pick(NOPS, "op"); one_(op, (int[]){0, 245, 246, 247, 248, 249, 250}[mc_pick(7, "open handles")], 0); }

/* ---- limits instead of faults: no descriptors left ---- */
static void limit(void) {
    nfill = 0; vk.faults = 0;
    static struct st a; memset(&a, 0, sizeof a);
    int op = mc_pick(NOPS, "op"), k = mc_pick(4, "free descriptors");
    ran = 0; warm(); world();
    a.op = op; prepare(&a);
    int max = 0, used = 0; for(int i = 3; i < VK_NFD; ++i) if(vk_is_open(i)) { max = i; ++used; }
    int plug[64], np = 0;
    for(int i = 3; i <= max; ++i) if(!vk_is_open(i)) plug[np++] = vk_probe();
    vk.maxfds = max + 1 + k;
    int h0 = handles(), f0 = vk_open_fds(), was = a.consumed;
    DL = -1; (void)was;
    int rc = perform(&a), e = errno;
    mc_log("%s = %d %s", opname[op], rc, rc < 0 ? strerror(e) : "");
    if(rc < 0) {
        MC_CHECK(e == EMFILE || e == ENFILE, "errno", "%s with no free descriptor: %s", opname[op], strerror(e));
        int lost = 0;
        if(a.consumed) { errno = 0; if(hquery(a.aux[0], &tX) || errno != EBADF) a.consumed = 0; else lost = depth(op); }
        MC_CHECK(handles() == h0 - lost, "handle-left", "%s failed and %d handles are left", opname[op], handles() - h0 + lost);
        MC_CHECK(vk_open_fds() <= f0, "fd-left", "%s failed and %d descriptors are left", opname[op], vk_open_fds() - f0);
    }
    vk.maxfds = 0;
    if(rc >= 0) use(&a);
    for(int i = 0; i < np; ++i) vk_close_raw(plug[i]);
    world_ok(); finish(&a); world_end();
    mc_obs(mc_mix(op, e)); mc_state(mc_mix(op, rc < 0));
}

/* ---- sequences of operations with failures anywhere ---- */
static void seq(void) {
    static struct st s[4]; memset(s, 0, sizeof s);
    static const int ops[] = {GO, CHMAKE, TCP_LISTEN, IPC_PAIR, UDP_OPEN, PREFIX, BUNDLE, IPC_CONNECT, TCP_ACCEPT, FDIN};
    nfill = 0; ran = 0; vk.faults = 1; vk_faults_on(0);
    warm(); world(); DL = -1;
    int n = mc_thorough ? 4 : 3, op[4];
    int used5555 = 0;
    for(int i = 0; i < n; ++i) {
        op[i] = ops[mc_pick(10, "op")];
        int u = op[i] == TCP_LISTEN || op[i] == TCP_ACCEPT;
        int v = op[i] == IPC_CONNECT;
        for(int j = 0; j < i; ++j) if(op[j] == op[i] && (u || v || op[i] == UDP_OPEN)) used5555 = 1;
        if(u) for(int j = 0; j < i; ++j) if(op[j] == TCP_LISTEN || op[j] == TCP_ACCEPT) used5555 = 1;
    }
    if(used5555) { mc_trivial(); world_end(); return; }
    int total = 0, failed = 0;
    for(int i = 0; i < n; ++i) {
        s[i].op = op[i]; prepare(&s[i]);
        int h0 = handles(), f0 = vk_open_fds(), n0 = vk_fault_count;
        vk_faults_on(1);
        int rc = perform(&s[i]), e = errno;
        vk_faults_on(0);
        mc_log("%s = %d %s", opname[op[i]], rc, rc < 0 ? strerror(e) : "");
        mc_step();
        if(rc < 0) {
            ++failed;
            MC_CHECK(vk_fault_count > n0, "failed", "%s failed without a reason: %s", opname[op[i]], strerror(e));
            MC_CHECK(errno_ok(e), "errno", "%s: %s", opname[op[i]], strerror(e));
            int lost = 0;
            if(s[i].consumed) { errno = 0; if(hquery(s[i].aux[0], &tX) || errno != EBADF) s[i].consumed = 0; else lost = depth(op[i]); }
            MC_CHECK(handles() == h0 - lost, "handle-left", "%s failed and %d handles are left", opname[op[i]], handles() - h0 + lost);
            MC_CHECK(vk_open_fds() <= f0, "fd-left", "%s failed and %d descriptors are left", opname[op[i]], vk_open_fds() - f0);
        } else use(&s[i]);
        total += rc >= 0;
    }
    world_ok();
    int order = mc_pick(2, "closing order");
    for(int i = 0; i < n; ++i) finish(&s[order ? n - 1 - i : i]);
    world_end();
    mc_obs(mc_mix(total, failed)); mc_state(mc_mix(op[0] * 64 + op[1], failed));
}

/* ---- many coroutines: the stack cache overflows and memory fails ---- */
static void stacks(void) {
    vk.faults = 1; vk_faults_on(0); nfill = 0; ran = 0;
    warm();
    int n = (int[]){1, 3, 64, 66}[mc_pick(4, "coroutines")], h[80];
    for(int i = 0; i < n; ++i) { h[i] = go(waits()); MC_CHECK(h[i] >= 0, "setup", "go: %s", strerror(errno)); }
    int rev = mc_pick(2, "closing order"), k = mc_pick(2, "all") ? n : n / 2;
    for(int i = 0; i < k; ++i) MC_CHECK(hclose(h[rev ? n - 1 - i : i]) == 0, "close", "hclose");
    vk_faults_on(1);
    int g[80], ng = n > 8 ? n + 1 : 5, failed = 0;
    for(int i = 0; i < ng; ++i) {
        int r0 = ran; g[i] = go(waits());
        if(g[i] < 0) { ++failed; MC_CHECK(errno == ENOMEM && vk_fault_count > 0 && ran == r0, "go", "go: %s", strerror(errno)); }
        else MC_CHECK(ran == r0 + 1, "go", "the coroutine does not run");
        if(i > 4 && mc_budget() == 0) { ng = i + 1; break; }
    }
    vk_faults_on(0);
    for(int i = 0; i < ng; ++i) if(g[i] >= 0) MC_CHECK(hclose(g[i]) == 0, "close", "hclose");
    for(int i = k; i < n; ++i) MC_CHECK(hclose(h[rev ? n - 1 - i : i]) == 0, "close", "hclose");
    mc_obs(failed);
}
/* ---- whole conversations with failures anywhere ---- */
static int kind, cl_ok, sv_ok, cl_at, sv_at;
static void talk_close(int s) { if(s >= 0) { int rc = hclose(s); MC_CHECK(rc == 0, "close", "hclose after a failure: %s", strerror(errno)); } }
/* The upper socket of a stack on s; -1 if it failed (s is closed or not). */
static char wres[64], wsub[64];
static int up(int s, int server, int64_t dl) {
    int t = -1;
    switch(kind) {
    case 0: return s;
    case 1: t = prefix_attach(s, 2, PREFIX_BIG_ENDIAN); break;
    case 2: t = suffix_attach(s, "\r\n", 2); break;
    case 3: t = prefix_attach(s, 1, 0); if(t >= 0) { int u = term_attach(t, "E", 1); if(u < 0) { errno = 0; if(hquery(t, &tX) || errno != EBADF) talk_close(t); return -1; } t = u; } break;
    case 4: t = http_attach(s); break;
    case 5: t = server ? ws_attach_server(s, WS_BINARY, wres, sizeof wres, wsub, sizeof wsub, dl) : ws_attach_client(s, WS_BINARY, "/r", "h", dl); break;
    case 6: case 7:
        if(server) { struct ipaddr a; t = socks5_proxy_auth(s, NULL, dl); 
            if(t == 0 && kind == 6) t = socks5_proxy_recvcommand(s, &a, dl);
            if(t >= 0 && kind == 7) { char nm[256]; int port; t = socks5_proxy_recvcommandbyname(s, nm, &port, dl); if(t >= 0) MC_CHECK(!strcmp(nm, "libdill.org") && port == 80, "talk-data", "the proxy got %s:%d", nm, port); }
            if(t >= 0) { ipaddr_local(&a, "127.0.0.1", 80, 0); t = socks5_proxy_sendreply(s, 0, &a, dl); }
        } else { struct ipaddr a; ipaddr_remote(&a, "127.0.0.1", 80, IPADDR_IPV4, -1);
            t = kind == 6 ? socks5_client_connect(s, NULL, NULL, &a, dl) : socks5_client_connectbyname(s, NULL, NULL, "libdill.org", 80, dl); }
        if(t < 0) { talk_close(s); return -1; }
        return s;
    }
    if(t < 0) { errno = 0; if(hquery(s, &tX) || errno != EBADF) talk_close(s); }
    return t;
}
static int exchange(int u, int server, int64_t dl) {
    char b[64]; ssize_t n;
    if(kind == 0 || kind >= 6) {
        if(server) { if(brecv(u, b, 5, dl)) return -1; MC_CHECK(!memcmp(b, "hello", 5), "talk-data", "wrong bytes"); return bsend(u, "bye", 3, dl); }
        if(bsend(u, "hello", 5, dl)) return -1; if(brecv(u, b, 3, dl)) return -1; MC_CHECK(!memcmp(b, "bye", 3), "talk-data", "wrong bytes"); return 0;
    }
    if(kind == 4) {
        char nm[32], v[32];
        if(server) {
            if(http_recvrequest(u, nm, sizeof nm, v, sizeof v, dl)) return -1;
            MC_CHECK(!strcmp(nm, "GET") && !strcmp(v, "/x"), "talk-data", "wrong request");
            if(http_recvfield(u, nm, sizeof nm, v, sizeof v, dl)) return -1;
            MC_CHECK(!strcmp(nm, "A") && !strcmp(v, "b"), "talk-data", "wrong field");
            if(http_recvfield(u, nm, sizeof nm, v, sizeof v, dl) == 0 || errno != EPIPE) return -1;
            if(http_sendstatus(u, 200, "OK", dl)) return -1;
            return http_done(u, dl);
        }
        if(http_sendrequest(u, "GET", "/x", dl) || http_sendfield(u, "A", "b", dl) || http_done(u, dl)) return -1;
        int st = http_recvstatus(u, v, sizeof v, dl);
        if(st < 0) return -1;
        MC_CHECK(st == 200 && !strcmp(v, "OK"), "talk-data", "wrong status");
        return 0;
    }
    if(server) { n = mrecv(u, b, sizeof b, dl); if(n < 0) return -1; MC_CHECK(n == 5 && !memcmp(b, "hello", 5), "talk-data", "wrong message"); return msend(u, "bye", 3, dl); }
    if(msend(u, "hello", 5, dl)) return -1;
    n = mrecv(u, b, sizeof b, dl); if(n < 0) return -1; MC_CHECK(n == 3 && !memcmp(b, "bye", 3), "talk-data", "wrong message"); return 0;
}
static int detach(int u, int64_t dl) {
    switch(kind) {
    case 1: return prefix_detach(u);
    case 2: return suffix_detach(u, dl);
    case 3: { int t = term_detach(u, dl); if(t < 0) return -1; return prefix_detach(t); }
    case 4: return http_detach(u, dl);
    case 5: return ws_detach(u, 1000, NULL, 0, dl);
    }
    return u;
}
static int ipc_;
static void side(int s, int server, int64_t dl, int *ok) {
    int u = up(s, server, dl);
    if(u < 0) return;
    if(exchange(u, server, dl)) { talk_close(u); return; }
    int t = detach(u, dl);
    if(t < 0) { errno = 0; if(hquery(u, &tX) || errno != EBADF) MC_CHECK(0, "detach", "a failed detach left the handle open"); return; }
    int rc = ipc_ ? ipc_close(t, dl) : tcp_close(t, dl);
    errno = 0; MC_CHECK(!hquery(t, &tX) && errno == EBADF, "close", "the handle is still open after close");
    if(rc == 0) *ok = 1;
}
static coroutine void client(int64_t dl) {
    struct ipaddr a; ipaddr_remote(&a, "127.0.0.1", 5555, IPADDR_IPV4, -1);
    int s = ipc_ ? ipc_connect("/x/t", dl) : tcp_connect(&a, dl);
    if(s >= 0) side(s, 0, dl, &cl_ok);
    cl_at = 1;
}
static coroutine void server(int l, int64_t dl) {
    int s = ipc_ ? ipc_accept(l, dl) : tcp_accept(l, NULL, dl);
    if(s >= 0) side(s, 1, dl, &sv_ok);
    sv_at = 1;
}
static void talk(void) {
    vk.faults = 1; vk_faults_on(0); ran = 0; nfill = 0; vk_random_seed = 1;
    kind = mc_pick(8, "protocol"); ipc_ = mc_pick(2, "ipc");
    int err = mc_pick(2, "broken connections"), mem = mc_arg;
    warm(); world();
    int h0 = handles(), f0 = vk_open_fds();
    struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 5555, IPADDR_IPV4);
    int l = ipc_ ? ipc_listen("/x/t", 10) : tcp_listen(&a, 10);
    MC_CHECK(l >= 0, "setup", "listen: %s", strerror(errno));
    if(!err) vk_faults_on(1); else vk.rw_err = 1;
    if(mem) vk.faults = 2;
    cl_ok = sv_ok = cl_at = sv_at = 0;
    int64_t dl = now() + 100;
    int b = bundle(), r1 = -1, r2 = -1;
    if(b >= 0) { r1 = bundle_go(b, server(l, dl)); r2 = bundle_go(b, client(dl)); }
    MC_CHECK((b >= 0 && r1 == 0 && r2 == 0) || vk_fault_count > 0, "go", "go failed without a reason");
    int stop = mc_choose(2, "cancelled"), cancelled = 0;
    if(b >= 0 && !stop) MC_CHECK(bundle_wait(b, now() + 150) == 0, "stuck", "the conversation goes on after its deadline (client %d, server %d)", cl_at, sv_at);
    if(b >= 0 && stop) { for(int i = mc_pick(4, "when"); i > 0; --i) yield(); cancelled = 1; }
    if(b >= 0) MC_CHECK(hclose(b) == 0, "close", "hclose");
    vk_faults_on(0); vk.rw_err = 0;
    mc_log("client %d server %d faults %d", cl_ok, sv_ok, vk_fault_count);
    if(r1 == 0) MC_CHECK(sv_at, "stuck", "the server never ended");
    if(r2 == 0) MC_CHECK(cl_at, "stuck", "the client never ended");
    MC_CHECK(hclose(l) == 0, "close", "hclose of the listener");
    if(!err && !cancelled && vk_fault_count == 0) MC_CHECK(cl_ok && sv_ok, "talk", "the conversation failed without a reason (%d %d)", cl_ok, sv_ok);
    MC_CHECK(handles() == h0, "handle-left", "%d handles are left", handles() - h0);
    MC_CHECK(vk_open_fds() == f0, "fd-left", "%d descriptors are left", vk_open_fds() - f0);
    world_ok(); world_end();
    mc_obs(cl_ok * 2 + sv_ok); mc_state(mc_mix(kind, cl_ok * 2 + sv_ok)); mc_step();
}
struct mc_scn mc_scns[] = {
    {"one", "each of 57 operations with every failure in it, with a full and an empty handle table; unrelated objects keep working; repeated afterwards", one, 5, 7},
    {"limit", "each operation with 0-3 free descriptors", limit, 0, 0},
    {"seq", "sequences of operations with failures anywhere", seq, 2, 3},
    {"stacks", "coroutines with the stack cache in every fill state", stacks, 2, 3},
    {"talk", "a whole client and server conversation of 8 protocols over tcp and ipc, every failing call, broken connection and cancellation", talk, 2, 3},
    {NULL}};
