/* C35: listeners, connections and wrapped descriptors. */
#include <poll.h>
#include <fcntl.h>
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "iolgen.h"
#include <unistd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "conn.h"

const char *mc_property = "C35";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, up to 3 listeners with a backlog of 2, one coroutine blocked in accept",
    "system calls, clock and heap are those of the virtual kernel; it may transfer less than asked, answer EAGAIN, let a waiting client go or be taken by another process, complete connect at once or later",
    "a UNIX path is not listened on again after its listener was closed (the file stays, as documented for AF_LOCAL)",
    "a listener is not closed while a coroutine is blocked in accept", NULL};

/* ---- history ---- */
#define NS 3
#define NC 12
static const char *const path[NS] = {"/a", "/bb", NULL};
static struct { int h, used; struct ipaddr a; int q[4], nq; union { struct tcp_listener_storage t; struct ipc_listener_storage i; } mem; } sl[NS];
static struct { struct vstream *raw; int h, acc, slot; struct sockaddr_storage from; } cn[NC]; static int nc;
static struct { int h, slot, rc, err, done; struct ipaddr a; } pk;
static union { struct tcp_storage t; struct ipc_storage i; } smem[NC]; static int nmem;
static int lib_accept(int s, struct ipaddr *a, int mem, int64_t dl) {
    if(ipc) return mem ? ipc_accept_mem(s, &smem[nmem++].i, dl) : ipc_accept(s, dl);
    return mem ? tcp_accept_mem(s, a, &smem[nmem++].t, dl) : tcp_accept(s, a, dl);
}
static coroutine void parked(void) { errno = 0; int rc = lib_accept(sl[pk.slot].h, &pk.a, 0, -1); pk.err = errno; pk.rc = rc; pk.done = 1; }
static void same_addr(struct ipaddr *a, const struct sockaddr *sa, const char *what) {
    MC_CHECK(ipaddr_family(a) == sa->sa_family, "address", "%s: family %d instead of %d", what, ipaddr_family(a), sa->sa_family);
    if(sa->sa_family == AF_INET) { struct sockaddr_in *x = (void*)sa, *y = (void*)ipaddr_sockaddr(a); MC_CHECK(x->sin_port == y->sin_port && x->sin_addr.s_addr == y->sin_addr.s_addr, "address", "%s: wrong IPv4 address or port", what); }
    else { struct sockaddr_in6 *x = (void*)sa, *y = (void*)ipaddr_sockaddr(a); MC_CHECK(x->sin6_port == y->sin6_port && !memcmp(&x->sin6_addr, &y->sin6_addr, 16), "address", "%s: wrong IPv6 address or port", what); }
}
/* Both ends of connection c talk to each other. */
static void talk(int c) {
    uint8_t b[4], t[2] = {(uint8_t)(0x40 + c), (uint8_t)(0x80 + c)};
    int s = cn[c].acc;
    MC_CHECK(brecv(s, b, 2, 0) == 0 && !memcmp(b, t, 2), "wrong-peer", "connection %d accepted on listener %d does not carry its client's bytes", c, cn[c].slot);
    MC_CHECK(bsend(s, &t[1], 1, 0) == 0, "dead-connection", "bsend on an accepted connection: %s", strerror(errno));
    if(cn[c].raw) MC_CHECK(vs_read(cn[c].raw, b, 4) == 1 && b[0] == t[1], "wrong-peer", "client %d does not see what was sent on its connection", c);
    else MC_CHECK(brecv(cn[c].h, b, 1, 0) == 0 && b[0] == t[1], "wrong-peer", "client %d does not see what was sent on its connection: %s", c, strerror(errno));
}
static void accepted(int i, int h, struct ipaddr *a) {
    MC_CHECK(sl[i].nq > 0, "phantom", "accept gave %d though nobody connects", h);
    int c = sl[i].q[0]; memmove(sl[i].q, sl[i].q + 1, sizeof(int) * --sl[i].nq);
    cn[c].acc = h; talk(c);
    if(!ipc && a && cn[c].from.ss_family) same_addr(a, (void*)&cn[c].from, "peer of the accepted connection");
}
static void settle(void) {
    if(pk.h < 0) return;
    msleep(now());
    if(!pk.done) { MC_CHECK(sl[pk.slot].nq == 0, "not-woken", "a connection is waiting and the coroutine in accept is not woken"); return; }
    MC_CHECK(pk.rc >= 0, "result", "accept: %s", strerror(pk.err));
    accepted(pk.slot, pk.rc, &pk.a); hclose(pk.h); pk.h = -1;
}
static void unpark(void) {
    int h = pk.h; pk.h = -1; hclose(h);
    MC_CHECK(pk.done && pk.rc == -1 && pk.err == ECANCELED, "cancel", "cancelled accept: %d (%s)", pk.rc, strerror(pk.err));
}
static void shut(int i, int how) {
    if(pk.h >= 0 && pk.slot == i) unpark();
    if(how) MC_CHECK(close_(sl[i].h, -1) == 0, "close", "close of a listener: %s", strerror(errno));
    else MC_CHECK(hclose(sl[i].h) == 0, "close", "hclose of a listener: %s", strerror(errno));
    dead(sl[i].h); sl[i].h = -1;
    for(int k = 0; k < sl[i].nq; ++k) { int c = sl[i].q[k]; if(cn[c].raw) MC_CHECK(vs_closed(cn[c].raw), "queued-client", "client %d still hangs after the listener was closed", c); else { char b; MC_CHECK(brecv(cn[c].h, &b, 1, 0) == -1 && (errno == ECONNRESET || errno == EPIPE), "queued-client", "client %d: %s", c, strerror(errno)); hclose(cn[c].h); cn[c].h = -1; } cn[c].raw = NULL; }
    sl[i].nq = 0;
}
static int nfree(int fd0) { int n = 0; for(int c = 0; c < nc; ++c) n += (cn[c].acc >= 0) + (cn[c].h >= 0); for(int i = 0; i < NS; ++i) n += sl[i].h >= 0; return vk_open_fds() - fd0 - n; }
static void history(void) {
    int depth = mc_arg; memset(sl, 0, sizeof sl); memset(cn, 0, sizeof cn); nc = 0; pk.h = -1; nmem = 0;
    begin();
    int mem = mc_pick(2, "mem"), slots = ipc ? 2 : 3, fd0;
    for(int i = 0; i < NS; ++i) sl[i].h = -1;
    { int p = vk_probe(); fdin(p, 0); fdclean(p); vk_close_raw(p); }
    fd0 = vk_open_fds();
    for(int d = 0; d < depth; ++d) {
        int op = d == 0 ? 0 : mc_pick(7, "op"), i = op == 6 ? 0 : mc_pick(slots, "listener"), rc; struct ipaddr a;
        mc_step(); errno = 0;
        int was = sl[i].h;
        switch(op) {
        case 0: { /* listen */
            if(ipc && sl[i].used && was < 0) { mc_trivial(); goto end; }
            if(i == 2 && was >= 0) { mc_trivial(); goto end; }
            struct ipaddr b; MC_CHECK(ipaddr_local(&a, i == 1 ? "::1" : "127.0.0.1", i == 2 ? 0 : 5555, 0) == 0, "setup", "ipaddr_local: %s", strerror(errno)); b = a;
            if(was < 0) { rc = ipc ? (mem ? ipc_listen_mem(path[i], 2, &sl[i].mem.i) : ipc_listen(path[i], 2)) : mem ? tcp_listen_mem(&a, 2, &sl[i].mem.t) : tcp_listen(&a, 2); }
            else rc = ipc ? ipc_listen(path[i], 2) : tcp_listen(&a, 2);
            if(was >= 0) MC_CHECK(rc == -1 && errno == EADDRINUSE, "in-use", "second listener for an address: %d (%s)", rc, strerror(errno));
            else {
                MC_CHECK(rc >= 0, "listen", "listen: %s", strerror(errno)); sl[i].h = rc; sl[i].a = a; sl[i].used = 1;
                if(i == 2) { MC_CHECK(ipaddr_port(&a) > 0 && ipaddr_port(&a) != 5555, "ephemeral", "port %d was assigned", ipaddr_port(&a)); ipaddr_setport(&b, ipaddr_port(&a)); }
            }
            if(!ipc) MC_CHECK(ipaddr_equal(&a, &b, 0), "address", "listen has changed the address it was given");
            break; }
        case 1: { /* a remote client */
            struct sockaddr_storage *f = &cn[nc].from; memset(f, 0, sizeof *f);
            if(ipc) f->ss_family = AF_UNIX;
            else if(i == 1) { struct sockaddr_in6 *x = (void*)f; x->sin6_family = AF_INET6; x->sin6_port = htons(40001 + 257 * nc); inet_pton(AF_INET6, "2001:db8:1:2:3:4:5:60", &x->sin6_addr); x->sin6_addr.s6_addr[15] += nc; }
            else { struct sockaddr_in *x = (void*)f; x->sin_family = AF_INET; x->sin_port = htons(40001 + 257 * nc); x->sin_addr.s_addr = htonl(0x0a010200 + nc); }
            struct vstream *r = was < 0 ? NULL : vk_remote_client_from(ipc ? NULL : ipaddr_sockaddr(&sl[i].a), ipc ? path[i] : NULL, (void*)f);
            if(was < 0 && !ipc && sl[i].used) r = vk_remote_client_from(ipaddr_sockaddr(&sl[i].a), NULL, (void*)f);
            int ok = was >= 0 && sl[i].nq < 2;
            MC_CHECK(!!r == ok, "backlog", "a client of listener %d with %d waiting is %s", i, sl[i].nq, r ? "let in" : "refused");
            if(r) { uint8_t t[2] = {(uint8_t)(0x40 + nc), (uint8_t)(0x80 + nc)}; vs_write(r, t, 2); cn[nc].raw = r; cn[nc].h = cn[nc].acc = -1; cn[nc].slot = i; sl[i].q[sl[i].nq++] = nc++; }
            break; }
        case 2: { /* a client of this library */
            if(!sl[i].used) { MC_CHECK(ipaddr_local(&sl[i].a, i == 1 ? "::1" : "127.0.0.1", 5555, 0) == 0, "setup", "ipaddr_local"); if(i == 2) ipaddr_setport(&sl[i].a, 7); }
            a = sl[i].a;
            rc = ipc ? (mem ? ipc_connect_mem(path[i], &smem[nmem++].i, 0) : ipc_connect(path[i], 0)) : mem ? tcp_connect_mem(&a, &smem[nmem++].t, 0) : tcp_connect(&a, 0);
            int ok = was >= 0 && sl[i].nq < 2;
            if(!ok) { MC_CHECK(rc == -1 && (ipc || errno == ECONNREFUSED), "refused", "connect where nobody listens: %d (%s)", rc, strerror(errno)); break; }
            MC_CHECK(rc >= 0, "connect", "connect: %s", strerror(errno));
            if(!ipc) MC_CHECK(ipaddr_equal(&a, &sl[i].a, 0), "address", "connect has changed the address it was given");
            uint8_t t[2] = {(uint8_t)(0x40 + nc), (uint8_t)(0x80 + nc)}; MC_CHECK(bsend(rc, t, 2, 0) == 0, "dead-connection", "bsend on a fresh connection: %s", strerror(errno));
            cn[nc].h = rc; cn[nc].acc = -1; cn[nc].raw = NULL; cn[nc].slot = i; memset(&cn[nc].from, 0, sizeof cn[nc].from); sl[i].q[sl[i].nq++] = nc++;
            break; }
        case 3: { /* accept */
            int want = (d + i) % 2; memset(&a, 0xee, sizeof a);
            rc = lib_accept(was < 0 ? 1000 : was, want ? &a : NULL, mem, 0);
            if(was < 0) { MC_CHECK(rc == -1 && errno == EBADF, "result", "accept on nothing: %d (%s)", rc, strerror(errno)); break; }
            if(rc < 0) { MC_CHECK(errno == ETIMEDOUT || (pk.h >= 0 && pk.slot == i && (errno == EEXIST || errno == EBUSY)), "result", "accept: %s", strerror(errno)); MC_CHECK(!sl[i].nq, "lost-client", "accept fails though client %d waits", sl[i].q[0]); break; }
            accepted(i, rc, want ? &a : NULL);
            break; }
        case 4: /* a coroutine that waits for a client */
            if(was < 0 || pk.h >= 0) { mc_trivial(); goto end; }
            pk.slot = i; pk.done = 0; pk.rc = -2; memset(&pk.a, 0xee, sizeof pk.a); pk.h = go(parked()); MC_CHECK(pk.h >= 0, "setup", "go: %s", strerror(errno));
            break;
        case 5: if(was < 0) { mc_trivial(); goto end; } shut(i, mc_pick(2, "hclose")); break;
        case 6: if(pk.h < 0) { mc_trivial(); goto end; } unpark(); break;
        }
        settle();
        MC_CHECK(nfree(fd0) == 0, "fd-left", "%d descriptors more than open sockets", nfree(fd0));
        mc_state(mc_mix(mc_mix(mc_mix(op, i), nc), mc_mix(sl[0].nq * 9 + sl[1].nq * 3 + sl[2].nq, (sl[0].h >= 0) + 2 * (sl[1].h >= 0) + 4 * (sl[2].h >= 0) + 8 * (pk.h >= 0))));
    }
end:
    if(pk.h >= 0) unpark();
    for(int i = 0; i < NS; ++i) if(sl[i].h >= 0) shut(i, i & 1);
    /* Connections outlive their listener. */
    for(int c = 0; c < nc; ++c) if(cn[c].acc >= 0) {
        uint8_t b[2]; MC_CHECK(bsend(cn[c].acc, "zz", 2, 0) == 0, "dead-connection", "bsend after the listener was closed: %s", strerror(errno));
        if(cn[c].raw) { MC_CHECK(vs_read(cn[c].raw, b, 2) == 2, "dead-connection", "bytes"); vs_shut(cn[c].raw); MC_CHECK(close_(cn[c].acc, 0) == 0, "close", "close: %s", strerror(errno)); MC_CHECK(vs_closed(cn[c].raw), "fd-left", "open"); }
        else { MC_CHECK(brecv(cn[c].h, b, 2, 0) == 0 && !memcmp(b, "zz", 2), "dead-connection", "brecv: %s", strerror(errno));
            MC_CHECK(done_(cn[c].h, 0) == 0 && close_(cn[c].acc, 0) == 0 && close_(cn[c].h, 0) == 0, "close", "close of both ends: %s", strerror(errno)); }
        cn[c].acc = cn[c].h = -1;
    }
    MC_CHECK(nfree(fd0) == 0, "fd-left", "%d descriptors left", nfree(fd0));
    mc_obs(nc);
}

/* ---- descriptors are wrapped in whatever state they are ---- */
static void wrap(void) {
    begin();
    int st = mc_pick(6, "state"), mem = mc_pick(2, "mem"), sz = st == 1 ? 5 : 0; uint8_t b[8]; static union { struct tcp_storage t; struct ipc_storage i; } m;
    memset(&m, 0xee, sizeof m);
    int fd = vk_stream_fd(ipc ? AF_UNIX : mc_pick(2, "IPv6") ? AF_INET6 : AF_INET, &rem), fds = vk_open_fds();
    if(st == 1) vs_write(rem, pat, 5);
    if(st == 2) { vs_write(rem, pat, 5); vs_shut(rem); sz = 5; }
    if(st == 3) vs_shut(rem);
    if(st == 4) vs_rst(rem);
    if(st == 5) { extern int vk_fcntl(int, int, ...); vk_fcntl(fd, F_SETFL, O_NONBLOCK); }
    errno = 0;
    int s = ipc ? (mem ? ipc_fromfd_mem(fd, &m.i) : ipc_fromfd(fd)) : mem ? tcp_fromfd_mem(fd, &m.t) : tcp_fromfd(fd);
    MC_CHECK(s >= 0, "fromfd", "fromfd: %s", strerror(errno));
    MC_CHECK(vk_open_fds() == fds, "own", "%d descriptors instead of %d", vk_open_fds(), fds);
    if(sz) MC_CHECK(brecv(s, b, sz, 0) == 0 && !memcmp(b, pat, sz), "data", "what was received before: %s", strerror(errno));
    int rc = brecv(s, b, 1, 0);
    int exp = st == 2 || st == 3 ? EPIPE : st == 4 ? ECONNRESET : ETIMEDOUT;
    MC_CHECK(rc == -1 && errno == exp, "state", "brecv: %d (%s) instead of %s", rc, strerror(errno), strerror(exp));
    if(st != 4) { MC_CHECK(bsend(s, pat, 3, 0) == 0 && vs_read(rem, b, 8) == 3 && !memcmp(b, pat, 3), "data", "bsend: %s", strerror(errno)); }
    MC_CHECK(hclose(s) == 0 && vs_closed(rem), "close", "close");
    mc_obs(st);
}

/* Descriptors of other kinds are refused and left as they are. */
static void refuse(void) {
    extern int vk_socket(int, int, int); extern int vk_bind(int, const struct sockaddr*, socklen_t); extern int vk_listen(int, int);
    begin();
    int lis = mc_pick(2, "as listener"), mem = mc_pick(2, "mem"), k = mc_pick(9, "what"), fam = 0, fd = -1, exp = EINVAL; struct vstream *r;
    static union { struct tcp_storage t; struct ipc_storage i; struct tcp_listener_storage tl; struct ipc_listener_storage il; } m;
    static const int fams[3] = {AF_INET, AF_INET6, AF_UNIX};
    if(k < 6 && lis == k / 3 && (k % 3 == 2) == ipc) { mc_trivial(); return; }
    if(k < 3) { fam = fams[k]; fd = vk_stream_fd(fam, &r); }        /* a connection */
    else if(k < 6) { fam = fams[k - 3]; fd = vk_socket(fam, SOCK_STREAM, 0); struct sockaddr_storage ss = {.ss_family = fam};         /* a listener */
        if(fam == AF_UNIX) strcpy(((char*)&ss) + sizeof(sa_family_t), "/w");
        MC_CHECK(vk_bind(fd, (void*)&ss, fam == AF_UNIX ? 110 : fam == AF_INET ? 16 : 28) == 0 && vk_listen(fd, 3) == 0, "setup", "bind: %s", strerror(errno)); }
    else if(k == 6) fd = vk_socket(AF_INET, SOCK_DGRAM, 0);
    else if(k == 7) { fd = vk_probe(); exp = ENOTSOCK; }
    else { fd = vk_probe(); vk_close_raw(fd); exp = EBADF; }
    int nb = k == 8 ? 0 : vk_nonblock(fd), fds = vk_open_fds();
    errno = 0;
    int s = lis ? ipc ? (mem ? ipc_listener_fromfd_mem(fd, &m.il) : ipc_listener_fromfd(fd)) : mem ? tcp_listener_fromfd_mem(fd, &m.tl) : tcp_listener_fromfd(fd)
                : ipc ? (mem ? ipc_fromfd_mem(fd, &m.i) : ipc_fromfd(fd)) : mem ? tcp_fromfd_mem(fd, &m.t) : tcp_fromfd(fd);
    MC_CHECK(s == -1 && errno == exp, "refuse", "%s_%sfromfd of descriptor of kind %d: %d (%s) instead of %s", ipc ? "ipc" : "tcp", lis ? "listener_" : "", k, s, strerror(errno), strerror(exp));
    MC_CHECK(vk_open_fds() == fds, "refuse", "a refused descriptor was closed");
    if(k != 8) { MC_CHECK(vk_is_open(fd) && vk_nonblock(fd) == nb, "refuse", "a refused descriptor was changed"); vk_close_raw(fd); }
    mc_obs(k);
}

struct mc_scn mc_scns[] = {
    {"history-5", "every sequence of 5 of listen, remote connect, own connect, accept, blocked accept, cancellation and close on 3 TCP or 2 IPC addresses", history, 0, 0, 5},
    {"history-6", "the same of 6", history, -1, 0, 6},
    {"connect", "connect against every remote behaviour, deadline and cancellation", connect_, 2, 4},
    {"accept", "up to 3 accepts, up to 3 clients, every timing, deadline and cancellation, aborted clients", accept_, 1, 2},
    {"args", "arguments of the wrong kind", args, 0, 0},
    {"fromfd", "wrapping of existing descriptors", fromfd, 0, 0},
    {"wrap", "wrapping of connections with data, end of stream, reset", wrap, 0, 0},
    {"refuse", "descriptors of every other kind are refused and left alone", refuse, 0, 0},
    {0}};
