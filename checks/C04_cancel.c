/* C04: cancellation of coroutines by hclose. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include <poll.h>
#include <unistd.h>
#include <arpa/inet.h>

const char *mc_property = "C04";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, up to 6 coroutines, nesting to depth 4",
    "system calls, clock and heap are those of the virtual kernel", NULL};

enum {MSLEEP, CHSEND_, CHRECV_, CHOOSE_, FDIN, FDOUT, BWAIT, YIELD, CORE,
    BRECV = CORE, BSEND, IPCACC, RECVFD, TCPACC, TCPCONN, UDPRECV, BRECVBIG, NK};
static const char *kn[] = {"msleep", "chsend", "chrecv", "choose", "fdin", "fdout", "bundle_wait", "yield",
    "brecv", "bsend", "ipc_accept", "ipc_recvfd", "tcp_accept", "tcp_connect", "udp_recv", "brecv of much"};
/* Resources of one blocking call. */
struct res { int kind, ch[2], fd, b, s[2], h2; struct ipaddr a; uint8_t peerbuf[8]; volatile int peerdone; int peerrc; int inner; uint8_t buf[8192]; };

static coroutine void forever(int64_t dl) { msleep(dl); }
static int remote(const struct sockaddr *sa, int64_t *d, struct vstream *r) { return VK_BLACKHOLE; }

static void res_open(struct res *r, int kind) {
    memset(r, 0, sizeof(*r));
    r->kind = kind; r->ch[0] = r->fd = r->b = r->s[0] = r->s[1] = r->h2 = r->inner = -1;
    switch(kind) {
    case CHSEND_: case CHRECV_: case CHOOSE_: MC_CHECK(chmake(r->ch) == 0, "setup", "chmake"); break;
    case FDIN: case FDOUT: r->fd = vk_probe(); break;
    case BWAIT: r->b = bundle(); MC_CHECK(bundle_go(r->b, forever(-1)) == 0, "setup", "bundle_go"); break;
    case BRECV: case BSEND: case RECVFD: case BRECVBIG: MC_CHECK(ipc_pair(r->s) == 0, "setup", "ipc_pair: %s", strerror(errno)); break;
    case IPCACC: r->s[0] = ipc_listen("/x/sock", 10); MC_CHECK(r->s[0] >= 0, "setup", "ipc_listen: %s", strerror(errno)); break;
    case TCPACC: MC_CHECK(ipaddr_local(&r->a, NULL, 7000, IPADDR_IPV4) == 0, "setup", "ipaddr_local"); r->s[0] = tcp_listen(&r->a, 10); MC_CHECK(r->s[0] >= 0, "setup", "tcp_listen: %s", strerror(errno)); break;
    case TCPCONN: MC_CHECK(ipaddr_remote(&r->a, "10.1.2.3", 99, IPADDR_IPV4, -1) == 0, "setup", "ipaddr_remote"); vk_remote_connect = remote; break;
    case UDPRECV: MC_CHECK(ipaddr_local(&r->a, NULL, 7001, IPADDR_IPV4) == 0, "setup", "ipaddr_local"); r->s[0] = udp_open(&r->a, NULL); MC_CHECK(r->s[0] >= 0, "setup", "udp_open: %s", strerror(errno)); break;
    }
}
static void res_close(struct res *r) {
    if(r->h2 >= 0) hclose(r->h2);
    if(r->ch[0] >= 0) { hclose(r->ch[0]); hclose(r->ch[1]); }
    if(r->fd >= 0) { fdclean(r->fd); vk_close_raw(r->fd); }
    if(r->b >= 0) hclose(r->b);
    if(r->s[0] >= 0) hclose(r->s[0]);
    if(r->s[1] >= 0) hclose(r->s[1]);
}
static int block(struct res *r, int64_t dl) {
    int rc = -2;
    errno = 0;
    switch(r->kind) {
    case MSLEEP: return msleep(dl);
    case CHSEND_: return chsend(r->ch[0], "abcd", 4, dl);
    case CHRECV_: return chrecv(r->ch[0], r->buf, 4, dl);
    case CHOOSE_: { struct chclause c[2] = {{CHRECV, r->ch[0], r->buf, 4}, {CHSEND, r->ch[0], "abcd", 4}}; rc = choose(c, 2, dl); return rc < 0 ? -1 : errno ? -1 : 0; }
    case FDIN: return fdin(r->fd, dl);
    case FDOUT: return fdout(r->fd, dl);
    case BWAIT: return bundle_wait(r->b, dl);
    case YIELD: return yield();
    case BRECV: return brecv(r->s[0], r->buf, 4, dl);
    case BRECVBIG: return brecv(r->s[0], r->buf, 4000, dl);
    case BSEND: return bsend(r->s[0], r->buf, 8192, dl);
    case IPCACC: rc = ipc_accept(r->s[0], dl); break;
    case RECVFD: rc = ipc_recvfd(r->s[0], dl); if(rc >= 0) { vk_close_raw(rc); return 0; } return -1;
    case TCPACC: rc = tcp_accept(r->s[0], NULL, dl); break;
    case TCPCONN: rc = tcp_connect(&r->a, dl); break;
    case UDPRECV: return udp_recv(r->s[0], NULL, r->buf, 8, dl) < 0 ? -1 : 0;
    }
    if(rc >= 0) { r->inner = rc; return 0; }
    return -1;
}
static coroutine void peer_send(struct res *r) { r->peerrc = chsend(r->ch[1], "wxyz", 4, -1); r->peerdone = 1; }
static coroutine void peer_recv(struct res *r) { r->peerrc = chrecv(r->ch[1], r->peerbuf, 4, -1); r->peerdone = 1; }
/* Makes the peer's side ready in advance: the call could succeed at once. */
static void make_ready(struct res *r) {
    switch(r->kind) {
    case CHSEND_: case CHOOSE_: r->h2 = go(peer_recv(r)); break;
    case CHRECV_: r->h2 = go(peer_send(r)); break;
    case FDIN: vk_probe_set(r->fd, POLLIN); break;
    case FDOUT: vk_probe_set(r->fd, POLLOUT); break;
    }
}
/* Completes the blocked call without giving the coroutine a chance to run. */
static int complete(struct res *r) {
    uint8_t b[4];
    switch(r->kind) {
    case CHSEND_: MC_CHECK(chrecv(r->ch[1], b, 4, 0) == 0 && !memcmp(b, "abcd", 4), "peer", "chrecv"); return 1;
    case CHRECV_: case CHOOSE_: MC_CHECK(chsend(r->ch[1], "wxyz", 4, 0) == 0, "peer", "chsend"); return 1;
    case YIELD: return 1;
    }
    return 0;
}

static struct res R1, R2; static int rc1, err1, rc2, err2, rc3, err3, ran, steps;
static coroutine void victim2(int after) {
    rc1 = block(&R1, -1); err1 = errno; steps = 1;
    rc2 = block(&R2, -1); err2 = errno; steps = 2;
    if(after) { rc3 = go(forever(0)); err3 = errno; }
    ran++;
}
/* Blocked in one call (or completed but not yet resumed), then closed; all
   later calls fail although they could succeed. */
static void later(void) {
    ran = steps = 0; vk.cap = 64;
    int k1 = mc_pick(mc_thorough ? NK : NK, "first call"), k2 = mc_pick(CORE, "second call");
    res_open(&R1, k1); res_open(&R2, k2);
    if(R2.kind != YIELD) make_ready(&R2);
    int how = mc_pick(2, "completed before");
    int h = go(victim2(1));
    MC_CHECK(h >= 0, "go", "go: %s", strerror(errno));
    int done1 = k1 == YIELD;
    if(done1 && how == 0) { hclose(h); goto check; }
    MC_CHECK(done1 || steps == 0, "blocked", "%s did not block: %d %s", kn[k1], rc1, strerror(err1));
    if(how) done1 |= complete(&R1);
    if(how && !done1) mc_trivial();
    if(h >= 0) {
        int64_t t = vk_us();
        int rc = hclose(h);
        MC_CHECK(rc == 0, "hclose", "hclose: %s", strerror(errno));
        MC_CHECK(vk_us() == t, "delay", "hclose took %ld us", (long)(vk_us() - t));
    }
check:
    mc_step();
    MC_CHECK(ran == 1, "ended", "hclose returned while the coroutine had executed its end %d times (after step %d)", ran, steps);
    if(done1) MC_CHECK(rc1 == 0, "completed", "%s had completed but returned %d (%s)", kn[k1], rc1, strerror(err1));
    else MC_CHECK(rc1 == -1 && err1 == ECANCELED, "cancel", "%s: %d (%s), expected ECANCELED", kn[k1], rc1, strerror(err1));
    MC_CHECK(rc2 == -1 && err2 == ECANCELED, "later-call", "%s in a cancelled coroutine: %d (%s), expected ECANCELED", kn[k2], rc2, strerror(err2));
    MC_CHECK(rc3 == -1 && err3 == ECANCELED, "later-go", "go in a cancelled coroutine: %d (%s)", rc3, strerror(err3));
    yield();
    if(R2.h2 >= 0) MC_CHECK(!R2.peerdone, "effect", "%s in a cancelled coroutine completed its peer's call", kn[k2]);
    /* The objects are in order. */
    uint8_t b[4];
    for(int i = 0; i < 2; ++i) {
        struct res *r = i ? &R2 : &R1;
        if(r->ch[0] < 0) continue;
        if(r->h2 >= 0) continue;
        MC_CHECK(chsend(r->ch[1], "1234", 4, 0) == -1 && errno == ETIMEDOUT, "leftover", "a cancelled %s left a receiver behind", kn[r->kind]);
        MC_CHECK(chrecv(r->ch[1], b, 4, 0) == -1 && errno == ETIMEDOUT, "leftover", "a cancelled %s left a sender behind", kn[r->kind]);
    }
    /* A second user of the same resource is served normally. */
    if(k1 == FDIN || k1 == FDOUT) {
        vk_probe_set(R1.fd, k1 == FDIN ? POLLIN : POLLOUT);
        MC_CHECK(block(&R1, now() + 10) == 0, "reuse", "%s after a cancelled one: %s", kn[k1], strerror(errno));
    }
    if(k1 == BWAIT) MC_CHECK(bundle_wait(R1.b, now() + 2) == -1 && errno == ETIMEDOUT, "reuse", "bundle_wait after a cancelled one");
    if(R1.inner >= 0) hclose(R1.inner);
    res_close(&R1); res_close(&R2);
}

/* ---- a hierarchy of coroutines that close each other ---- */
#define NN 6
struct node {
    int parent, depth; int ch[2]; int h; volatile int started, ended; int child[NN], nchild;
    int closing; int closed; int cancelled; int state; int64_t dl; int badresume;
};
static struct node nd[NN]; static int nn, rootbundle;
static void close_children(struct node *n) {
    for(int i = 0; i < n->nchild; ++i) {
        struct node *c = &nd[n->child[i]];
        if(c->h < 0) continue;
        int h = c->h; c->h = -1;
        int rc = hclose(h);
        MC_CHECK(rc == 0, "hclose", "hclose: %s", strerror(errno));
        MC_CHECK(c->ended, "ended", "hclose of node %d returned before it ended", n->child[i]);
    }
}
static void spawn(int i);
static coroutine void run_node(int i) {
    struct node *n = &nd[i];
    n->started++;
    for(int j = 0; j < n->nchild; ++j) spawn(n->child[j]);
    while(1) {
        char cmd = 0;
        n->state = 1;
        int rc = chrecv(n->ch[0], &cmd, 1, -1);
        n->state = 0;
        if(rc < 0) { MC_CHECK(errno == ECANCELED, "errno", "node %d: %s", i, strerror(errno)); break; }
        if(cmd == 'c') close_children(n);
        else if(cmd == 'y') { rc = yield(); if(rc < 0) { MC_CHECK(errno == ECANCELED, "errno", "yield: %s", strerror(errno)); break; } }
        else if(cmd == 's') { rc = msleep(now() + 1); if(rc < 0) { MC_CHECK(errno == ECANCELED, "errno", "msleep: %s", strerror(errno)); break; } }
        else if(cmd == 'x') break;
    }
    close_children(n);
    n->ended++;
}
static void spawn(int i) {
    nd[i].h = go(run_node(i));
    if(nd[i].h < 0) MC_CHECK(errno == ECANCELED, "go", "go: %s", strerror(errno));
}
static void mknode(int i, int parent) {
    memset(&nd[i], 0, sizeof(nd[i]));
    nd[i].parent = parent; nd[i].h = -1;
    MC_CHECK(chmake(nd[i].ch) == 0, "setup", "chmake");
    if(parent >= 0) nd[parent].child[nd[parent].nchild++] = i;
}
/* shapes: parent arrays */
static const signed char shapes[][NN + 1] = {
    {2, -1, 0}, {3, -1, 0, 1}, {3, -1, 0, 0}, {4, -1, 0, 1, 2}, {4, -1, 0, 1, -1}};
static void hierarchy(void) {
    int depth = mc_arg & 15, ns = mc_arg >> 4;
    const signed char *sh = shapes[mc_pick(ns, "shape")];
    nn = sh[0];
    for(int i = 0; i < nn; ++i) mknode(i, sh[i + 1]);
    for(int i = 0; i < nn; ++i) if(sh[i + 1] < 0) spawn(i);
    yield();
    static const char cmds[] = "cysx";
    for(int d = 0; d < depth; ++d) {
        /* ops: command to a waiting node (without letting it run), yield, sleep, hclose of a root */
        int op[64][2], n = 0;
        for(int i = 0; i < nn; ++i) if(nd[i].state == 1) for(int c = 0; c < 4; ++c) {
            if(c == 0 && !nd[i].nchild) continue;
            op[n][0] = i; op[n++][1] = c;
        }
        op[n][0] = -1; op[n++][1] = 0; op[n][0] = -1; op[n++][1] = 1;
        for(int i = 0; i < nn; ++i) if(nd[i].parent < 0 && nd[i].h >= 0) { op[n][0] = i; op[n++][1] = 9; }
        int k = mc_pick(n, "op"), i = op[k][0];
        mc_step();
        if(i < 0) { mc_log(op[k][1] ? "sleep 1" : "yield"); if(op[k][1]) msleep(now() + 1); else yield(); }
        else if(op[k][1] == 9) {
            mc_log("hclose root %d", i);
            int h = nd[i].h; nd[i].h = -1;
            int rc = hclose(h);
            MC_CHECK(rc == 0, "hclose", "hclose: %s", strerror(errno));
            MC_CHECK(nd[i].ended == 1, "ended", "hclose of root %d returned before it ended", i);
        } else {
            mc_log("command %c to node %d", cmds[op[k][1]], i);
            int rc = chsend(nd[i].ch[1], &cmds[op[k][1]], 1, 0);
            if(rc == 0) nd[i].state = 2;
        }
        uint64_t h = 0;
        for(int j = 0; j < nn; ++j) h = mc_mix(h, nd[j].state + 4 * nd[j].ended + 8 * (nd[j].h >= 0));
        mc_state(h);
    }
    for(int i = 0; i < nn; ++i) if(nd[i].parent < 0 && nd[i].h >= 0) {
        int h = nd[i].h; nd[i].h = -1;
        int rc = hclose(h); MC_CHECK(rc == 0, "hclose", "hclose: %s", strerror(errno));
    }
    for(int i = 0; i < nn; ++i) {
        MC_CHECK(nd[i].started <= 1 && nd[i].ended == nd[i].started, "outlived", "node %d: started %d times, ended %d times", i, nd[i].started, nd[i].ended);
        mc_obs(nd[i].started);
    }
    for(int i = 0; i < nn; ++i) { hclose(nd[i].ch[0]); hclose(nd[i].ch[1]); }
}

/* Cancellation at every position relative to the other coroutines: K busy
   coroutines yield in a loop while victims are closed in all orders. */
static int turns[4], vict_rc[4], vict_err[4], vict_done[4]; static int stopf;
static coroutine void busy(int i) { while(!stopf) { turns[i]++; if(yield() < 0) break; } }
static coroutine void sleepy(int i, int kind, struct res *r) {
    vict_rc[i] = block(r, -1); vict_err[i] = errno; vict_done[i] = 1;
}
static struct res RS[3];
static void order(void) {
    memset(turns, 0, sizeof(turns)); memset(vict_done, 0, sizeof(vict_done)); stopf = 0;
    int nb = mc_pick(3, "busy"), b[3], v[3];
    int kinds[] = {MSLEEP, CHRECV_, FDIN, BRECV};
    for(int i = 0; i < 3; ++i) {
        res_open(&RS[i], kinds[mc_pick(4, "kind")]);
        v[i] = go(sleepy(i, 0, &RS[i]));
        if(i < nb) b[i] = go(busy(i));
    }
    for(int i = 0; i < 3; ++i) {
        int k = mc_pick(3 - i, "close"), j;
        for(j = 0; ; ++j) if(v[j] >= 0 && k-- == 0) break;
        int y = mc_pick(3, "yields");
        while(y--) yield();
        int rc = hclose(v[j]); v[j] = -1;
        MC_CHECK(rc == 0 && vict_done[j], "ended", "hclose returned before the coroutine ended");
        MC_CHECK(vict_rc[j] == -1 && vict_err[j] == ECANCELED, "cancel", "result %d (%s)", vict_rc[j], strerror(vict_err[j]));
        for(int q = 0; q < 3; ++q) if(v[q] >= 0) MC_CHECK(!vict_done[q], "disturbed", "another coroutine was resumed");
        mc_step();
    }
    if(mc_pick(2, "stop")) stopf = 1;
    for(int i = 0; i < nb; ++i) MC_CHECK(hclose(b[i]) == 0, "hclose", "hclose of a ready coroutine");
    for(int i = 0; i < 3; ++i) res_close(&RS[i]);
}
/* Closing a coroutine that has finished, and many times over: stacks recycle. */
static coroutine void quick(int *x) { (*x)++; }
static void recycle(void) {
    int x = 0, n = 4;
    for(int i = 0; i < n; ++i) {
        int k = mc_pick(3, "kind");
        int h = k == 0 ? go(quick(&x)) : go(forever(k == 1 ? -1 : now() + 1));
        MC_CHECK(h >= 0, "go", "go");
        if(k == 0) MC_CHECK(x == i + 1, "go", "the coroutine did not run at once"); else x++;
        int y = mc_pick(3, "let run");
        if(y == 1) yield();
        if(y == 2) msleep(now() + 3);
        MC_CHECK(hclose(h) == 0, "hclose", "hclose");
        errno = 0;
        MC_CHECK(hclose(h) == -1 && errno == EBADF, "double-close", "second hclose: %s", strerror(errno));
        mc_step();
    }
}
struct mc_scn mc_scns[] = {
    {"later", "16 kinds of blocking calls x completed or not x 8 kinds of later calls", later, 0, 0},
    {"tree-4", "5 shapes of coroutine trees, all sequences of 4 commands, yields and closings", hierarchy, 0, -1, 4 | 5 << 4},
    {"tree-6", "5 shapes of coroutine trees, all sequences of 6 commands, yields and closings", hierarchy, -1, 0, 6 | 5 << 4},
    {"order", "3 victims of 4 kinds closed in all orders among 0-2 busy coroutines", order, 0, 0},
    {"recycle", "4 coroutines in a row: finished, blocked or expired, closed at different times", recycle, 0, 0},
    {0}
};
