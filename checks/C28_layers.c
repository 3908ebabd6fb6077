/* C28: stacks of protocols. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include "libdill.h"
#include "libdillimpl.h"
#include <stdlib.h>
#include <stddef.h>

const char *mc_property = "C28";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "TLS layers are the subject of C27, the handshake of SOCKS5 of C17",
    "an operation that fails either leaves the stack intact and usable or closes all of it", NULL};

/* Layers of the check, transparent: a bytestream over a bytestream or messages
   over messages. They record the order of closing. */
struct probe { struct hvfs hv; struct bsock_vfs bv; struct msock_vfs mv; int u, msg, id, closed; };
#define OF(p, m) ((struct probe*)((char*)(p) - offsetof(struct probe, m)))
static int order[32], norder, nextid;
static void *pq(struct hvfs *v, const void *t) { struct probe *p = (void*)v; if(p->msg ? t == dill_msock_type : t == dill_bsock_type) return p->msg ? (void*)&p->mv : (void*)&p->bv; errno = ENOTSUP; return NULL; }
static void pc(struct hvfs *v) { struct probe *p = (void*)v; if(p->closed++) mc_fail("double-close", "layer %d was closed twice", p->id); if(norder == 32) mc_fail("setup", "order"); order[norder++] = p->id; if(p->u >= 0) { int rc = hclose(p->u); MC_CHECK(rc == 0, "underlying", "the socket below layer %d is not valid: %s", p->id, strerror(errno)); } free(p); }
static int pbs(struct bsock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { return bsendl(OF(b, bv)->u, f, l, d); }
static int pbr(struct bsock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { return brecvl(OF(b, bv)->u, f, l, d); }
static int pms(struct msock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { return msendl(OF(b, mv)->u, f, l, d); }
static ssize_t pmr(struct msock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t d) { return mrecvl(OF(b, mv)->u, f, l, d); }

enum {PROBE, PREFIX, SUFFIX, TERM, HTTP, WS, WSRAW, NKIND};
static const char *kname[] = {"probe", "prefix", "suffix", "term", "http", "ws", "ws-raw"};
#define MAXL 10
struct end { int s, n, who, dead; struct { int kind, id; void *mem; struct probe *p; } L[MAXL]; int rc, err, old; int op, kind, mem; } E[2];
/* 0: bytestream, 1: messages, 2: neither */
static int type(struct end *e) { int k = e->n ? e->L[e->n - 1].kind : -1; if(k < 0) return 0; if(k == PROBE) return e->L[e->n - 1].p->msg; return k == HTTP ? 2 : 1; }
static int64_t dl(void) { return now() + 50; }
static int terms(struct end *e) { int t = 0; for(int i = 0; i < e->n; ++i) t += e->L[i].kind == TERM; return t; }
static int attach(struct end *e, int kind, int inmem, void **memp) {
    int s = e->s; *memp = NULL; char t[2] = {'T', 'a' + terms(e)}; void *m;
    switch(kind) {
    case PREFIX: if(!inmem) return prefix_attach(s, 2, PREFIX_BIG_ENDIAN); *memp = m = malloc(sizeof(struct prefix_storage)); return prefix_attach_mem(s, 2, PREFIX_BIG_ENDIAN, m);
    case SUFFIX: if(!inmem) return suffix_attach(s, "\r\n", 2); *memp = m = malloc(sizeof(struct suffix_storage)); return suffix_attach_mem(s, "\r\n", 2, m);
    case TERM: if(!inmem) return term_attach(s, t, 2); *memp = m = malloc(sizeof(struct term_storage)); return term_attach_mem(s, t, 2, m);
    case HTTP: if(!inmem) return http_attach(s); *memp = m = malloc(sizeof(struct http_storage)); return http_attach_mem(s, m);
    case WS: case WSRAW: {
        int fl = WS_TEXT | (kind == WSRAW ? WS_NOHTTP : 0); char r[8], h[8];
        const char *cr = kind == WS ? "/" : NULL, *ch = kind == WS ? "h" : NULL; if(inmem) *memp = m = malloc(sizeof(struct ws_storage));
        if(e->who == 0) return inmem ? ws_attach_client_mem(s, fl, cr, ch, m, dl()) : ws_attach_client(s, fl, cr, ch, dl());
        return inmem ? ws_attach_server_mem(s, fl, r, 8, h, 8, m, dl()) : ws_attach_server(s, fl, r, 8, h, 8, dl()); }
    }
    return -1;
}
static int detach(int s, int kind) {
    switch(kind) { case PREFIX: return prefix_detach(s); case SUFFIX: return suffix_detach(s, dl()); case TERM: return term_detach(s, dl()); case HTTP: return http_detach(s, dl()); default: return ws_detach(s, 1000, "bye", 3, dl()); }
}
static void invalid(int h, const char *what) { if(mc_arg == 2) return; /* numbers are reused soon when the table is nearly full */ if(h == E[0].s || h == E[1].s) return; errno = 0; MC_CHECK(!hquery(h, dill_bsock_type) && errno == EBADF, "stale", "the handle %s is still valid (%s)", what, strerror(errno)); }
static void mc_state_of(struct end *e) { uint64_t h = e->who; for(int i = 0; i < e->n; ++i) h = mc_mix(h, e->L[i].kind * 2 + !!e->L[i].mem); mc_state(mc_mix(h, e->dead)); }
/* Everything of the end is closed, once, from the top to the bottom. */
static void gone(struct end *e, int from) {
    int k = from; for(int i = e->n - 1; i >= 0; --i) if(e->L[i].kind == PROBE) { MC_CHECK(k < norder && order[k] == e->L[i].id, "order", "layer %d of %d was %s", i, e->n, k >= norder ? "not closed" : "closed out of order"); k++; }
    MC_CHECK(k == norder, "order", "%d layers too many were closed", norder - k);
    for(int i = 0; i < e->n; ++i) { free(e->L[i].mem); e->L[i].mem = NULL; }
    e->n = 0; e->dead = 1; int s = e->s; e->s = -1; invalid(s, "of the stack that failed or was closed");
}
static void run(struct end *e) {
    e->old = e->s; void *m = NULL; errno = 0;
    if(e->op == 0) {
        if(e->kind == PROBE) {
            int msg = type(e); struct probe *p = calloc(1, sizeof *p); p->hv.query = pq; p->hv.close = pc; p->bv.bsendl = pbs; p->bv.brecvl = pbr; p->mv.msendl = pms; p->mv.mrecvl = pmr; p->msg = msg; p->id = e->who * 100 + nextid++; vk_faults_on(0); p->u = hown(e->s); e->rc = hmake(&p->hv); e->L[e->n].p = p; e->L[e->n].id = p->id;
        } else e->rc = attach(e, e->kind, e->mem, &m);
        e->err = errno; e->L[e->n].mem = m; e->L[e->n].kind = e->kind; if(e->rc >= 0) { e->s = e->rc; e->n++; } else free(m);
    } else {
        int k = e->L[e->n - 1].kind;
        if(k == PROBE) { struct probe *p = e->L[e->n - 1].p; e->rc = p->u; p->u = -1; hclose(e->s); norder--; }
        else { e->rc = detach(e->s, k); e->err = errno; }
        if(e->rc >= 0) { e->s = e->rc; e->n--; free(e->L[e->n].mem); }
    }
    mc_log("%s of end %d: %s %s -> %d %s", e->op ? "detach" : "attach", e->who, kname[e->op ? e->L[e->n].kind : e->kind], e->mem ? "(mem)" : "", e->rc, e->rc < 0 ? strerror(e->err) : "");
}
static coroutine void peer(void) { run(&E[1]); }
/* Data passes both ways, when nothing has failed. */
static int xrc; static char xb[16];
static coroutine void xrecv(struct end *e, int t) { char v[8] = ""; xrc = t == 0 ? brecv(e->s, xb, 3, dl()) : t == 1 ? (int)mrecv(e->s, xb, 8, dl()) : http_recvfield(e->s, xb, 8, v, 8, dl()); if(t == 2 && xrc == 0 && strcmp(v, "val")) xrc = -2; if(xrc < 0) mc_log("recv: %s", strerror(errno)); }
static void exchange(void) {
    for(int d = 0; d < 2; ++d) {
        struct end *a = &E[d], *b = &E[!d]; int t = type(a); xrc = -9; memset(xb, 0, sizeof xb); int h = go(xrecv(b, t));
        int rc = t == 0 ? bsend(a->s, d ? "abc" : "xyz", 3, dl()) : t == 1 ? msend(a->s, d ? "abc" : "xyz", 3, dl()) : http_sendfield(a->s, d ? "abc" : "xyz", "val", dl());
        MC_CHECK(rc == 0, "send", "sending through the stack failed: %s", strerror(errno)); if(xrc == -9) msleep(now() + 1); MC_CHECK(xrc == (t == 1 ? 3 : 0) && !memcmp(xb, d ? "abc" : "xyz", 3), "data", "the data did not get through (%d)", xrc); hclose(h);
    }
    /* The top answers for its type, and only for it. */
    for(int d = 0; d < 2; ++d) { int t = type(&E[d]); MC_CHECK(!!hquery(E[d].s, dill_bsock_type) == (t == 0), "type", "bytestream type"); MC_CHECK(!!hquery(E[d].s, dill_msock_type) == (t == 1), "type", "message type"); }
}
static int fds0;
static void begin(void) { norder = 0; nextid = 1; memset(E, 0, sizeof E); E[1].who = 1; fds0 = vk_open_fds(); int h[2]; int rc; 
    rc = ipc_pair(h); MC_CHECK(rc == 0, "setup", "ipc_pair"); E[0].s = h[0]; E[1].s = h[1]; }
static void finish(void) {
    int first = mc_pick(2, "close first");
    for(int k = 0; k < 2; ++k) { struct end *e = &E[k ^ first]; if(e->dead) continue; int f = norder, s = e->s; int rc = hclose(s); MC_CHECK(rc == 0, "close", "hclose: %s", strerror(errno)); gone(e, f); }
    MC_CHECK(vk_open_fds() == fds0, "leak", "%d descriptors are left", vk_open_fds() - fds0);
}
static int legal(struct end *e, int kind) { int t = type(e); return kind == PROBE ? t < 2 : kind == TERM ? t == 1 : t == 0; }
static int alive(struct end *e) { if(mc_arg == 2) return 0; return hquery(e->s, dill_bsock_type) || errno != EBADF; }
static void bothends(int op, int kind, int mem, int stalled) {
    int before = norder, f0 = vk_fault_count; for(int d = 0; d < 2; ++d) { E[d].op = op; E[d].kind = kind; E[d].mem = mem; E[d].rc = -9; }
    int n[2] = {E[0].n, E[1].n}; vk_faults_on(1); int h = stalled ? -1 : go(peer()); if(h < 0 && !stalled) { vk_faults_on(0); MC_CHECK(vk_fault_count > f0, "go", "go"); h = go(peer()); vk_faults_on(1); } run(&E[0]); if(!stalled) { bundle_wait(h, -1); hclose(h); } vk_faults_on(0); mc_step();
    int faulted = vk_fault_count > f0;
    for(int d = 0; d < 2 - stalled; ++d) { struct end *e = &E[d];
        MC_CHECK(e->rc != -9, "hung", "the peer's operation has not finished");
        if(e->rc >= 0) { MC_CHECK(e->n == n[d] + (op ? -1 : 1), "count", "?"); invalid(e->old, op ? "of the detached layer" : "of the layer below"); }
        else { MC_CHECK(faulted || stalled, "failed", "%s %s failed: %s", op ? "detaching" : "attaching", kname[op ? e->L[e->n - 1].kind : kind], strerror(e->err)); MC_CHECK(e->err, "errno", "no errno");
            if(e->s == e->old && !alive(e)) { /* Of two ends that failed each has its own layers, in order. */ int mine[32], k = 0; for(int i = before; i < norder; ++i) if(order[i] / 100 == d) mine[k++] = order[i]; int sv[32], ns = norder; memcpy(sv, order, sizeof sv); memcpy(order, mine, sizeof mine); norder = k; gone(e, 0); memcpy(order, sv, sizeof sv); norder = ns; }
            else mc_log("end %d is still alive", d);
        }
        mc_state_of(e);
    }
    if(E[0].rc >= 0 && E[1].rc >= 0 && !stalled) exchange();
}
#define TRIV do { mc_trivial(); finish(); return; } while(0)
static void stack_(void) {
    begin(); vk.faults = mc_arg == 1 ? 2 : 0; hclose(go(xrecv(&E[0], 7))); 
    int depth = mc_arg == 1 ? (mc_thorough ? 5 : 4) : mc_thorough ? 7 : 6; static int fill[260]; int nf = 0;
    if(mc_arg == 2) { depth = 2; vk.faults = 2; int k = 236 + mc_pick(12, "fill"); static struct probe pp; memset(&pp, 0, sizeof pp); pp.hv.query = pq; pp.hv.close = pc; for(; nf < k; ++nf) { struct probe *q = calloc(1, sizeof pp); *q = pp; q->u = -1; fill[nf] = hmake(&q->hv); } }
    for(int i = 0; i < depth && !E[0].dead && !E[1].dead; ++i) {
        int ops[20], no = 0; ops[no++] = 0; if(E[0].n) ops[no++] = 1; for(int k = 0; k < NKIND * 2; ++k) if(legal(&E[0], k / 2) && k != 1) ops[no++] = 2 + k;
        int o = ops[mc_pick(no, "operation")]; if(o == 0) break;
        if(o == 1) bothends(1, 0, 0, 0); else bothends(0, (o - 2) / 2, (o - 2) % 2, 0);
        mc_obs(o);
        if((E[0].rc < 0) != (E[1].rc < 0) || E[0].rc < 0) break;
    }
    int f = norder; for(int i = 0; i < nf; ++i) { hclose(fill[i]); norder = f; } finish();
}
/* One end only: misuse, or a peer that does not take part. */
static void misuse_(void) {
    begin(); vk.faults = 0;
    static const int shapes[][4] = {{-1}, {PROBE, -1}, {PREFIX, -1}, {SUFFIX, -1}, {HTTP, -1}, {WSRAW, -1}, {WS, -1}, {PROBE, PREFIX, PROBE, -1}, {PREFIX, TERM, -1}, {SUFFIX, PROBE, TERM, -1}, {PROBE, WS, TERM, -1}, {PROBE, HTTP, -1}, {PREFIX, TERM, TERM, -1}};
    int k = mc_pick(13, "stack"); for(int i = 0; i < 4 && shapes[k][i] >= 0; ++i) bothends(0, shapes[k][i], mc_pick(2, "mem") && shapes[k][i] != PROBE, 0);
    struct end *e = &E[0]; int f = norder, n = e->n, fds = vk_open_fds(); static char big[40]; static struct ws_storage ws; int s = e->s, rc, want = 0, op = mc_pick(27, "misuse"); errno = 0; int t = type(e), top = n ? e->L[n - 1].kind : -1;
    switch(op) {
    case 0: rc = prefix_attach(s, 0, 0); want = EINVAL; break; case 1: rc = prefix_attach_mem(s, 2, 0, NULL); want = EINVAL; break;
    case 2: rc = suffix_attach(s, "", 0); want = EINVAL; break; case 3: rc = suffix_attach(s, big, 33); want = EINVAL; break; case 4: rc = suffix_attach_mem(s, "x", 1, NULL); want = EINVAL; break; case 5: rc = suffix_attach(s, NULL, 2); want = EINVAL; break;
    case 6: rc = term_attach(s, big, 33); want = EINVAL; break; case 7: rc = term_attach(s, NULL, 1); want = EINVAL; break; case 8: rc = term_attach_mem(s, "x", 1, NULL); want = EINVAL; break;
    case 9: rc = http_attach_mem(s, NULL); want = EINVAL; break; case 10: rc = ws_attach_client_mem(s, WS_NOHTTP, NULL, NULL, NULL, -1); want = EINVAL; break; case 11: rc = ws_attach_client(s, 0, NULL, "h", -1); want = EINVAL; break;
    case 12: rc = ws_attach_server_mem(s, WS_NOHTTP, NULL, 0, NULL, 0, NULL, -1); want = EINVAL; break;
    case 13: if(t == 0) TRIV; rc = prefix_attach(s, 2, 0); want = EPROTO; break; case 14: if(t == 0) TRIV; rc = suffix_attach(s, "x", 1); want = EPROTO; break; case 15: if(t == 1) TRIV; rc = term_attach(s, "x", 1); want = EPROTO; break;
    case 16: if(t == 0) TRIV; rc = http_attach(s); want = EPROTO; break; case 17: if(t == 0) TRIV; rc = ws_attach_client(s, WS_NOHTTP, NULL, NULL, -1); want = EPROTO; break; case 18: if(t == 0) TRIV; rc = ws_attach_server(s, 0, big, 5, big + 9, 5, dl()); want = EPROTO; break;
    case 19: if(top == PREFIX) TRIV; rc = prefix_detach(s); want = ENOTSUP; break; case 20: if(top == SUFFIX) TRIV; rc = suffix_detach(s, dl()); want = ENOTSUP; break; case 21: if(top == TERM) TRIV; rc = term_detach(s, dl()); want = ENOTSUP; break;
    case 22: if(top == HTTP) TRIV; rc = http_detach(s, dl()); want = ENOTSUP; break; case 23: if(top == WS || top == WSRAW) TRIV; rc = ws_detach(s, 0, NULL, 0, dl()); want = ENOTSUP; break;
    case 24: { static int bad[] = {-1, 250, 5555, 1 << 30}; int b = bad[mc_pick(4, "bad")], c = mc_pick(11, "call");
        rc = c == 0 ? prefix_attach(b, 2, 0) : c == 1 ? suffix_attach(b, "x", 1) : c == 2 ? term_attach(b, "x", 1) : c == 3 ? http_attach(b) : c == 4 ? ws_attach_client_mem(b, WS_NOHTTP, NULL, NULL, &ws, -1) : c == 5 ? ws_attach_server(b, WS_NOHTTP, NULL, 0, NULL, 0, -1) : c == 6 ? prefix_detach(b) : c == 7 ? suffix_detach(b, -1) : c == 8 ? term_detach(b, -1) : c == 9 ? http_detach(b, -1) : ws_detach(b, 0, NULL, 0, -1); want = EBADF; break; }
    case 25: if(top != WS && top != WSRAW && top != TERM && top != HTTP) TRIV; rc = -1; bothends(1, 0, 0, 1); if(!e->dead) { MC_CHECK(e->rc < 0, "stalled", "detached though the peer did not take part"); } rc = -2; break;
    case 26: if(t != 0) TRIV; bothends(0, WS, mc_pick(2, "mem"), 1); MC_CHECK(e->rc < 0 && e->err == ETIMEDOUT, "stalled", "attached though the peer did not take part"); rc = -2; break;
    }
    int err = errno; mc_step();
    if(rc != -2) {
        MC_CHECK(rc == -1 && (err == want || (want == EINVAL && err == EPROTO)), "misuse", "misuse %d gave %d (%s) instead of %s", op, rc, strerror(err), strerror(want));
        if(want == EBADF) MC_CHECK(alive(e) && norder == f, "bad-handle", "a call with an invalid handle has closed another one");
        if(alive(e)) { MC_CHECK(norder == f && vk_open_fds() == fds, "half-closed", "the handle is still valid but something below it was closed"); exchange(); } else gone(e, f);
    }
    mc_obs(mc_mix(op, k)); finish();
}
/* The bottom of a stack fails or the peer goes away, then it is taken down. */
static void broken_(void) {
    begin(); static const int shapes[][5] = {{PROBE, PREFIX, PROBE, TERM, -1}, {PROBE, SUFFIX, TERM, -1}, {PROBE, WS, PROBE, TERM, -1}, {PROBE, HTTP, -1}, {PREFIX, TERM, TERM, PROBE, -1}, {WSRAW, PROBE, -1}};
    int k = mc_pick(6, "stack"); for(int i = 0; i < 5 && shapes[k][i] >= 0; ++i) bothends(0, shapes[k][i], mc_pick(2, "mem") && shapes[k][i] != PROBE, 0);
    int how = mc_pick(3, "how"); struct end *e = &E[0];
    if(how == 0) { int s = E[1].s, f = norder; hclose(s); gone(&E[1], f); }
    else if(how == 1) vk.rw_err = 1;
    int f;
    for(int i = 0; i < 5 && !e->dead; ++i) {
        if(!e->n) break;
        if(!E[1].dead && how == 2 && i == mc_pick(3, "leaves at")) { int s = E[1].s; f = norder; hclose(s); gone(&E[1], f); }
        e->op = 1; e->rc = -9; f = norder; int kd = e->L[e->n - 1].kind; if(kd == PROBE) kd = -1; run(e); mc_step();
        if(e->rc < 0) { MC_CHECK(kd >= 0, "probe", "?"); if(alive(e)) { mc_log("alive"); break; } gone(e, f); } else invalid(e->old, "of the detached layer");
        mc_state_of(e);
    }
    vk.rw_err = 0; mc_obs(mc_mix(how, e->dead)); finish();
}
/* One direction breaks in the middle of a message: the layer cannot be taken off
   as if nothing had happened, and what is below is closed with it. */
static struct mb hm;
static int half_attach(int k) { int s = mb_open(&hm); switch(k) { case 0: return prefix_attach(s, 3, 0); case 1: return suffix_attach(s, "\r\n", 2); case 2: return term_attach(prefix_attach(s, 3, 0), "END", 3); case 3: return http_attach(s); case 4: return ws_attach_client(s, WS_BINARY | WS_NOHTTP, NULL, NULL, -1); case 5: return ws_attach_server(s, WS_BINARY | WS_NOHTTP, NULL, 0, NULL, 0, -1); default: return prefix_attach(s, 2, PREFIX_LITTLE_ENDIAN); } }
static int half_send(int k, int s, int64_t dl) { return k == 3 ? http_sendfield(s, "name", "value", dl) : msend(s, "hello", 5, dl); }
static void half_(void) {
    static const char *const in[] = {"\0\0\5hello", "hello\r\n", "\0\0\5hello", "name: value\r\n", "\x82\5hello", "\x82\x85\0\0\0\0hello", "\5\0hello"}; static const int inlen[] = {8, 7, 8, 13, 7, 11, 7};
    int k = mc_pick(7, "kind"), out = mc_pick(2, "direction"), err = mc_pick(3, "error"), other = mc_pick(2, "other direction used"), cancel = 0; (void)cancel; vk_random_seed = 1; char b[40], c[40]; int s = half_attach(k); size_t n = inlen[k];
    if(out) { size_t o = hm.nout; if(half_send(k, s, -1)) mc_fail("setup", "send"); n = hm.nout - o; hclose(s); s = half_attach(k); }
    size_t at = mc_pick(n, "bytes"); int e = err == 0 ? 0 : err == 1 ? ECONNRESET : EPIPE; if(e == EPIPE && !out && at == 0) { mc_trivial(); hclose(s); return; }
    if(out) { hm.outlimit = hm.nout + at; hm.outend = e == EPIPE ? ECONNRESET : e; if(other) mb_feed(&hm, in[k], inlen[k]); } else { mb_feed(&hm, in[k], at); hm.inend = e; if(other && half_send(k, s, -1)) mc_fail("setup", "send"); }
    int64_t t = now(); errno = 0; long rc = out ? half_send(k, s, t + 2) : k == 3 ? http_recvfield(s, b, 40, c, 40, t + 2) : mrecv(s, b, 40, t + 2); int er = errno;
    MC_CHECK(rc < 0 && (er == (e ? e : ETIMEDOUT) || (e == EPIPE && er == ECONNRESET)), "half", "kind %d broken after %zu bytes: %ld %s", k, at, rc, strerror(er));
    if(out && other) { rc = k == 3 ? http_recvfield(s, b, 40, c, 40, -1) : mrecv(s, b, 40, -1); MC_CHECK(rc >= 0, "half", "kind %d, writing broken: receiving %s", k, strerror(errno)); }
    t = now(); errno = 0; int u = k == 0 || k == 6 ? prefix_detach(s) : k == 1 ? suffix_detach(s, t + 2) : k == 2 ? term_detach(s, t + 2) : k == 3 ? http_detach(s, t + 2) : ws_detach(s, 1000, NULL, 0, t + 2);
    MC_CHECK(u < 0, "half", "kind %d, %s broken after %zu bytes of a message, is detached as if it were not", k, out ? "writing" : "reading", at); MC_CHECK(errno == ECONNRESET || errno == EPIPE || errno == ETIMEDOUT, "half", "kind %d: detaching a broken layer: %s", k, strerror(errno)); MC_CHECK(now() <= t + 2, "half", "kind %d: detaching goes on after its deadline", k);
    MC_CHECK(hm.closed == 1, "half", "kind %d: detaching failed, what is below was closed %d times", k, hm.closed); MC_CHECK(hclose(s) < 0 && errno == EBADF, "half", "kind %d: the handle is still there", k); mc_step(); mc_state(mc_mix(k * 2 + out, mc_mix(at, err * 2 + other)));
}
struct mc_scn mc_scns[] = {
    {"stack", "all sequences of attaching and detaching at both ends, each allocation either way", stack_, 0, 0, 0},
    {"faults", "the same, with every failing allocation", stack_, 1, 2, 1},
    {"table", "the same around the growth of the handle table", stack_, 1, 1, 2},
    {"misuse", "every invalid call on every kind of stack", misuse_, 0, 0, 0},
    {"broken", "taking down a stack whose peer has gone or whose bottom fails", broken_, 1, 2, 0},
    {"half", "one direction of each layer breaks after each byte of a message; then it is detached", half_, 0, 0, 0},
    {0}};
