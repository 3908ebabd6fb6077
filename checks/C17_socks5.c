/* C17: SOCKS5. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include <unistd.h>
#include <stdlib.h>
#include <arpa/inet.h>
#include <netinet/in.h>

const char *mc_property = "C17";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "a mock bytestream below, or an IPC connection over the virtual kernel; names in commands are literals or in the virtual hosts file",
    "empty user names and passwords and empty names in commands may be accepted or refused", NULL};

static struct mb m; static int64_t dl;
static char *text(int n, int k) { static char b[6][700]; static int r; r = (r + 1) % 6; for(int i = 0; i < n; ++i) b[r][i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i * 5 + k + i / 36) % 36]; b[r][n] = 0; return b[r]; }
static void mkaddr(struct ipaddr *a, int v6, int port, int k) {
    memset(a, 0, sizeof *a);
    if(!v6) { struct sockaddr_in *s = (void*)a; s->sin_family = AF_INET; s->sin_port = htons(port); static const uint32_t v[] = {0x7f000001, 0, 0xffffffff, 0x01020304, 0x80ff00aa}; s->sin_addr.s_addr = htonl(v[k]); }
    else { struct sockaddr_in6 *s = (void*)a; s->sin6_family = AF_INET6; s->sin6_port = htons(port); for(int i = 0; i < 16; ++i) s->sin6_addr.s6_addr[i] = k == 0 ? i == 15 : k == 1 ? 0 : k == 2 ? 255 : i * 17 + k; }
}
/* VER x RSV ATYP address port: what RFC 1928 puts on the wire. */
static size_t wire(uint8_t *o, int x, int atyp, const void *addr, size_t n, int port) {
    size_t k = 0; o[k++] = 5; o[k++] = x; o[k++] = 0; o[k++] = atyp; if(atyp == 3) o[k++] = n;
    memcpy(o + k, addr, n); k += n; o[k++] = port >> 8; o[k++] = port; return k;
}
static size_t wireaddr(uint8_t *o, int x, struct ipaddr *a) {
    struct sockaddr_in *s = (void*)a; struct sockaddr_in6 *s6 = (void*)a;
    return s->sin_family == AF_INET ? wire(o, x, 1, &s->sin_addr, 4, ntohs(s->sin_port)) : wire(o, x, 4, &s6->sin6_addr, 16, ntohs(s6->sin6_port));
}
static int replyerr(int r) { static const int e[] = {0, EIO, EACCES, ENETUNREACH, EHOSTUNREACH, ECONNREFUSED, ETIMEDOUT, EOPNOTSUPP, EAFNOSUPPORT}; return r < 9 ? e[r] : EPROTO; }
/* ---- the client ---- */
/* The proxy answers step by step; each answer is one of many. */
static uint8_t want[2048]; static size_t nwant; static int step, verdict; static size_t used;
static const char *U, *W; static uint8_t cmd[300]; static size_t ncmd; static int full;
static uint8_t reply[300]; static size_t nreply;
static void say(const void *p, size_t n) {
    mb_feed(&m, p, n); used = m.nin;
}
static void proxy(struct mb *x_) {
    (void)x_;
    if(m.nout < nwant) return;
    uint8_t r[8] = {5, 0};
    switch(step++) {
    case 0: {
        int up = U && W;
        int k = mc_pick(full ? 6 : 2, "method"); static const int ms[] = {0, 2, 0xff, 1, 0x80, 3};
        r[1] = ms[k]; if(full && mc_pick(3, "version") == 1) { r[0] = 4; }
        say(r, 2); if(r[0] != 5) { verdict = EPROTO; step = 9; break; }
        if(k == 2) { verdict = EACCES; step = 9; break; }
        if(k > 2 || (k == 1 && !up)) { verdict = EPROTO; step = 9; break; }
        if(k == 1) { want[nwant++] = 1; want[nwant++] = strlen(U); memcpy(want + nwant, U, strlen(U)); nwant += strlen(U); want[nwant++] = strlen(W); memcpy(want + nwant, W, strlen(W)); nwant += strlen(W); }
        else { step = 2; memcpy(want + nwant, cmd, ncmd); nwant += ncmd; }
        break; }
    case 1: {
        int k = full ? mc_pick(4, "login") : 0; static const int v[] = {1, 1, 1, 5}, c[] = {0, 1, 255, 0}; r[0] = v[k]; r[1] = c[k];
        say(r, 2); if(k) { verdict = k == 3 ? EPROTO : EACCES; step = 9; break; }
        memcpy(want + nwant, cmd, ncmd); nwant += ncmd; break; }
    case 2: mb_feed(&m, reply, nreply); break;
    default: mc_fail("request", "the client has written more after the end of the negotiation");
    }
}
static void start(void) { nwant = 0; step = 0; verdict = 0; used = 0; dl = now() + 20; full = 0; }
static void hello(void) { int up = U && W; want[0] = 5; want[1] = up ? 2 : 1; want[2] = 0; want[3] = 2; nwant = up ? 4 : 3; }
static int run(const char *host, int port, struct ipaddr *a) {
    errno = 0; int s = m.h, rc = host ? socks5_client_connectbyname(s, U, W, host, port, dl) : socks5_client_connect(s, U, W, a, dl);
    int err = errno; mc_step(); mc_log("connect = %d (%s)", rc, rc ? strerror(err) : "ok"); errno = err; return rc;
}
static void verify(int rc, int err, size_t end) {
    m.on_out = NULL;
    MC_CHECK(m.nout <= nwant && !memcmp(m.out, want, m.nout), "request", "the client has written wrong bytes (%zu, expected %zu)", m.nout, nwant);
    MC_CHECK(m.nout == nwant, "request", "%zu bytes were written instead of %zu", m.nout, nwant);
    if(verdict) MC_CHECK(rc == -1 && err == verdict, rc == 0 ? "false-success" : "errno", "the client gave %d (%s) instead of %s", rc, strerror(err), strerror(verdict));
    else MC_CHECK(rc == 0, "refused", "the client failed: %s", strerror(err));
    MC_CHECK(m.pos <= end, "overread", "%zu bytes were read instead of %zu", m.pos, end);
    if(!rc) { MC_CHECK(m.pos == end, "overread", "%zu bytes were read instead of %zu", m.pos, end); char b[3]; MC_CHECK(bsend(m.h, "abc", 3, dl) == 0 && brecv(m.h, b, 3, dl) == 0 && !memcmp(b, "xyz", 3), "after", "the connection does not work after the negotiation"); }
    MC_CHECK(!m.closed, "close", "the socket was closed"); hclose(m.h);
    mc_state(mc_mix(step, verdict)); mc_obs(mc_mix(mc_hash(m.out, m.nout, 3), mc_mix(verdict, m.pos)));
}
/* Credentials, addresses, answers. */
static void client_(void) {
    start(); static const int len[] = {-1, 5, 1, 255, 254, 128};
    int u = len[mc_pick(mc_arg ? 2 : 6, "user")], w = len[mc_pick(mc_arg ? 2 : 6, "password")];
    U = u < 0 ? NULL : text(u, 1); W = w < 0 ? NULL : text(w, 2); hello(); full = mc_arg == 1;
    struct ipaddr a; const char *host = NULL; static const int ports[] = {80, 1, 255, 256, 0x1234, 65535, 0xff00}; int port = ports[mc_pick(mc_arg ? 2 : 7, "port")];
    int kind = mc_pick(4, "target");
    if(kind < 2) { mkaddr(&a, kind, port, mc_pick(mc_arg ? 2 : 5, "address")); ncmd = wireaddr(cmd, 1, &a); }
    else if(kind == 2) { int n = 1 + mc_pick(255, "name") ; if(mc_arg && n > 2 && n < 255) { mc_trivial(); return; } host = text(n, 3); if(n >= 2) ((char*)host)[0] = 'n'; if(n == 1) host = "q"; ncmd = wire(cmd, 1, 3, host, n, port); }
    else { static const char *lit[] = {"1.2.3.4", "::1", "255.255.255.255", "fe80::1234:5678", "::ffff:1.2.3.4", "1.2.3.4.", "1.2.3", "0x7f.1", ":::", "1.2.3.256"}; host = lit[mc_pick(10, "literal")]; struct in_addr i4; struct in6_addr i6;
        if(inet_pton(AF_INET, host, &i4) == 1) ncmd = wire(cmd, 1, 1, &i4, 4, port); else if(inet_pton(AF_INET6, host, &i6) == 1) ncmd = wire(cmd, 1, 4, &i6, 16, port); else ncmd = wire(cmd, 1, 3, host, strlen(host), port); }
    mb_open(&m); m.on_out = proxy;
    if(mc_arg == 1) { /* replies */
        int at = mc_pick(3, "reply address"); if(at == 2) { int ls[] = {1, 0, 255}, n = ls[mc_pick(3, "reply name")]; nreply = wire(reply, 0, 3, text(n, 9), n, 99); } else { struct ipaddr b; mkaddr(&b, at, 1080, 3); nreply = wireaddr(reply, 0, &b); }
    } else nreply = wire(reply, 0, 1, "\0\0\0\0", 4, 0);
    int rc = run(host, port, &a), err = errno;
    size_t end = m.nin; if(step == 3 && m.nin) { mb_str(&m, "xyz"); }
    if(!verdict && step == 3) { nwant = m.nout < nwant ? nwant : nwant; }
    verify(rc, err, end);
}
/* Every reply header. */
static void reply_(void) {
    start(); U = W = NULL; hello(); struct ipaddr a; mkaddr(&a, 0, 80, 3); ncmd = wireaddr(cmd, 1, &a);
    int f = mc_pick(4, "field"), v = mc_pick(16, "hi") * 16; v += mc_pick(16, "lo");
    int at = mc_pick(3, "type"); nreply = at == 0 ? wire(reply, 0, 1, "\1\2\3\4", 4, 5) : at == 1 ? wire(reply, 0, 4, "0123456789abcdef", 16, 5) : wire(reply, 0, 3, "name", 4, 5);
    reply[f] = v; size_t end = nreply; verdict = 0;
    if(f == 3) { if(v == 1) { end = 10; } else if(v == 4) { end = 22; memset(reply + nreply, 7, 30); nreply = 22; } else if(v == 3) { reply[4] = 3; memset(reply + nreply, 7, 30); end = nreply = 10; } else verdict = EPROTO; if(v == 1) nreply = 10; }
    mb_open(&m); m.on_out = proxy;
    /* The method goes first. */
    full = 0;
    if(f == 0 && v != 5) verdict = EPROTO; if(f == 1 && v) verdict = replyerr(v); if(f == 2 && v) verdict = EPROTO;
    int vd = verdict; verdict = 0;
    int rc = run(NULL, 0, &a), err = errno; if(!verdict) verdict = vd;
    end += 2; size_t tail = m.nin; (void)tail;
    if(step == 3) mb_str(&m, "xyz"); else end = m.nin;
    if(step == 3) verify(rc, err, end); else hclose(m.h);
}
static void proxy_noauth(struct mb *x) { (void)x; if(m.nout == 3 || m.nout == 4) mb_feed(&m, "\5\0", 2); else if(m.nout == 3 + ncmd || m.nout == 4 + ncmd) mb_feed(&m, reply, nreply); }
static void proxy_user(struct mb *x) { (void)x; size_t l = 3 + strlen(U) + strlen(W); if(m.nout == 4) mb_feed(&m, "\5\2", 2); else if(m.nout == 4 + l) mb_feed(&m, "\1\0", 2); else if(m.nout == 4 + l + ncmd) mb_feed(&m, reply, nreply); }
/* The connection breaks, stalls or is cancelled anywhere. */
static int g_rc, g_err; static const char *g_host; static struct ipaddr g_a;
static coroutine void co(void) { g_rc = g_host ? socks5_client_connectbyname(m.h, U, W, g_host, 80, dl) : socks5_client_connect(m.h, U, W, &g_a, dl); g_err = errno; }
static size_t incut, incap; static void (*inner)(struct mb*);
static void cutting(struct mb *x) { inner(x); if(m.nin >= incut) { m.nin = incut; if(incap) { m.inend = incap; } } }
static void broken_(void) {
    start(); int up = mc_pick(2, "login"); U = up ? "user" : NULL; W = up ? "pass" : NULL; int kind = mc_pick(3, "kind");
    g_host = kind == 2 ? "host" : NULL; mkaddr(&g_a, kind == 1, 80, 3); ncmd = kind == 2 ? wire(cmd, 1, 3, "host", 4, 80) : wireaddr(cmd, 1, &g_a);
    nreply = wire(reply, 0, kind == 0 ? 1 : kind == 1 ? 4 : 3, "0123456789abcdef", kind == 0 ? 4 : kind == 1 ? 16 : 7, 3);
    mb_open(&m); inner = up ? proxy_user : proxy_noauth; m.on_out = cutting;
    int out = mc_pick(2, "direction"), how = mc_pick(4, "how"); static const int es[] = {EPIPE, ECONNRESET, 0, 0};
    size_t c = mc_pick(60, "where"); incut = out ? 1000 : c; m.outlimit = out ? c : (size_t)-1; m.outend = out ? es[how] : 0; incap = out ? 0 : es[how];
    dl = how == 2 ? now() + 3 : -1; g_rc = 7;
    size_t nin = 2 + (up ? 2 : 0) + nreply, nout = (up ? 4 : 3) + (up ? 11 : 0) + ncmd;
    int h = go(co()); msleep(now() + 6); hclose(h); mc_step();
    MC_CHECK(g_rc != 7, "lost", "the coroutine has not finished");
    if(out ? c >= nout : c >= nin) MC_CHECK(g_rc == 0, "refused", "the client failed: %s", strerror(g_err));
    else MC_CHECK(g_rc == -1 && g_err == (how == 2 ? ETIMEDOUT : how == 3 ? ECANCELED : es[how]), g_rc ? "errno" : "false-success", "the client gave %d (%s)", g_rc, strerror(g_err));
    MC_CHECK(!m.closed, "close", "the socket was closed"); hclose(m.h); mc_obs(mc_mix(c, g_rc)); mc_state(mc_mix(out, g_err));
}
static void limits_(void) {
    start(); int k = mc_pick(12, "limit"); struct ipaddr a; mkaddr(&a, 0, 80, 3); mb_open(&m); int rc = 0, nothing = 0;
    /* A proxy which would accept. */
    U = W = NULL; ncmd = 10; nreply = wire(reply, 0, 1, "\1\2\3\4", 4, 5); m.on_out = proxy_noauth; m.inend = ECONNRESET; errno = 0;
    switch(k) {
    case 0: rc = socks5_client_connect(m.h, text(256, 1), "p", &a, dl); nothing = 1; break;
    case 1: rc = socks5_client_connect(m.h, "u", text(256, 1), &a, dl); nothing = 1; break;
    case 2: rc = socks5_client_connect(m.h, text(600, 1), "p", &a, dl); nothing = 1; break;
    case 3: rc = socks5_client_connect(m.h, NULL, NULL, NULL, dl); break;
    case 4: rc = socks5_client_connectbyname(m.h, NULL, NULL, NULL, 80, dl); break;
    case 5: rc = socks5_client_connectbyname(m.h, NULL, NULL, text(256, 1), 80, dl); break;
    case 6: rc = socks5_client_connectbyname(m.h, NULL, NULL, "h", 0, dl); break;
    case 7: rc = socks5_client_connectbyname(m.h, NULL, NULL, "h", -1, dl); break;
    case 8: rc = socks5_client_connectbyname(m.h, NULL, NULL, "h", 65536, dl); break;
    case 9: rc = socks5_proxy_sendreply(m.h, -1, &a, dl); nothing = 1; break;
    case 10: rc = socks5_proxy_sendreply(m.h, 9, &a, dl); nothing = 1; break;
    case 11: rc = socks5_client_connectbyname(m.h, NULL, NULL, "", 80, dl); break;
    }
    int err = errno; mc_step();
    MC_CHECK(rc == -1 && err == EINVAL, "bad-args", "call %d gave %d (%s)", k, rc, strerror(err));
    MC_CHECK(nothing ? !m.nout : m.nout <= 3, "bad-args", "call %d has written %zu bytes", k, m.nout);
    hclose(m.h); mc_obs(k);
}
static int anyauth(const char *u, const char *p) { (void)u; (void)p; return 1; }
static void handles_(void) {
    static struct mm mm; int k = mc_pick(6, "call"), h = mc_pick(2, "bad") ? 12345 : mm_open(&mm), x = h == 12345 ? EBADF : ENOTSUP; struct ipaddr a; mkaddr(&a, 0, 80, 1); char b[256]; int p, rc = 0; dl = -1; errno = 0;
    switch(k) { case 0: rc = socks5_client_connect(h, NULL, NULL, &a, dl); break; case 1: rc = socks5_client_connectbyname(h, NULL, NULL, "h", 1, dl); break; case 2: rc = socks5_proxy_auth(h, anyauth, dl); break; case 3: rc = socks5_proxy_recvcommand(h, &a, dl); break; case 4: rc = socks5_proxy_recvcommandbyname(h, b, &p, dl); break; case 5: rc = socks5_proxy_sendreply(h, 0, &a, dl); break; }
    MC_CHECK(rc == -1 && errno == x, "bad-handle", "call %d gave %d (%s)", k, rc, strerror(errno)); if(h != 12345) MC_CHECK(!mm.closed, "close", "closed"); if(h != 12345) hclose(h); mc_step(); mc_obs(k * 2 + (h == 12345));
}
/* ---- the proxy ---- */
static int acalls, aok; static char au[300], ap[300];
static int authfn(const char *u, const char *p) { acalls++; snprintf(au, 300, "%s", u); snprintf(ap, 300, "%s", p); return aok; }
static void auth_(void) {
    start(); mb_open(&m); acalls = 0; uint8_t b[300]; int bad = 0, fn = mc_pick(2, "function"); aok = mc_pick(2, "accepts"); uint8_t ex[8]; int nex = 0, xrc = 0, xerr = 0; size_t end;
    if(mc_arg == 0) { /* every list of methods */
        static const int ms[] = {0, 2, 1, 255}; int n = mc_pick(5, "methods"), na = 0, up = 0; b[0] = 5; b[1] = n; for(int i = 0; i < n; ++i) { b[2 + i] = ms[mc_pick(4, "method")]; if(b[2 + i] == 0) na = 1; if(b[2 + i] == 2) up = 1; }
        int big = n == 4 && mc_pick(2, "many"); if(big) { uint8_t t[4]; memcpy(t, b + 2, 4); for(int i = 0; i < 255; ++i) b[2 + i] = 3 + i % 200; memcpy(b + 2 + (mc_pick(2, "end") ? 251 : 0), t, 4); b[1] = n = 255; }
        mb_feed(&m, b, 2 + n); end = 2 + n; ex[nex++] = 5;
        if(!fn && na) { ex[nex++] = 0; }
        else if(fn && up) { ex[nex++] = 2; uint8_t l[] = {1, 1, 'u', 2, 'p', 'q'}; mb_feed(&m, l, 6); end += 6; ex[nex++] = 1; ex[nex++] = aok ? 0 : 255; if(!aok) xrc = -1, xerr = EACCES; }
        else { ex[nex++] = 255; xrc = -1; xerr = EACCES; }
        mb_str(&m, "rest"); int rc = socks5_proxy_auth(m.h, fn ? authfn : NULL, dl), err = errno; mc_step();
        MC_CHECK(rc == xrc && (!rc || err == xerr), rc == xrc ? "errno" : "result", "auth gave %d (%s) instead of %d", rc, strerror(err), xrc);
        if(nex == 4 && !aok) MC_CHECK(m.nout == 4 && !memcmp(m.out, ex, 3) && m.out[3], "response", "wrong response"); else MC_CHECK(m.nout == (unsigned)nex && !memcmp(m.out, ex, nex), "response", "wrong response: %zu bytes", m.nout);
        MC_CHECK(acalls == (nex == 4), "auth", "the function was called %d times", acalls);
    } else { /* credentials */
        mb_feed(&m, "\5\1\2", 3); int w = mc_pick(3, "kind"), n = 1 + mc_pick(255, "user"), k = mc_pick(6, "password"); static const int ls[] = {1, 255, 254, 2, 128, 100}; int l = ls[k];
        if(w) { l = n; n = ls[k]; } 
        uint8_t c[600]; char *u = text(n, 4), *p = text(l, 6); c[0] = w == 2 ? n % 256 : 1; c[1] = n; memcpy(c + 2, u, n); c[2 + n] = l; memcpy(c + 3 + n, p, l); mb_feed(&m, c, 3 + n + l); end = 6 + n + l; mb_str(&m, "rest");
        int rc = socks5_proxy_auth(m.h, authfn, dl), err = errno; mc_step();
        if(c[0] != 1) { MC_CHECK(rc == -1 && err == EPROTO && !acalls, "accepted", "a login of version %d was accepted", c[0]); end = 3 + 3 + n + l; }
        else { MC_CHECK(acalls == 1 && !strcmp(au, u) && !strcmp(ap, p), "credentials", "the credentials arrived changed (%d calls, %s, %s)", acalls, au, ap); MC_CHECK((rc == 0) == aok && (aok || err == EACCES), "result", "auth gave %d (%s)", rc, strerror(err)); MC_CHECK(m.nout == 4 && !memcmp(m.out, "\5\2\1", 3) && !m.out[3] == aok, "response", "wrong response"); }
    }
    MC_CHECK(m.pos <= end, "overread", "%zu bytes were read instead of %zu", m.pos, end);
    char r[4]; if(!xrc && mc_arg == 0) { MC_CHECK(m.pos == end, "overread", "%zu bytes instead of %zu", m.pos, end); MC_CHECK(brecv(m.h, r, 4, dl) == 0 && !memcmp(r, "rest", 4), "after", "the stream is not aligned"); }
    MC_CHECK(!m.closed, "close", "the socket was closed"); hclose(m.h); mc_obs(mc_mix(mc_hash(m.in, m.nin, 1), mc_hash(m.out, m.nout, fn))); mc_state(mc_mix(xrc, acalls)); (void)bad;
}
/* Bytes which no C string can hold. */
static void nul_(void) {
    start(); mb_open(&m); int k = mc_pick(4, "where"), p = mc_pick(4, "position"), port = 1; acalls = 0; aok = 1; char host[300]; struct ipaddr a; uint8_t l[] = {5, 1, 2, 1, 4, 'u', 's', 'e', 'r', 4, 'p', 'a', 's', 's'}, c[] = {5, 1, 0, 3, 4, 'a', '.', 'b', 'c', 0, 80};
    memset(host, 0, 300);
    if(k < 2) { l[(k ? 10 : 5) + p] = 0; mb_feed(&m, l, sizeof l); int rc = socks5_proxy_auth(m.h, authfn, dl); mc_step(); MC_CHECK(rc == -1 && !acalls, "truncated", "credentials with a NUL were taken for %s / %s", au, ap); MC_CHECK(m.nout != 4 || m.out[3], "response", "success was reported"); }
    else { c[5 + p] = 0; mb_feed(&m, c, sizeof c); int rc = k == 2 ? socks5_proxy_recvcommandbyname(m.h, host, &port, dl) : socks5_proxy_recvcommand(m.h, &a, dl); mc_step(); MC_CHECK(rc == -1 && errno == EPROTO, "truncated", "a name with a NUL was taken for %s", host); }
    hclose(m.h); mc_obs(k * 4 + p);
}
static const char *hosts(const char *path) {
    if(strstr(path, "hosts")) return "127.0.0.1 localhost\n9.8.7.6 known\nfe80::99 known6\n";
    if(strstr(path, "resolv")) return "nameserver 192.0.2.53\n"; if(strstr(path, "nsswitch")) return "hosts: files\n"; return NULL;
}
static void command_(void) {
    start(); mb_open(&m); vk_file = hosts; vk_memleak_ok = 1; uint8_t b[300]; size_t n; int byname = mc_pick(2, "by name"), x = 0, k, v = 1; char want_[300]; struct ipaddr wa; int port = 0x1234; memset(&wa, 0, sizeof wa);
    if(mc_arg == 0) {
        k = mc_pick(4, "field"); v = mc_pick(16, "hi") * 16; v += mc_pick(16, "lo"); int at = mc_pick(2, "type"); mkaddr(&wa, at, port, 3); n = wireaddr(b, 1, &wa);
        if(k == 3) { if(v == 1 && at) { mkaddr(&wa, 0, 0, 3); n = wireaddr(b, 1, &wa); port = 0; } else if(v == 4 && !at) { mkaddr(&wa, 1, 7, 4); n = wireaddr(b, 1, &wa); port = 7; } else if(v == 3) { mc_trivial(); hclose(m.h); return; } }
        b[k] = v; x = (k == 0 && v != 5) || (k == 1 && (v < 1 || v > 3)) || (k == 2 && v) || (k == 3 && v != 1 && v != 4); if(k == 1) ; else v = 1;
    } else if(mc_arg == 1) { /* addresses and ports */
        k = mc_pick(2, "IPv6"); static const int ports[] = {0, 1, 80, 255, 256, 0x1234, 0xff00, 65535}; port = ports[mc_pick(8, "port")]; mkaddr(&wa, k, port, mc_pick(5, "address")); v = 1 + mc_pick(3, "command"); n = wireaddr(b, v, &wa);
    } else { /* names */
        int l = 1 + mc_pick(255, "name"); char *t = text(l, 3); port = mc_pick(2, "port") * 443; 
        if(!byname) { static const char *ks[] = {"localhost", "known", "1.2.3.4", "known6", "::5"}; int q = mc_pick(5, "host"); if(l > 1) { mc_trivial(); hclose(m.h); return; } t = (char*)ks[q]; l = strlen(t); mkaddr(&wa, q > 2, port, 0); static const uint32_t ad[] = {0x7f000001, 0x09080706, 0x01020304}; if(q < 3) ((struct sockaddr_in*)&wa)->sin_addr.s_addr = htonl(ad[q]); else { if(q == 4) inet_pton(AF_INET6, "::5", &((struct sockaddr_in6*)&wa)->sin6_addr); else inet_pton(AF_INET6, "fe80::99", &((struct sockaddr_in6*)&wa)->sin6_addr); } }
        n = wire(b, 1, 3, t, l, port); strcpy(want_, t);
    }
    mb_feed(&m, b, n); mb_str(&m, "rest"); char host[264]; memset(host, 0x77, sizeof host); int p = -1; struct ipaddr a; memset(&a, 0x77, sizeof a);
    int rc = byname ? socks5_proxy_recvcommandbyname(m.h, host, &p, dl) : socks5_proxy_recvcommand(m.h, &a, dl), err = errno; mc_step();
    mc_log("recvcommand = %d (%s)", rc, rc < 0 ? strerror(err) : "ok");
    if(x) MC_CHECK(rc == -1 && err == EPROTO, "accepted", "a malformed command gave %d (%s)", rc, strerror(err));
    else {
        MC_CHECK(rc == v, "result", "the command %d gave %d (%s)", v, rc, strerror(err)); MC_CHECK(m.pos == n, "overread", "%zu bytes were read instead of %zu", m.pos, n);
        if(byname) { if(mc_arg != 2) inet_ntop(((struct sockaddr*)&wa)->sa_family, ((struct sockaddr*)&wa)->sa_family == AF_INET ? (void*)&((struct sockaddr_in*)&wa)->sin_addr : (void*)&((struct sockaddr_in6*)&wa)->sin6_addr, want_, 300);
            MC_CHECK(!strcmp(host, want_) && p == port, "target", "%s:%d instead of %s:%d", host, p, want_, port); for(int i = 256; i < 264; ++i) MC_CHECK(host[i] == 0x77, "overrun", "overrun"); }
        else { MC_CHECK(ipaddr_port(&a) == port, "target", "port %d instead of %d", ipaddr_port(&a), port); MC_CHECK(ipaddr_equal(&a, &wa, 0), "target", "another address"); }
        char r[4]; MC_CHECK(brecv(m.h, r, 4, dl) == 0 && !memcmp(r, "rest", 4), "after", "the stream is not aligned");
    }
    MC_CHECK(m.pos <= n + 4 && !m.nout, "overread", "overread"); hclose(m.h); mc_obs(mc_mix(mc_hash(b, n, 1), rc)); mc_state(mc_mix(rc, byname));
}
static void sendreply_(void) {
    start(); mb_open(&m); struct ipaddr a; int r = mc_pick(9, "reply"); static const int ports[] = {0, 1, 80, 255, 256, 0x1234, 65535}; mkaddr(&a, mc_pick(2, "IPv6"), ports[mc_pick(7, "port")], mc_pick(5, "address"));
    uint8_t b[64]; size_t n = wireaddr(b, r, &a); MC_CHECK(socks5_proxy_sendreply(m.h, r, &a, dl) == 0, "reply", "sendreply: %s", strerror(errno)); mc_step();
    MC_CHECK(m.nout == n && !memcmp(m.out, b, n), "reply", "wrong reply"); hclose(m.h); mc_obs(mc_hash(b, n, 1));
}
static void pbroken_(void) { /* the client's end breaks, stalls, is cancelled */
    start(); int call = mc_pick(4, "call"), how = mc_pick(4, "how"); size_t c = mc_pick(30, "where"); static const int es[] = {EPIPE, ECONNRESET, 0, 0}; mb_open(&m); uint8_t b[64]; size_t n, no = 0; struct ipaddr a; mkaddr(&a, 1, 80, 3); int out = mc_pick(2, "direction");
    if(call == 0) { n = 14; memcpy(b, "\5\1\2\1\4user\4pass", n); no = 4; } else if(call == 1) n = wireaddr(b, 1, &a); else if(call == 2) n = wire(b, 1, 3, "namename", 8, 80); else { n = 0; no = 22; }
    if(out) { mb_feed(&m, b, n); m.outlimit = c; m.outend = es[how]; } else { mb_feed(&m, b, c < n ? c : n); m.inend = es[how]; }
    dl = how == 2 ? now() + 3 : -1; aok = 1; g_rc = 7; g_host = NULL;
    extern void pco(int call); int h = go(pco(call)); msleep(now() + 6); hclose(h); mc_step();
    int whole = out ? c >= no : c >= n;
    if(whole) MC_CHECK(g_rc >= 0, "refused", "the proxy failed: %s", strerror(g_err)); else MC_CHECK(g_rc == -1 && g_err == (how == 2 ? ETIMEDOUT : how == 3 ? ECANCELED : es[how]), g_rc >= 0 ? "false-success" : "errno", "the proxy gave %d (%s)", g_rc, strerror(g_err));
    MC_CHECK(!m.closed, "close", "closed"); hclose(m.h); mc_obs(mc_mix(c, mc_mix(call, how * 2 + out)));
}
coroutine void pco(int call) { struct ipaddr a; char h[256]; int p; mkaddr(&a, 1, 80, 3); g_rc = call == 0 ? socks5_proxy_auth(m.h, authfn, dl) : call == 1 ? socks5_proxy_recvcommand(m.h, &a, dl) : call == 2 ? socks5_proxy_recvcommandbyname(m.h, h, &p, dl) : socks5_proxy_sendreply(m.h, 0, &a, dl); g_err = errno; }
/* ---- both ends ---- */
static int P[2], X; static int plogin, pname;
static coroutine void pc(void) {
    struct ipaddr a; mkaddr(&a, pname == 1, 443, 3); const char *u = plogin ? text(plogin == 2 ? 255 : 3, 1) : NULL, *w = plogin ? text(plogin == 2 ? 255 : 4, 2) : NULL;
    int rc = pname < 2 ? socks5_client_connect(P[0], u, w, &a, -1) : socks5_client_connectbyname(P[0], u, w, "some.name", 443, -1);
    if(plogin && !aok) { MC_CHECK(rc == -1 && errno == EACCES, "pair", "client: %d", rc); return; } if(X) { MC_CHECK(rc == -1 && errno == replyerr(X), "pair", "client: %s", strerror(errno)); return; }
    MC_CHECK(rc == 0, "pair", "client: %s", strerror(errno)); char b[3]; MC_CHECK(bsend(P[0], "abc", 3, -1) == 0 && brecv(P[0], b, 3, -1) == 0 && !memcmp(b, "xyz", 3), "pair", "client data");
}
static coroutine void pp(void) {
    int rc = socks5_proxy_auth(P[1], plogin ? authfn : NULL, -1); if(plogin && !aok) { MC_CHECK(rc == -1, "pair", "auth: %d", rc); return; } MC_CHECK(rc == 0, "pair", "auth: %s", strerror(errno)); if(plogin) MC_CHECK(strlen(au) == (plogin == 2 ? 255 : 3) && strlen(ap) == (plogin == 2 ? 255 : 4), "pair", "credentials");
    char h[256]; int p; struct ipaddr a; mkaddr(&a, 0, 9, 3); rc = socks5_proxy_recvcommandbyname(P[1], h, &p, -1); MC_CHECK(rc == SOCKS5_CONNECT && p == 443, "pair", "command: %d", rc); MC_CHECK(pname < 2 || !strcmp(h, "some.name"), "pair", "name %s", h);
    MC_CHECK(socks5_proxy_sendreply(P[1], X, &a, -1) == 0, "pair", "reply"); if(X) return; char b[3]; MC_CHECK(bsend(P[1], "xyz", 3, -1) == 0 && brecv(P[1], b, 3, -1) == 0 && !memcmp(b, "abc", 3), "pair", "proxy data");
}
static void pair_(void) {
    start(); vk.cap = 16; vk.short_rw = vk.eagain = 1; MC_CHECK(ipc_pair(P) == 0, "pair", "ipc_pair"); plogin = mc_pick(3, "login"); aok = plogin ? mc_pick(2, "accepted") : 1; pname = mc_pick(3, "target"); X = mc_pick(2, "reply") * 4;
    int b = bundle(); bundle_go(b, pc()); bundle_go(b, pp()); MC_CHECK(bundle_wait(b, now() + 50) == 0, "hung", "not finished"); hclose(b); hclose(P[0]); hclose(P[1]); mc_step();
}
struct mc_scn mc_scns[] = {
    {"client", "every length class of credentials, every target, ports", client_, 0, 0, 0},
    {"client-answers", "every kind of answer at every step", client_, 0, 0, 1},
    {"reply", "every value of each of the first four bytes of a reply", reply_, 0, 0, 0},
    {"client-broken", "the connection breaks, stalls or is cancelled at every byte", broken_, 0, 0, 0},
    {"limits", "arguments beyond the limits", limits_, 0, 0, 0},
    {"handles", "invalid handles", handles_, 0, 0, 0},
    {"methods", "every list of up to 4 methods of 4 kinds, and long ones", auth_, 0, 0, 0},
    {"credentials", "every length of the user name and the password", auth_, 0, 0, 1},
    {"nul", "names and credentials with a NUL", nul_, 0, 0, 0},
    {"command", "every value of each of the first four bytes of a command", command_, 0, 0, 0},
    {"command-addr", "addresses, ports and commands", command_, 0, 0, 1},
    {"command-name", "every length of a name; known names and literals", command_, 0, 0, 2},
    {"sendreply", "every reply, address and port", sendreply_, 0, 0, 0},
    {"proxy-broken", "the connection breaks, stalls or is cancelled at every byte", pbroken_, 0, 0, 0},
    {"pair", "both ends over an IPC pair, every split of reads and writes", pair_, 1, 2, 0},
    {0}};
