/* C32: a blocking call of a protocol ends exactly at its deadline or
   cancellation wherever it is stuck, and a call that has all it needs
   succeeds whatever its deadline is. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include <arpa/inet.h>

const char *mc_property = "C32";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "a mock bytestream below that keeps deadlines exactly; the library's own sockets are covered by C08, C09, C10, C18 and C25",
    "TLS is covered by C27", NULL};

static struct mb m; static size_t cut; static int s; static char B[64]; static int V;
static void feed(const void *p, size_t n) { mb_feed(&m, p, n); if(m.nin > cut) m.nin = cut; }
#define F(x) feed(x, sizeof(x) - 1)
static struct ipaddr A;
enum {PREFIX, PREFIX2, SUFFIX, SUFFIX32, TERM, WSC, WSS, HTTP, RAW};
static void under(int k) {
    s = mb_open(&m);
    switch(k) {
    case PREFIX: s = prefix_attach(s, 4, 0); break; case PREFIX2: s = prefix_attach(s, 2, PREFIX_LITTLE_ENDIAN); break;
    case SUFFIX: s = suffix_attach(s, "\r\n", 2); break; case SUFFIX32: s = suffix_attach(s, "0123456789abcdef0123456789ABCDEF", 32); break;
    case TERM: s = term_attach(suffix_attach(s, "\r\n", 2), "END", 3); break;
    case WSC: s = ws_attach_client(s, WS_BINARY | WS_NOHTTP, NULL, NULL, -1); break; case WSS: s = ws_attach_server(s, WS_TEXT | WS_NOHTTP, NULL, 0, NULL, 0, -1); break;
    case HTTP: s = http_attach(s); break;
    }
    if(s < 0) mc_fail("setup", "attach: %s", strerror(errno));
}
static struct iolist il[3];
static void list(void) { il[0] = (struct iolist){B, 2, &il[1], 0}; il[1] = (struct iolist){NULL, 0, &il[2], 0}; il[2] = (struct iolist){B + 2, 38, NULL, 0}; }
static void respond(struct mb *x) {
    (void)x; m.out[m.nout] = 0; if(m.nout < 4 || memcmp(m.out + m.nout - 4, "\r\n\r\n", 4)) return; m.on_out = NULL;
    char *p = strstr((char*)m.out, "Key: "); if(!p) mc_fail("setup", "no key"); char k[WS_KEY_SIZE], a[WS_KEY_SIZE], r[300]; sscanf(p + 5, "%31[^\r]", k); if(ws_response_key(k, a) < 0) mc_fail("setup", "key");
    sprintf(r, "HTTP/1.1 101 OK\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n", a); feed(r, strlen(r));
}
static int login(const char *u, const char *p) { return !strcmp(u, "user") && !strcmp(p, "pw"); }

/* Each operation: what is below, what has arrived, the call. */
#define OPS(O) \
O(raw_send, under(RAW), bsend(s, "hello", 5, dl)) \
O(raw_sendl, under(RAW), (list(), memset(B, 'x', 40), bsendl(s, il, il + 2, dl))) \
O(raw_recv, under(RAW); F("hello"), brecv(s, B, 5, dl)) \
O(raw_recvl, under(RAW); F("hello world, how are you, this is your mockup"), (list(), brecvl(s, il, il + 2, dl))) \
O(prefix_recv, under(PREFIX); F("\0\0\0\5hello"), mrecv(s, B, 40, dl)) \
O(prefix_recvl, under(PREFIX2); F("\5\0hello"), (list(), mrecvl(s, il, il + 2, dl))) \
O(prefix_drop, under(PREFIX); F("\0\0\0\5hello"), mrecvl(s, NULL, NULL, dl)) \
O(prefix_send, under(PREFIX), msend(s, "hello", 5, dl)) \
O(prefix_sendl, under(PREFIX2), (list(), memset(B, 'x', 40), msendl(s, il, il + 2, dl))) \
O(prefix_second, under(PREFIX2); F("\5\0hello\1\0x"), (mrecv(s, B, 40, dl) < 0 ? -1 : mrecv(s, B + 20, 40, dl))) \
O(suffix_recv, under(SUFFIX); F("hel\rlo\r\n"), mrecv(s, B, 40, dl)) \
O(suffix_recvl, under(SUFFIX); F("hello\r\n"), (list(), mrecvl(s, il, il + 2, dl))) \
O(suffix_drop, under(SUFFIX); F("hello\r\n"), mrecvl(s, NULL, NULL, dl)) \
O(suffix_send, under(SUFFIX), msend(s, "hello", 5, dl)) \
O(suffix32, under(SUFFIX32); F("hello0123456789abcdef0123456789ABCDEF"), mrecv(s, B, 60, dl)) \
O(term_recv, under(TERM); F("hello\r\n"), mrecv(s, B, 40, dl)) \
O(term_recvl, under(TERM); F("hello\r\n"), (list(), mrecvl(s, il, il + 2, dl))) \
O(term_eof, under(TERM); F("END\r\n"), (mrecv(s, B, 40, dl) < 0 && errno == EPIPE ? 0 : -1)) \
O(term_send, under(TERM), msend(s, "hello", 5, dl)) \
O(term_done, under(TERM), term_done(s, dl)) \
O(term_detach, under(TERM); F("hello\r\nx\r\nEND\r\n"), s = term_detach(s, dl)) \
O(term_detach2, under(TERM); F("END\r\n"); mrecv(s, B, 40, -1), s = term_detach(s, dl)) \
O(ws_recv, under(WSC); F("\x82\5hello"), mrecv(s, B, 40, dl)) \
O(ws_recvl, under(WSC); F("\x82\5hello"), (list(), mrecvl(s, il, il + 2, dl))) \
O(ws_drop, under(WSC); F("\x82\5hello"), mrecvl(s, NULL, NULL, dl)) \
O(ws_16, under(WSC); F("\x82\x7e\0\5hello"), mrecv(s, B, 40, dl)) \
O(ws_64, under(WSC); F("\x82\x7f\0\0\0\0\0\0\0\5hello"), mrecv(s, B, 40, dl)) \
O(ws_frags, under(WSC); F("\2\2he\0\0\x80\3llo"), mrecv(s, B, 40, dl)) \
O(ws_masked, under(WSS); F("\x81\x85" "abcd\t\6\x0f\x08\x0e"), mrecv(s, B, 40, dl)) \
O(ws_close, under(WSC); F("\x88\5\3\xe8""bye"), (mrecv(s, B, 40, dl) < 0 && errno == EPIPE ? 0 : -1)) \
O(ws_send, under(WSC), msend(s, "hello", 5, dl)) \
O(ws_sends, under(WSS), msend(s, "hello", 5, dl)) \
O(ws_sendl, under(WSS), (list(), memset(B, 'x', 40), msendl(s, il, il + 2, dl))) \
O(ws_send2, under(WSC), ws_send(s, WS_TEXT, "hello", 5, dl)) \
O(ws_sendl2, under(WSS), (list(), memset(B, 'x', 40), ws_sendl(s, WS_BINARY, il, il + 2, dl))) \
O(ws_recv2, under(WSC); F("\x82\5hello"), ws_recv(s, &V, B, 40, dl)) \
O(ws_recvl2, under(WSC); F("\1\2he\x80\3llo"), (list(), ws_recvl(s, &V, il, il + 2, dl))) \
O(ws_done, under(WSC), ws_done(s, 1000, "bye", 3, dl)) \
O(ws_detach, under(WSC); F("\x82\5hello\x88\2\3\xe8"), s = ws_detach(s, 1000, "bye", 3, dl)) \
O(ws_detach2, under(WSS); F("\x88\x80""abcd"); mrecv(s, B, 40, -1), s = ws_detach(s, 1000, NULL, 0, dl)) \
O(ws_client, under(RAW); m.on_out = respond, s = ws_attach_client(m.h, WS_TEXT, "/", "h", dl)) \
O(ws_server, under(RAW); F("GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"), s = ws_attach_server(m.h, WS_TEXT, B, 10, B + 20, 10, dl)) \
O(http_sendrequest, under(HTTP), http_sendrequest(s, "GET", "/", dl)) \
O(http_recvrequest, under(HTTP); F("GET /x HTTP/1.1\r\n"), http_recvrequest(s, B, 10, B + 10, 30, dl)) \
O(http_sendstatus, under(HTTP), http_sendstatus(s, 200, "OK", dl)) \
O(http_recvstatus, under(HTTP); F("HTTP/1.1 200 OK\r\n"), http_recvstatus(s, B, 40, dl)) \
O(http_sendfield, under(HTTP), http_sendfield(s, "n", "value", dl)) \
O(http_recvfield, under(HTTP); F("n: value\r\n"), http_recvfield(s, B, 10, B + 10, 30, dl)) \
O(http_lastfield, under(HTTP); F("\r\n"), (http_recvfield(s, B, 10, B + 10, 30, dl) < 0 && errno == EPIPE ? 0 : -1)) \
O(http_done, under(HTTP), http_done(s, dl)) \
O(http_detach, under(HTTP); F("n: v\r\nm: w\r\n\r\n"), s = http_detach(s, dl)) \
O(socks_connect, under(RAW); F("\5\0\5\0\0\1abcd\0\x50"), socks5_client_connect(m.h, NULL, NULL, &A, dl)) \
O(socks_login, under(RAW); F("\5\2\1\0\5\0\0\1abcd\0\x50"), socks5_client_connect(m.h, "user", "pw", &A, dl)) \
O(socks_byname, under(RAW); F("\5\0\5\0\0\3\1a\0\x50"), socks5_client_connectbyname(m.h, NULL, NULL, "a.example", 80, dl)) \
O(socks_byname2, under(RAW); F("\5\2\1\0\5\0\0\4abcdefghijklmnop\0\x50"), socks5_client_connectbyname(m.h, "user", "pw", "a.example", 80, dl)) \
O(socks_auth, under(RAW); F("\5\2\0\2"), socks5_proxy_auth(m.h, NULL, dl)) \
O(socks_auth2, under(RAW); F("\5\2\0\2\1\4user\2pw"), socks5_proxy_auth(m.h, login, dl)) \
O(socks_refuse, under(RAW); F("\5\2\0\2\1\4user\2px"), (socks5_proxy_auth(m.h, login, dl) < 0 && errno == EACCES ? 0 : -1)) \
O(socks_nomethod, under(RAW); F("\5\2\0\1"), (socks5_proxy_auth(m.h, login, dl) < 0 && errno == EACCES ? 0 : -1)) \
O(socks_refused, under(RAW); F("\5\2\1\1"), (socks5_client_connect(m.h, "user", "pw", &A, dl) < 0 && errno == EACCES ? 0 : -1)) \
O(socks_command, under(RAW); F("\5\1\0\1abcd\0\x50"), socks5_proxy_recvcommand(m.h, (struct ipaddr*)B, dl)) \
O(socks_command6, under(RAW); F("\5\1\0\4abcdefghijklmnop\0\x50"), socks5_proxy_recvcommand(m.h, (struct ipaddr*)B, dl)) \
O(socks_commandname, under(RAW); F("\5\1\0\3\x9""a.example\0\x50"), socks5_proxy_recvcommandbyname(m.h, NB, &V, dl)) \
O(socks_reply, under(RAW), socks5_proxy_sendreply(m.h, 0, &A, dl))

static char NB[300];
#define O(n, p, r) static void p_##n(void) { p; } static long r_##n(int64_t dl) { return r; }
OPS(O)
#undef O
static const struct {const char *name; void (*prep)(void); long (*run)(int64_t);} ops[] = {
#define O(n, p, r) {#n, p_##n, r_##n},
OPS(O)
};
#define NOPS ((int)(sizeof ops / sizeof *ops))

static int op; static long RC; static int ERR, FIN; static int64_t T;
static void prepare(void) { memset(B, 0, sizeof B); memset(NB, 0, sizeof NB); V = 0; s = -1; ops[op].prep(); }
static void drop(void) { if(s >= 0 && s != m.h) hclose(s); if(!m.closed) hclose(m.h); }
static coroutine void bg(int64_t dl) { errno = 0; RC = ops[op].run(dl); ERR = errno; T = now(); FIN = 1; }
static uint64_t sum(void) { uint64_t h = mc_hash(B, sizeof B, 1); h = mc_hash(NB, sizeof NB, h); return mc_mix(h, V); }
static size_t in0, IN, out0, OUT; static uint64_t want;
/* What the call needs when nothing is missing. */
static void dry(void) {
    vk_random_seed = 1; cut = -1; struct sockaddr_in *a = (void*)&A; memset(&A, 0, sizeof A); a->sin_family = AF_INET; a->sin_port = htons(80); a->sin_addr.s_addr = htonl(0x01020304);
    prepare(); in0 = m.pos; out0 = m.nout; int64_t t = now(); errno = 0; long rc = ops[op].run(-1);
    MC_CHECK(rc >= 0, "needs", "%s: with everything there: %s", ops[op].name, strerror(errno)); MC_CHECK(now() == t, "needs", "%s took time", ops[op].name);
    IN = m.pos; OUT = m.nout; want = sum(); drop();
}
static void ended(int h, int64_t dl, const char *where, size_t k) {
    if(dl < 0) { MC_CHECK(!FIN, "ended", "%s without a deadline, %s after %zu bytes: %ld %s", ops[op].name, where, k, RC, strerror(ERR)); int64_t t = now(); int rc = hclose(h); MC_CHECK(rc == 0 && FIN, "cancel", "%s, %s after %zu bytes: not cancelled", ops[op].name, where, k);
        MC_CHECK(RC < 0 && ERR == ECANCELED, "cancel", "%s, %s after %zu bytes, cancelled: %ld %s", ops[op].name, where, k, RC, strerror(ERR)); MC_CHECK(T == t, "cancel", "%s: the cancellation took time", ops[op].name); return; }
    hclose(h);
}
static int64_t deadline(int k) { switch(k) { case 0: return 0; case 1: return now(); case 2: return 1; case 3: return now() + 5; default: return -1; } }
/* Stuck after each number of bytes. */
static void stuck(void) {
    op = mc_pick(NOPS, "operation"); int out = mc_pick(2, "direction"); dry(); size_t a = out ? out0 : in0, b = out ? OUT : IN;
    size_t k = a + mc_pick(b - a + 1, "bytes"); int d = mc_pick(5, "deadline"), again = mc_pick(2, "in a coroutine");
    if(!out) cut = k; prepare(); if(out) m.outlimit = k; cut = out ? (size_t)-1 : k;
    int64_t t0 = now(), dl = deadline(d); FIN = 0; int h = -1; if(dl < 0 || again) { h = go(bg(dl)); if(h < 0) mc_fail("setup", "go"); if(!FIN) msleep(now() + 9); } else { errno = 0; RC = ops[op].run(dl); ERR = errno; T = now(); FIN = 1; }
    if(k == b) { /* nothing is missing */
        MC_CHECK(FIN, "blocks", "%s: blocked though everything is there", ops[op].name); MC_CHECK(RC >= 0, "succeeds", "%s: everything is there, deadline %s: %s", ops[op].name, d == 0 ? "0" : d == 1 ? "now" : d == 2 ? "past" : "in 5 ms", strerror(ERR));
        MC_CHECK(T == t0, "time", "%s took time", ops[op].name); MC_CHECK(sum() == want, "data", "%s: other data than without a deadline", ops[op].name); if(h >= 0) hclose(h);
    } else {
        if(dl < 0) ended(h, dl, out ? "writing" : "reading", k);
        else { MC_CHECK(FIN, "late", "%s, %s after %zu bytes: goes on after its deadline", ops[op].name, out ? "writing" : "reading", k);
            MC_CHECK(RC < 0 && ERR == ETIMEDOUT, "timeout", "%s, %s after %zu bytes, deadline kind %d: %ld %s", ops[op].name, out ? "writing" : "reading", k, d, RC, strerror(ERR));
            MC_CHECK(T == (dl < t0 ? t0 : dl), "time", "%s, %s after %zu bytes: ended after %d ms, deadline after %d ms", ops[op].name, out ? "writing" : "reading", k, (int)(T - t0), (int)(dl - t0)); if(h >= 0) hclose(h); }
    }
    int64_t t = now(); if(k < b && !m.closed && !(out && !strncmp(ops[op].name, "socks", 5))) { errno = 0; long rc = ops[op].run(t + 3); int e = errno; MC_CHECK(rc < 0 && e == ECONNRESET, "again", "%s, %s after %zu bytes, once more: %ld %s", ops[op].name, out ? "writing" : "reading", k, rc, strerror(e)); MC_CHECK(now() == t, "again", "%s blocks after it has failed", ops[op].name); }
    drop(); MC_CHECK(now() == t, "close", "%s: closing blocked", ops[op].name); MC_CHECK(m.closed == 1, "close", "%s: the underlying socket was closed %d times", ops[op].name, m.closed);
    mc_step(); mc_state(mc_mix(mc_mix(op, out), mc_mix(k, d * 2 + again)));
}
/* The connection below survives, what was missing arrives after all: nothing
   may be received, or written, out of step. */
static void step(void) {
    op = mc_pick(NOPS, "operation"); int out = mc_pick(2, "direction"), cancel = mc_pick(2, "cancel"); const char *n = ops[op].name;
    int ok = out ? !strncmp(n, "prefix_send", 11) || !strncmp(n, "suffix_send", 11) : (!strncmp(n, "prefix_", 7) || !strncmp(n, "suffix", 6) || !strncmp(n, "ws_", 3)) && !strstr(n, "send") && !strstr(n, "detach") && !strstr(n, "done") && strncmp(n, "ws_client", 9) && strncmp(n, "ws_server", 9);
    if(!ok || !strcmp(n, "prefix_second")) { mc_trivial(); return; }
    dry(); size_t a = out ? out0 : in0, b = out ? OUT : IN; if(b == a) { mc_trivial(); return; } size_t k = a + mc_pick(b - a, "bytes");
    cut = -1; prepare(); m.forgive = 1; size_t all = m.nin; int64_t t0 = now(); if(out) m.outlimit = k; else m.nin = k;
    FIN = 0; int h = go(bg(cancel ? -1 : t0 + 3)); if(h < 0) mc_fail("setup", "go"); msleep(t0 + 4); hclose(h); MC_CHECK(FIN && RC < 0, "step", "%s: not interrupted after %zu bytes: %ld", n, k, RC);
    memset(B, 0, sizeof B); V = 0; m.nin = all; m.outlimit = -1; errno = 0; long rc = ops[op].run(now() + 3); int e = errno;
    if(out) { MC_CHECK(rc < 0 && e == ECONNRESET, "step", "%s, %zu bytes of a message written: the next one gives %ld %s", n, k, rc, strerror(e)); MC_CHECK(m.nout == k, "step", "%s: bytes are written after the failure", n); }
    else MC_CHECK((rc < 0 && e == ECONNRESET) || (rc >= 0 && k == a && sum() == want), "step", "%s, interrupted after %zu bytes of a message, which arrived then: received %ld %s", n, k - a, rc, strerror(e));
    drop(); mc_step(); mc_state(mc_mix(mc_mix(op, out), mc_mix(k, cancel)));
}
/* Data arrive, or are taken, one byte a millisecond: the deadline is absolute. */
static void slow(void) {
    op = mc_pick(NOPS, "operation"); int how = 1 + mc_pick(3, "direction"); dry();
    int64_t total = 0;
    for(int pass = 0; pass < 2; ++pass) {
        prepare(); m.slow = how; m.rate = 1 + (op & 1); m.rate0 = now(); m.rin = in0; m.rout = out0; int64_t t0 = now();
        if(!pass) { errno = 0; long rc = ops[op].run(-1); MC_CHECK(rc >= 0, "slow", "%s: %s", ops[op].name, strerror(errno)); total = now() - t0; MC_CHECK(sum() == want, "data", "%s: other data from a slow connection", ops[op].name);
            size_t need = 0; if(how & 1) need = IN - in0; if(how & 2 && OUT - out0 > need) need = OUT - out0; MC_CHECK(total == (int64_t)need * m.rate, "slow", "%s took %d ms, the data %d", ops[op].name, (int)total, (int)need * (int)m.rate); drop(); continue; }
        int n = total + 3, d = (n > 240 ? mc_pick((n + 239) / 240, "deadline, high") * 240 : 0) + mc_pick(n > 240 ? 240 : n, "deadline"), kind = mc_pick(2, "cancel"); if(d >= n) { mc_trivial(); drop(); return; } int64_t dl = t0 + (d > total ? d + 40 : d); FIN = 0;
        int h = go(bg(kind ? -1 : dl)); if(h < 0) mc_fail("setup", "go"); if(!FIN) msleep(kind ? t0 + d : dl + 2);
        if(d >= total && (!kind || FIN)) { MC_CHECK(FIN && RC >= 0, "slow", "%s: all was there after %d ms, deadline after %d: %s", ops[op].name, (int)total, (int)(dl - t0), FIN ? strerror(ERR) : "blocked"); MC_CHECK(T == t0 + total, "time", "%s ended after %d ms, all was there after %d", ops[op].name, (int)(T - t0), (int)total); hclose(h); }
        else if(kind && d == total) hclose(h); /* either */
        else if(kind) ended(h, -1, "slow", d);
        else { MC_CHECK(FIN, "late", "%s from a slow connection goes on after its deadline", ops[op].name); MC_CHECK(RC < 0 && ERR == ETIMEDOUT, "timeout", "%s from a slow connection: %ld %s", ops[op].name, RC, strerror(ERR));
            MC_CHECK(T == dl, "time", "%s from a slow connection: ended after %d ms, deadline after %d", ops[op].name, (int)(T - t0), (int)(dl - t0)); hclose(h); }
        int64_t t = now(); drop(); MC_CHECK(now() == t, "close", "%s: closing blocked", ops[op].name);
        mc_step(); mc_state(mc_mix(mc_mix(op, how), mc_mix(d, kind)));
    }
}
/* The proxy has to look a name up and no name server answers. */
static const char *file(const char *p) { return strstr(p, "resolv.conf") ? "nameserver 10.0.0.53\noptions timeout:9 attempts:9\n" : strstr(p, "nsswitch") ? "hosts: files dns\n" : strstr(p, "hosts") ? "127.0.0.1 localhost\n" : NULL; }
static int asked; static void dgram(const struct sockaddr *from, const struct sockaddr *to, const void *p, size_t n) { (void)from; (void)to; (void)p; (void)n; asked++; }
static coroutine void lookup(int64_t dl) { struct ipaddr a; errno = 0; RC = socks5_proxy_recvcommand(m.h, &a, dl); ERR = errno; T = now(); FIN = 1; }
static void names(void) {
    vk_file = file; vk_remote_dgram = dgram; vk_memleak_ok = 1; asked = 0; cut = -1; under(RAW); F("\5\1\0\3\x9""a.example\0\x50"); int slowly = mc_pick(2, "slow"), d = mc_pick(200, "deadline"), kind = mc_pick(2, "cancel"); int64_t t0 = now(), dl = t0 + d; if(slowly) { m.slow = 1; m.rate = 3; m.rate0 = t0; }
    FIN = 0; int h = go(lookup(kind ? -1 : dl)); if(h < 0) mc_fail("setup", "go"); if(!FIN) msleep(kind ? dl : dl + 3);
    if(kind) { MC_CHECK(!FIN, "names", "ended after %d ms: %ld %s", (int)(T - t0), RC, strerror(ERR)); hclose(h); MC_CHECK(FIN && RC < 0 && ERR == ECANCELED && T == dl, "names", "cancelled after %d ms: %d, after %d ms: %ld %s", d, FIN, (int)(T - t0), RC, strerror(ERR)); }
    else { MC_CHECK(FIN, "names", "a name is looked up beyond the deadline"); hclose(h); MC_CHECK(RC < 0 && ERR == ETIMEDOUT && T == dl, "names", "deadline after %d ms; after %d ms: %ld %s", d, (int)(T - t0), RC, strerror(ERR)); }
    if(!asked) mc_trivial(); if(!m.closed) hclose(m.h); mc_step(); mc_state(mc_mix(d, kind * 2 + slowly));
}
struct mc_scn mc_scns[] = {
    {"stuck", "every call, stuck after each byte read or written, every kind of deadline, cancelled", stuck, 0, 0, 0},
    {"slow", "every call over a connection of one byte a millisecond: every deadline and every time of cancellation", slow, 0, 0, 0},
    {"step", "every receiving call of a message protocol interrupted after each byte; then the rest arrives", step, 0, 0, 0},
    {"names", "the name in a command of a socks5 client is looked up and no server answers: every deadline and time of cancellation", names, 0, 0, 0},
    {0}};
