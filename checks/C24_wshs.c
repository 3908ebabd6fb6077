/* C24: WebSocket opening handshake. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include <unistd.h>
#include <ctype.h>

const char *mc_property = "C24";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "a mock bytestream below, or an IPC connection over the virtual kernel; nonces come from the virtual random device",
    "a Connection field with more than one token, and a key that is not proper base64, may be accepted or refused (then the answer must still be right)", NULL};

/* ---- SHA-1 and base64 of the check, validated by RFC 6455's example ---- */
static void sha1(const uint8_t *p, size_t n, uint8_t out[20]) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; static uint8_t b[1024];
    size_t t = (n + 9 + 63) / 64 * 64; memset(b, 0, t); memcpy(b, p, n); b[n] = 0x80;
    for(int i = 0; i < 8; ++i) b[t - 1 - i] = (uint64_t)n * 8 >> (8 * i);
    for(size_t o = 0; o < t; o += 64) {
        uint32_t w[80], a = h[0], B = h[1], c = h[2], d = h[3], e = h[4];
        for(int i = 0; i < 16; ++i) w[i] = (uint32_t)b[o + i * 4] << 24 | b[o + i * 4 + 1] << 16 | b[o + i * 4 + 2] << 8 | b[o + i * 4 + 3];
        for(int i = 16; i < 80; ++i) { uint32_t x = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]; w[i] = x << 1 | x >> 31; }
        for(int i = 0; i < 80; ++i) {
            uint32_t f, k; if(i < 20) f = (B & c) | (~B & d), k = 0x5A827999; else if(i < 40) f = B ^ c ^ d, k = 0x6ED9EBA1; else if(i < 60) f = (B & c) | (B & d) | (c & d), k = 0x8F1BBCDC; else f = B ^ c ^ d, k = 0xCA62C1D6;
            uint32_t x = (a << 5 | a >> 27) + f + e + k + w[i]; e = d; d = c; c = B << 30 | B >> 2; B = a; a = x;
        }
        h[0] += a; h[1] += B; h[2] += c; h[3] += d; h[4] += e;
    }
    for(int i = 0; i < 20; ++i) out[i] = h[i / 4] >> (8 * (3 - i % 4));
}
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void b64(const uint8_t *p, size_t n, char *o) {
    for(size_t i = 0; i < n; i += 3) {
        uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
        *o++ = A64[v >> 18]; *o++ = A64[v >> 12 & 63]; *o++ = i + 1 < n ? A64[v >> 6 & 63] : '='; *o++ = i + 2 < n ? A64[v & 63] : '=';
    }
    *o = 0;
}
/* The size of a proper base64 text, or -1. */
static int unb64(const char *s, uint8_t *o) {
    size_t n = strlen(s); if(n % 4) return -1;
    int k = 0;
    for(size_t i = 0; i < n; i += 4) {
        uint32_t v = 0; int pad = 0;
        for(int j = 0; j < 4; ++j) { const char *q = s[i + j] && s[i + j] != '=' ? strchr(A64, s[i + j]) : NULL; if(!q) { if(s[i + j] != '=' || i + 4 != n || j < 2) return -1; pad++; v <<= 6; continue; } if(pad) return -1; v = v << 6 | (q - A64); }
        o[k++] = v >> 16; if(pad < 2) o[k++] = v >> 8; if(pad < 1) o[k++] = v;
    }
    return k;
}
static void accept_of(const char *key, char *out) {
    char t[400]; uint8_t d[20]; int n = snprintf(t, sizeof t, "%s258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key);
    sha1((uint8_t*)t, n, d); b64(d, 20, out);
}
static void selftest(void) { char o[40]; accept_of("dGhlIHNhbXBsZSBub25jZQ==", o); if(strcmp(o, "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=")) mc_broken("sha1"); }

/* ---- what was written, parsed ---- */
struct head { char line[300]; struct {char n[64], v[300];} f[20]; int nf; size_t len; };
static int parse(const uint8_t *b, size_t n, struct head *h) {
    size_t p = 0; h->nf = -1;
    while(1) {
        const uint8_t *e = memmem(b + p, n - p, "\r\n", 2); if(!e) return 0;
        size_t l = e - (b + p); char s[600]; if(l >= 300) return 0; memcpy(s, b + p, l); s[l] = 0; p += l + 2;
        if(h->nf == -1) { strcpy(h->line, s); h->nf = 0; continue; }
        if(!l) { h->len = p; return 1; }
        char *c = strchr(s, ':'); if(!c || c == s || h->nf == 20) return 0; *c++ = 0; while(*c == ' ') c++;
        if(strlen(s) > 63) return 0; strcpy(h->f[h->nf].n, s); strcpy(h->f[h->nf++].v, c);
    }
}
static const char *field(struct head *h, const char *n) { const char *v = NULL; for(int i = 0; i < h->nf; ++i) if(!strcasecmp(h->f[i].n, n)) { MC_CHECK(!v, "duplicate", "the field %s was written twice", n); v = h->f[i].v; } return v; }

static struct mb m; static int unknown_field;
/* ---- variations ---- */
static char msg[8192]; static int bad, either;
static const char *casing(const char *s, int how) { static char b[4][64]; static int k; k = (k + 1) % 4; int i; for(i = 0; s[i]; ++i) b[k][i] = how == 1 ? tolower(s[i]) : how == 2 ? toupper(s[i]) : s[i]; b[k][i] = 0; return b[k]; }
/* A field written in one of many ways. All are counted as deviations. */
static void put(char **o, const char *name, const char *val, int (*alt)(char *v, const char *good, int k), int nalt) {
    int how = mc_choose(9 + nalt, name); char v[400]; strcpy(v, val);
    const char *fmt = "%s: %s\r\n"; const char *nm = name;
    switch(how) {
    case 1: bad = 1; return;                                             /* missing */
    case 2: *o += sprintf(*o, "%s: %s\r\n", name, val); if(alt) bad = 1; break;    /* twice */
    case 3: fmt = "%s:%s\r\n"; break;
    case 4: fmt = "%s:    %s   \r\n"; break;
    case 5: nm = casing(name, 1); break;
    case 6: nm = casing(name, 2); break;
    case 7: *o += sprintf(*o, "X%s: %s\r\n", name, val); *o += sprintf(*o, "%sX: nonsense\r\n", name); break; /* other fields */
    case 8: bad = 1; nm = "X-Other"; break;
    default: if(how >= 9) { int r = alt(v, val, how - 9); if(r == 1) bad = 1; if(r == 2) either = 1; }
    }
    *o += sprintf(*o, fmt, nm, v);
}
static int alt_upgrade(char *v, const char *g, int k) {
    static const char *s[] = {"WebSocket", "WEBSOCKET", "websocke", "websocket2", "h2c", "websocket, h2c", "web socket", "wwebsocket"};
    strcpy(v, s[k]); return k < 2 ? 0 : k == 5 ? 2 : 1;
}
static int alt_connection(char *v, const char *g, int k) {
    static const char *s[] = {"upgrade", "UPGRADE", "close", "Upgrad", "Upgrade2", "keep-alive, Upgrade", "keep-alive", "Up grade"};
    strcpy(v, s[k]); return k < 2 ? 0 : k == 5 ? 2 : 1;
}
static int alt_version(char *v, const char *g, int k) {
    static const char *s[] = {"12", "14", "1", "130", "013", "13a", "0", "8"}; strcpy(v, s[k]); return k == 4 ? 2 : 1;
}
static int alt_accept(char *v, const char *g, int k) {
    int n = strlen(g);
    if(k < 28) { v[k] = g[k] == '=' ? 'A' : g[k] == 'A' ? 'B' : 'A'; return 1; }
    if(k < 56) { v[k - 28] ^= 0x20; if(!isalpha((uint8_t)g[k - 28])) strcpy(v, "x"); return 1; }
    switch(k - 56) { case 0: v[n - 1] = 0; return 1; case 1: strcat(v, "="); return 1; case 2: strcat(v, "A"); return 1; case 3: memmove(v, v + 1, n); return 1; case 4: accept_of("dGhlIHNhbXBsZSBub25jZQ==", v); return 1; case 5: sprintf(v, "%.14s %s", g, g + 14); return 1; case 6: sprintf(v, "%s %s", g, g); return 1; case 7: memmove(v + 1, v, n + 1); v[0] = 'A'; return 1; }
    return 1;
}
static int alt_key(char *v, const char *g, int k) {
    uint8_t r[48]; for(int i = 0; i < 48; ++i) r[i] = i * 37 + 11;
    if(k < 24) { v[k] = "-"[0]; return k < 22 ? 1 : 2; }                          /* what follows is not base64 */
    if(k < 48) { v[k - 24] = (char)(0x80 + k * 5 % 128); return k - 24 < 22 ? 1 : 2; }
    switch(k - 48) {
    case 0: b64(r, 15, v); return 1; case 1: b64(r, 17, v); return 1; case 2: b64(r, 20, v); return 1; case 3: b64(r, 8, v); return 1; case 4: b64(r, 33, v); return 1;
    case 5: strcpy(v, "="); return 1; case 6: v[22] = 0; return 2; case 7: v[23] = 0; return 2; case 8: strcat(v, "="); return 2; case 9: strcat(v, "junk"); return 2; case 10: v[22] = '\t'; v[23] = '='; return 2;
    case 11: memset(v, 'A', 200); v[200] = 0; return 1; case 12: v[21] = 0; return 1; case 13: strcpy(v, "\xff\xfe\x80\xff"); return 1; case 14: v[21] = v[21] == 'Q' ? 'R' : 'B'; return 2; case 15: strcpy(v, "AAAAAAAAAAAAAAAAAAAAAA=="); return 0;
    }
    return 1;
}
/* ---- the role of a socket shows in its frames ---- */
static void usable(int s, int srv, const char *tail) {
    size_t o = m.nout; uint8_t b[16];
    MC_CHECK(msend(s, "hey", 3, -1) == 0, "attached", "msend after the handshake: %s", strerror(errno));
    MC_CHECK(m.nout == o + (srv ? 5 : 9) && m.out[o + 1] == (srv ? 3 : 0x83), "attached", "the frame sent after the handshake is wrong");
    MC_CHECK(mrecv(s, b, 16, -1) == 2 && !memcmp(b, "\x10\x20", 2), "tail", "the message that followed the handshake at once was not received: %s", strerror(errno));
    hclose(s);
}
static void tail(int srv) { if(srv) mb_feed(&m, "\x82\x82\x01\x02\x03\x04\x11\x22", 8); else mb_feed(&m, "\x82\x02\x10\x20", 4); }
static size_t hlen; static int64_t slow_at; static int cut_at;
static void feed(char *e, int srv) {
    size_t n = e - msg; hlen = n; size_t c = n;
    int e3[] = {EPIPE, ECONNRESET, 0};
    if(mc_arg == 1) { c = mc_pick(16, "cut") * 64; c += mc_pick(64, "cut"); if(c >= n) c = n; if(c < n) { m.inend = e3[mc_pick(3, "then")]; bad = 2; } }
    else if(mc_arg == 2) { c = mc_pick(16, "pause") * 64; c += mc_pick(64, "pause"); if(c > n) c = n; }
    size_t base = m.nin;
    if(bad == 2) { mb_feed(&m, msg, c); return; }
    mb_feed(&m, msg, n); tail(srv);
    if(mc_arg == 2 && c < n) { m.arr[0].upto = base + c; m.arr[0].at = now() + 2; m.narr = 1; }
}
static char ckey[64];
static struct head rq;
static void respond(struct mb *mb_) {
    (void)mb_;
    if(!parse(m.out, m.nout, &rq)) return;
    m.on_out = NULL;
    MC_CHECK(rq.len == m.nout, "request", "more than the request was written");
    const char *k = field(&rq, "Sec-WebSocket-Key"), *v; uint8_t raw[300];
    MC_CHECK(k && unb64(k, raw) == 16, "request", "the key %s is not a 16-byte nonce in base64", k ? k : "(missing)"); strcpy(ckey, k);
    MC_CHECK(!strcmp(rq.line, "GET /chat?x=1 HTTP/1.1"), "request", "the request line is %s", rq.line);
    v = field(&rq, "Host"); MC_CHECK(v && !strcmp(v, "a.example:8080"), "request", "Host is %s", v);
    v = field(&rq, "Upgrade"); MC_CHECK(v && !strcasecmp(v, "websocket"), "request", "Upgrade is %s", v);
    v = field(&rq, "Connection"); MC_CHECK(v && !strcasecmp(v, "Upgrade"), "request", "Connection is %s", v);
    v = field(&rq, "Sec-WebSocket-Version"); MC_CHECK(v && !strcmp(v, "13"), "request", "Sec-WebSocket-Version is %s", v);
    char acc[400]; accept_of(k, acc);
    static const char *lines[] = {"HTTP/1.1 101 Switching Protocols", "HTTP/1.1 101 x", "HTTP/1.1 200 OK", "HTTP/1.1 100 Continue", "HTTP/1.1 404 Not Found", "HTTP/1.1 102 Processing", "HTTP/1.1 110 x", "HTTP/1.0 101 Switching Protocols", "HTTP/2.0 101 x", "HTTP/1.1 1010 x", "HTTP/1.1 10 x", "101", "", "HTTP/1.1 301 Moved", "HTTP/1.1 401 Unauthorized", "HTTP/1.1 501 x"};
    int l = mc_choose(16, "status line"); if(l > 1) bad = 1;
    char *o = msg; o += sprintf(o, "%s\r\n", lines[l]);
    static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; int p = mc_pick(6, "order");
    for(int i = 0; i < 3; ++i) switch(perm[p][i]) {
    case 0: put(&o, "Upgrade", "websocket", alt_upgrade, 8); break;
    case 1: put(&o, "Connection", "Upgrade", alt_connection, 8); break;
    case 2: put(&o, "Sec-WebSocket-Accept", acc, alt_accept, 64); break;
    }
    int x = mc_choose(4, "other"); if(x == 1) o += sprintf(o, "Server: none\r\n"); if(x == 2) o += sprintf(o, "garbage\r\n"), bad = 1; if(x == 3) o += sprintf(o, "Date: Mon, 01 Jan 2018 00:00:00 GMT\r\n");
    o += sprintf(o, "\r\n"); feed(o, 0);
}
static int64_t dl; static int hang;
static void outcome(int s, int err, int srv) {
    mc_step(); mc_log("attach: %d (%s), bad %d either %d", s, s < 0 ? strerror(err) : "ok", bad, either);
    if(s >= 0) {
        MC_CHECK(!bad, bad == 2 ? "false-success" : "accepted", "the handshake was accepted:\n%.*s", (int)hlen, msg);
        MC_CHECK(m.pos == hlen, "overread", "%zu bytes were read instead of %zu", m.pos, hlen);
        MC_CHECK(!m.closed, "close", "the underlying socket has been closed");
        if(mc_arg != 1 || 1) usable(s, srv, NULL);
    } else {
        if(!bad && !either) mc_fail("refused", "the handshake failed (%s):\n%.*s", strerror(err), (int)hlen, msg);
        if(hang) MC_CHECK(err == ETIMEDOUT, "errno", "an incomplete handshake gave %s", strerror(err));
        if(bad == 2) { int x = m.inend ? m.inend : ETIMEDOUT; MC_CHECK(err == x || (x == EPIPE && (err == EPROTO || err == ECONNRESET)), "errno", "an incomplete handshake gave %s instead of %s", strerror(err), strerror(x)); }
        else MC_CHECK(err == EPROTO || err == EMSGSIZE || err == EPIPE, "errno", "a refused handshake gave %s", strerror(err));
        MC_CHECK(m.pos <= hlen, "overread", "%zu bytes were read of %zu", m.pos, hlen);
    }
    MC_CHECK(m.closed == 1, "leak", "the underlying socket was closed %d times", m.closed);
    mc_state(mc_mix(bad, s < 0 ? err : 0)); mc_obs(mc_mix(mc_hash(msg, hlen, 1), s < 0 ? err : 0));
}
static void start(void) { selftest(); bad = either = hang = 0; hlen = 0; dl = now() + 20; }
static void client_(void) {
    start(); int mem = mc_pick(2, "mem"); static struct ws_storage st;
    int u = mb_open(&m); m.on_out = respond;
    int s = mem ? ws_attach_client_mem(u, WS_BINARY, "/chat?x=1", "a.example:8080", &st, dl) : ws_attach_client(u, WS_BINARY, "/chat?x=1", "a.example:8080", dl);
    outcome(s, errno, 0);
}
/* Successive nonces differ. */
static void nonce_(void) {
    start(); char first[64]; vk_random_seed = mc_pick(200, "seed");
    for(int i = 0; i < 2; ++i) {
        int u = mb_open(&m); m.on_out = respond; int s = ws_attach_client(u, WS_BINARY, "/chat?x=1", "a.example:8080", dl);
        MC_CHECK(s >= 0, "refused", "attach: %s", strerror(errno)); hclose(s);
        if(!i) strcpy(first, ckey); else MC_CHECK(strcmp(first, ckey), "nonce", "two handshakes used the same key");
    }
    mc_step(); mc_obs(mc_hash(ckey, strlen(ckey), 1));
}
static void server_(void) {
    start(); int mem = mc_pick(2, "mem"); static struct ws_storage st;
    char *o = msg; char key[64]; uint8_t n[16]; for(int i = 0; i < 16; ++i) n[i] = 255 - i * 15; b64(n, 16, key);
    static const char *lines[] = {"GET /chat?x=1 HTTP/1.1", "POST /chat?x=1 HTTP/1.1", "get /chat?x=1 HTTP/1.1", "GET /chat?x=1 HTTP/1.0", "GET /chat?x=1 HTTP/2.0", "GET /chat?x=1", "", "GETT /chat?x=1 HTTP/1.1", "GE /chat?x=1 HTTP/1.1", "GETGETGETGETGETGETGETGETGETGETGETGETGET /chat?x=1 HTTP/1.1", "HTTP/1.1 101 x"};
    int l = mc_choose(11, "request line"); if(l) bad = 1;
    o += sprintf(o, "%s\r\n", lines[l]);
    static const int perm[6][5] = {{0,1,2,3,4},{4,3,2,1,0},{2,0,4,1,3},{3,4,0,2,1},{1,4,3,0,2},{3,1,0,4,2}}; int p = mc_pick(6, "order");
    char *kf = NULL, *ke = NULL;
    for(int i = 0; i < 5; ++i) switch(perm[p][i]) {
    case 0: { char *b = o; put(&o, "Host", "a.example:8080", NULL, 0); if(o != b) { char *q = strstr(b, "a.example:8080\r\nHost:"); if(q) bad = 1; } } break;
    case 1: put(&o, "Upgrade", "websocket", alt_upgrade, 8); break;
    case 2: put(&o, "Connection", "Upgrade", alt_connection, 8); break;
    case 3: kf = o; put(&o, "Sec-WebSocket-Key", key, alt_key, 64); ke = o; break;
    case 4: put(&o, "Sec-WebSocket-Version", "13", alt_version, 8); break;
    }
    int x = mc_choose(4, "other"); if(x == 1) o += sprintf(o, "Origin: http://a.example\r\n"); if(x == 2) o += sprintf(o, "garbage\r\n"), bad = 1; if(x == 3) o += sprintf(o, "Sec-WebSocket-Protocol: a, b\r\n");
    o += sprintf(o, "\r\n");
    /* The key as it is on the wire. */
    char wire[400] = ""; if(ke > kf) { char *c = memchr(kf, ':', ke - kf) + 1; char *e = strstr(c, "\r\n"); while(*c == ' ') c++; while(e > c && (e[-1] == ' ' || e[-1] == '\t')) --e; snprintf(wire, sizeof wire, "%.*s", (int)(e - c), c); }
    if(strstr(wire, "nonsense")) strcpy(wire, key);
    if(kf && !strncmp(kf, "XSec", 4)) strcpy(wire, key);
    int u = mb_open(&m); feed(o, 1);
    static const int rl[] = {64, 10, 9, 1, 0}, hl[] = {64, 15, 14, 1, 0}; static char res[65], host[65]; memset(res, 0x77, 65); memset(host, 0x77, 65);
    int a = mc_choose(5, "resource buffer"), b = mc_choose(5, "host buffer"); if(a > 1 || b > 1) { if(!bad) bad = 1; }
    int s = mem ? ws_attach_server_mem(u, WS_BINARY, rl[a] ? res : NULL, rl[a], hl[b] ? host : NULL, hl[b], &st, dl) : ws_attach_server(u, WS_BINARY, rl[a] ? res : NULL, rl[a], hl[b] ? host : NULL, hl[b], dl), err = errno;
    for(int i = rl[a]; i < 65; ++i) MC_CHECK(res[i] == 0x77, "overrun", "the resource buffer was overrun"); for(int i = hl[b]; i < 65; ++i) MC_CHECK(host[i] == 0x77, "overrun", "the host buffer was overrun");
    if(s >= 0) {
        struct head h; const char *v; char acc[64];
        MC_CHECK(parse(m.out, m.nout, &h) && h.len == m.nout, "response", "the response is not one head: %.*s", (int)m.nout, m.out);
        MC_CHECK(!strncmp(h.line, "HTTP/1.1 101 ", 13), "response", "the status line is %s", h.line);
        v = field(&h, "Upgrade"); MC_CHECK(v && !strcasecmp(v, "websocket"), "response", "Upgrade is %s", v);
        v = field(&h, "Connection"); MC_CHECK(v && !strcasecmp(v, "Upgrade"), "response", "Connection is %s", v);
        v = field(&h, "Sec-WebSocket-Accept"); accept_of(wire, acc); MC_CHECK(v && !strcmp(v, acc), "accept-key", "the accept key is %s instead of %s for %s", v, acc, wire);
        MC_CHECK(!strcmp(res, "/chat?x=1"), "resource", "the resource is %s", res); MC_CHECK(!strcmp(host, "a.example:8080"), "host", "the host is %s", host);
    } else if(bad != 2) MC_CHECK(!memmem(m.out, m.nout, " 101 ", 5), "response", "a refused request was answered by 101");
    outcome(s, err, 1);
}
/* Writing fails at every byte. */
static void out_(void) {
    start(); int srv = mc_pick(2, "server"), u = mb_open(&m), s; static char r[64], h[64];
    m.outlimit = mc_pick(100, "limit") + 100 * mc_pick(3, "limit"); int es[] = {0, EPIPE, ECONNRESET}; m.outend = es[mc_pick(3, "then")];
    if(srv) { char *o = msg + sprintf(msg, "GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"); feed(o, 1); s = ws_attach_server(u, 0, r, 64, h, 64, dl); }
    else { m.on_out = respond; s = ws_attach_client(u, 0, "/chat?x=1", "a.example:8080", dl); }
    int err = errno; mc_step();
    if(m.nout < m.outlimit) { MC_CHECK(s >= 0, "refused", "attach: %s", strerror(err)); m.outlimit = -1; usable(s, srv, NULL); }
    else if(s >= 0) { struct head x; MC_CHECK(parse(m.out, m.nout, &x) && x.len == m.nout, "false-success", "attached though writing failed"); hclose(s); }
    else MC_CHECK(err == (m.outend ? m.outend : ETIMEDOUT) || err == ECONNRESET, "errno", "attach: %s", strerror(err));
    MC_CHECK(m.closed == 1, "leak", "the underlying socket was closed %d times", m.closed); mc_obs(m.nout * 2 + (s >= 0));
}
/* Cancelled or timed out at every moment. */
static int g_srv, g_s, g_err; static char g_r[64], g_h[64];
static coroutine void att(int u) { if(g_srv) g_s = ws_attach_server(u, 0, g_r, 64, g_h, 64, dl); else g_s = ws_attach_client(u, 0, "/chat?x=1", "a.example:8080", dl); g_err = errno; if(g_s >= 0) hclose(g_s); }
static void cancel_(void) {
    start(); g_srv = mc_pick(2, "server"); g_s = -2; int u = mb_open(&m), to = mc_pick(2, "deadline");
    if(g_srv) { char *o = msg + sprintf(msg, "GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"); feed(o, 1); } else m.on_out = respond;
    size_t c = mc_pick(250, "where");
    m.outlimit = mc_pick(2, "write") ? c : -1; int w = m.outlimit != (size_t)-1;
    if(!w && g_srv) { if(c < m.nin) m.nin = c; } else if(!w) { m.inend = 0; m.on_out = NULL; }
    dl = to ? now() + 2 : -1;
    int h = go(att(u)); MC_CHECK(h >= 0, "go", "go"); msleep(now() + 5);
    hclose(h); mc_step();
    MC_CHECK(g_s != -2, "lost", "the coroutine has not finished"); if(g_s < 0) MC_CHECK(g_err == (to ? ETIMEDOUT : ECANCELED), "errno", "attach gave %s", strerror(g_err));
    MC_CHECK(m.closed == 1, "leak", "the underlying socket was closed %d times", m.closed); mc_obs(mc_mix(c, g_s >= 0));
}
/* The helper functions. */
static void keys_(void) {
    selftest(); uint8_t n[16], r[200]; char k[WS_KEY_SIZE + 1], o[WS_KEY_SIZE + 1], w[64], in[64]; memset(k, 0x77, sizeof k); memset(o, 0x77, sizeof o);
    if(mc_arg == 0) {
        for(int i = 0; i < 16; ++i) n[i] = i * 17 + 3; int p = mc_pick(16, "byte"); n[p] = mc_pick(16, "hi") * 16; n[p] += mc_pick(16, "lo"); b64(n, 16, in);
        MC_CHECK(ws_response_key(in, o) == 0, "key", "ws_response_key: %s", strerror(errno)); accept_of(in, w); MC_CHECK(!strcmp(o, w), "accept-key", "%s gave %s instead of %s", in, o, w); MC_CHECK(o[WS_KEY_SIZE] == 0x77, "overrun", "overrun");
        vk_random_seed = p * 16 + n[p] % 16; MC_CHECK(ws_request_key(k) == 0 && unb64(k, r) == 16, "key", "ws_request_key gave %s", k); MC_CHECK(k[WS_KEY_SIZE] == 0x77, "overrun", "overrun");
        mc_obs(mc_hash(in, 24, 1));
    } else {
        int len = mc_pick(40, "length"), q = mc_pick(4, "kind"); static char t[120]; uint8_t x[120]; for(int i = 0; i < 120; ++i) x[i] = i * 91 + 5; b64(x, len, t);
        if(q == 1 && len) t[strlen(t) / 2] = (char)(0x80 + mc_pick(128, "byte")); if(q == 2 && len) t[strlen(t) / 2] = 1 + mc_pick(127, "byte"); if(q == 3) strcat(t, "@@");
        int v = unb64(t, r); errno = 0; int rc = ws_response_key(t, o);
        if(v == 16) MC_CHECK(rc == 0, "key", "%s was refused", t); else if(v >= 0) MC_CHECK(rc == -1 && errno == EPROTO, "key", "%s, %d bytes, gave %d (%s)", t, v, rc, strerror(errno));
        if(rc == 0) { accept_of(t, w); MC_CHECK(!strcmp(o, w), "accept-key", "%s gave %s instead of %s", t, o, w); } mc_obs(mc_hash(t, strlen(t), 1));
    }
    mc_step();
}
static void args_(void) {
    static const char *rs[] = {"/", "", NULL, "/a b", "/a\r\nX: y", "/\x01", "/ok?q=%20#f", "/\x7f", "/\xc3\xa9"}; static const int rbad[] = {0, 1, 1, 1, 1, 1, 0, 1, 2};
    static const char *hs[] = {"h", "", NULL, "h:80", "h\r\nX: y", "h\x01", " h ", "[::1]:80"}; static const int hbad[] = {0, 1, 1, 0, 1, 1, 2, 0};
    int i = mc_pick(9, "resource"), k = mc_pick(8, "host"), mem = mc_pick(2, "mem"); static struct ws_storage st; int u = mb_open(&m); m.inend = ECONNRESET;
    int s = mem ? ws_attach_client_mem(u, 0, rs[i], hs[k], &st, -1) : ws_attach_client(u, 0, rs[i], hs[k], -1), err = errno; mc_step();
    MC_CHECK(s == -1 && m.closed == 1, "leak", "attach gave %d, closed %d", s, m.closed);
    struct head h; int p = parse(m.out, m.nout, &h);
    if(rbad[i] == 1 || hbad[k] == 1) { MC_CHECK(err == EINVAL || err == EPROTO, "errno", "invalid arguments gave %s", strerror(err)); MC_CHECK(!p, "bad-args", "a request with invalid parts was written"); }
    else if(!rbad[i] && !hbad[k]) { MC_CHECK(p, "request", "no request was written: %s", strerror(err)); char t[64]; sprintf(t, "GET %s HTTP/1.1", rs[i]); MC_CHECK(!strcmp(h.line, t) && !strcmp(field(&h, "Host"), hs[k]), "request", "%s, Host %s", h.line, field(&h, "Host")); MC_CHECK(err == ECONNRESET, "errno", "%s", strerror(err)); }
    mc_obs(i * 8 + k);
}
/* Both ends over a connection. */
static int P[2];
static coroutine void cl(void) {
    P[0] = ws_attach_client(P[0], WS_TEXT, "/r", "host", -1); MC_CHECK(P[0] >= 0, "pair", "client: %s", strerror(errno));
    char b[8]; MC_CHECK(msend(P[0], "abc", 3, -1) == 0 && mrecv(P[0], b, 8, -1) == 2 && !memcmp(b, "de", 2), "pair", "client messages: %s", strerror(errno));
}
static coroutine void sv(void) {
    char r[8], h[8], b[8]; P[1] = ws_attach_server(P[1], WS_TEXT, r, 8, h, 8, -1); MC_CHECK(P[1] >= 0, "pair", "server: %s", strerror(errno)); MC_CHECK(!strcmp(r, "/r") && !strcmp(h, "host"), "pair", "%s %s", r, h);
    MC_CHECK(msend(P[1], "de", 2, -1) == 0 && mrecv(P[1], b, 8, -1) == 3 && !memcmp(b, "abc", 3), "pair", "server messages: %s", strerror(errno));
}
static void pair_(void) {
    vk.cap = 32; vk.short_rw = vk.eagain = 1; vk_random_seed = mc_pick(3, "seed"); MC_CHECK(ipc_pair(P) == 0, "pair", "ipc_pair");
    int b = bundle(); if(mc_pick(2, "order")) { bundle_go(b, cl()); bundle_go(b, sv()); } else { bundle_go(b, sv()); bundle_go(b, cl()); }
    MC_CHECK(bundle_wait(b, now() + 50) == 0, "hung", "the handshake has not finished"); hclose(b); hclose(P[0]); hclose(P[1]); mc_step();
}
struct mc_scn mc_scns[] = {
    {"client", "responses with up to 2 (3) deviations out of 130 in any part, every order of the fields", client_, 2, 3, 0},
    {"client-cut", "the response ends or fails at every byte", client_, 0, 1, 1},
    {"client-pause", "a pause at every byte of the response", client_, 0, 1, 2},
    {"nonce", "successive handshakes, 200 states of the random device", nonce_, 0, 0, 0},
    {"server", "requests with up to 2 (3) deviations out of 150 in any part, six orders of the fields", server_, 2, 3, 0},
    {"server-cut", "the request ends or fails at every byte", server_, 0, 1, 1},
    {"server-pause", "a pause at every byte of the request", server_, 0, 1, 2},
    {"out", "writing fails or stalls at every byte", out_, 0, 0, 0},
    {"cancel", "stalled at every byte, then cancelled or timed out", cancel_, 0, 0, 0},
    {"keys", "every value of every byte of a nonce", keys_, 0, 0, 0},
    {"badkeys", "keys of every length up to 39, with every foreign byte", keys_, 0, 0, 1},
    {"args", "resources and hosts, valid or not", args_, 0, 0, 0},
    {"pair", "both ends over an IPC pair, every split of reads and writes", pair_, 1, 1, 0},
    {0}};
