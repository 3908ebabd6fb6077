/* C16: HTTP/1.1 heads. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include <unistd.h>
#include <stdlib.h>

const char *mc_property = "C16";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread; the socket is used by one coroutine at a time",
    "the underlying bytestream is a mock (exact wire image, ends and delays at any byte) or an IPC connection over the virtual kernel",
    "where RFC 7230 leaves the treatment of an irregular line to the recipient (several blanks, leading blanks, blanks before the colon), both refusing it and splitting it at the blanks are accepted", NULL};

static struct mb m;
static int attach(void) { int s = http_attach(mb_open(&m)); MC_CHECK(s >= 0, "attach", "http_attach: %s", strerror(errno)); return s; }
static void wire(const char *exp, size_t n, const char *what) {
    MC_CHECK(m.nout == n && !memcmp(m.out, exp, n), "wire", "%s wrote %zu bytes '%.*s' instead of '%.*s'", what, m.nout, (int)m.nout, m.out, (int)n, exp);
}
static int isctl(const char *s, int tabok) { for(; *s; ++s) if(((uint8_t)*s < 32 && !(tabok && *s == '\t')) || *s == 127) return 1; return 0; }
static const char *pickstr(char *b, const char *alpha, int na, int max, const char *what) {
    int n = mc_pick(max + 1, what);
    for(int i = 0; i < n; ++i) b[i] = alpha[mc_pick(na, what)];
    b[n] = 0; return b;
}
static const char *show(const char *s) { static char b[4][160]; static int k; char *o = b[k++ & 3], *p = o; for(; *s && p < o + 140; ++s) if((uint8_t)*s > 31 && (uint8_t)*s < 127) *p++ = *s; else p += sprintf(p, "\\x%02x", (uint8_t)*s); *p = 0; return o; }

/* ---- what is written ---- */
static const char alpha[] = "A/ \r\n\t\x7f\x01\xc3:";
static void sendreq(void) {
    int s = attach(); char c[8], r[8], w[64];
    int few = mc_thorough ? 10 : 8;
    pickstr(c, alpha, few, 2, "command"); pickstr(r, alpha, few, mc_thorough ? 3 : 2, "resource");
    int rc = http_sendrequest(s, c, r, -1), err = errno;
    int bad = !*c || !*r || isctl(c, 0) || isctl(r, 0) || strchr(c, ' ') || strchr(r, ' ');
    int must = !bad && !strpbrk(c, "/:\xc3");
    if(bad) MC_CHECK(rc == -1 && err == EINVAL, "refuse", "sendrequest('%s', '%s') gave %d", show(c), show(r), rc);
    if(must) MC_CHECK(rc == 0, "send", "sendrequest('%s', '%s'): %s", show(c), show(r), strerror(err));
    if(rc == 0) wire(w, sprintf(w, "%s %s HTTP/1.1\r\n", c, r), "sendrequest"); else { MC_CHECK(err == EINVAL, "errno", "errno %s", strerror(err)); wire("", 0, "a refused sendrequest"); }
    hclose(s); mc_step(); mc_obs(rc); mc_state(mc_mix(bad, must));
}
static void sendstat(void) {
    int s = attach(); char r[8], w[64];
    int st = mc_arg ? mc_pick(101, "status") * 10 + mc_pick(10, "status") - 5 : 200;
    if(!mc_arg) pickstr(r, alpha, 10, 3, "reason"); else strcpy(r, mc_pick(2, "reason") ? "OK" : "");
    int rc = http_sendstatus(s, st, r, -1), err = errno;
    int bad = st < 100 || st > 599 || isctl(r, 1);
    if(bad) { MC_CHECK(rc == -1 && err == EINVAL, "refuse", "sendstatus(%d, '%s') gave %d", st, show(r), rc); wire("", 0, "a refused sendstatus"); }
    else { MC_CHECK(rc == 0, "send", "sendstatus(%d, '%s'): %s", st, show(r), strerror(err)); wire(w, sprintf(w, "HTTP/1.1 %d %s\r\n", st, r), "sendstatus"); }
    hclose(s); mc_step(); mc_obs(rc); mc_state(st);
}
static const char *strip(const char *v, int tab, char *b) {
    const char *blanks = tab ? " \t" : " ";
    v += strspn(v, blanks); strcpy(b, v); int n = strlen(b);
    while(n && strchr(blanks, b[n - 1])) b[--n] = 0;
    return b;
}
static void sendfld(void) {
    int s = attach(); char n[8], v[8], w[64], w2[64], b[16];
    int both = mc_arg;
    if(both == 0) pickstr(n, "aZ-(),/:;<=>?@[\\]{}\" \t\n\r\x01\x7f", 27, 2, "name"); else strcpy(n, mc_pick(2, "name") ? "Name" : "");
    if(both == 0) strcpy(v, "x"); else pickstr(v, "a  \t\r\n\x7f\x01\xc3:", 10, 4, "value");
    int rc = http_sendfield(s, n, v, -1), err = errno;
    int bad = !*n || strpbrk(n, "(),/:;<=>?@[\\]{}\" ") || isctl(n, 0) || isctl(v, 1);
    int blank = !*strip(v, 1, b);
    if(bad) MC_CHECK(rc == -1 && err == EINVAL, "refuse", "sendfield('%s', '%s') gave %d (%s)", show(n), show(v), rc, strerror(err));
    else if(!blank) MC_CHECK(rc == 0, "send", "sendfield('%s', '%s'): %s", show(n), show(v), strerror(err));
    if(rc == 0) {
        int l1 = sprintf(w, "%s: %s\r\n", n, strip(v, 0, b)), l2 = sprintf(w2, "%s: %s\r\n", n, strip(v, 1, b));
        if(m.nout == (size_t)l1 && !memcmp(m.out, w, l1)) ; else wire(w2, l2, "sendfield");
    } else { MC_CHECK(err == EINVAL || (blank && err == EPROTO), "errno", "errno %s", strerror(err)); wire("", 0, "a refused sendfield"); }
    hclose(s); mc_step(); mc_obs(rc); mc_state(mc_mix(blank, bad));
}
/* ---- what is read ---- */
/* A caller's buffer of a given size, followed by a canary. */
static char *guard(size_t n) { char *p = malloc(n + 16); memset(p, 0xEE, n + 16); return p; }
static void guarded(char *p, size_t n, const char *what) { for(int i = 0; i < 16; ++i) MC_CHECK((uint8_t)p[n + i] == 0xEE, "overrun", "%s: byte %d behind a buffer of %zu was written", what, i, n); }
static int bufsize(const char *exp, const char *what) { int n = strlen(exp); int k = mc_pick(3, what); return k == 0 ? n + 1 : k == 1 ? n : 0; }
static char line[4096]; static int linelen;
static void add(const char *s, int n) { memcpy(line + linelen, s, n); linelen += n; }
static int hasbad(void) { return memchr(line, 0, linelen) || memchr(line, '\r', linelen) || memchr(line, '\n', linelen); }
static int words(char (*w)[64], int max) {
    int n = 0, i = 0;
    while(i < linelen) {
        while(i < linelen && line[i] == ' ') ++i;
        if(i == linelen) break;
        int st = i; while(i < linelen && line[i] != ' ') ++i;
        if(n < max) { memcpy(w[n], line + st, i - st); w[n][i - st] = 0; }
        n++;
    }
    return n;
}
static void recvreq(void) {
    static const struct {const char *s; int n;} tok[] = {{" ", 1}, {"HTTP/1.1", 8}, {"G", 1}, {"/", 1}, {"X", 1}, {"\t", 1}, {"HTTP/1.0", 8}, {"\0", 1}, {"\r", 1}, {"\n", 1}};
    linelen = 0; int n = mc_arg + mc_thorough, na = mc_arg == 5 ? 10 : 6;
    for(int i = 0; i < n; ++i) { int k = mc_pick(na + 1, "token"); if(k == na) break; add(tok[k].s, tok[k].n); }
    if(!linelen || (linelen > 1 && line[0] == '\r' && line[1] == '\n') || memmem(line, linelen, "\r\n", 2)) { mc_trivial(); return; }
    int s = attach(); mb_feed(&m, line, linelen); mb_feed(&m, "\r\nbody", 6); m.inend = EPIPE;
    if(line[linelen - 1] == '\r') { /* "\r\r\n": the line includes the first CR */ }
    char w[3][64]; int nw = words(w, 3);
    int ok = nw == 3 && !strcmp(w[2], "HTTP/1.1") && !hasbad();
    char reg[256]; int strict = ok && snprintf(reg, sizeof reg, "%s %s %s", w[0], w[1], w[2]) == linelen && !isctl(w[0], 0) && !isctl(w[1], 0) && !strpbrk(w[0], "/");
    int c = ok ? bufsize(w[0], "command size") : 100, r = ok ? bufsize(w[1], "resource size") : 100;
    char *cb = guard(c), *rb = guard(r);
    int rc = http_recvrequest(s, cb, c, rb, r, -1), err = errno;
    guarded(cb, c, "command"); guarded(rb, r, "resource");
    if(rc == 0) {
        MC_CHECK(ok, "accepted", "the line '%s' (%d bytes) was accepted as a request", show(line), linelen);
        MC_CHECK(c > (int)strlen(w[0]) && r > (int)strlen(w[1]), "overrun", "accepted although the buffers are too small");
        MC_CHECK(!strcmp(cb, w[0]) && !strcmp(rb, w[1]), "split", "'%s' was split into '%s' and '%s'", show(line), show(cb), show(rb));
    } else {
        MC_CHECK(rc == -1, "result", "recvrequest gave %d", rc);
        int small = ok && (c <= (int)strlen(w[0]) || r <= (int)strlen(w[1]));
        if(strict) MC_CHECK(small && err == EMSGSIZE, "refused", "the line '%s' gave %s (buffers of %d and %d)", show(line), strerror(err), c, r);
        else MC_CHECK(err == EPROTO || (small && err == EMSGSIZE), "errno", "the line '%s' gave %s", show(line), strerror(err));
    }
    free(cb); free(rb); hclose(s); mc_step(); mc_obs(mc_mix(rc, mc_hash(line, linelen, 0))); mc_state(mc_mix(strict, nw));
}
static void recvstat(void) {
    static const struct {const char *s; int n;} tok[] = {{" ", 1}, {"HTTP/1.1", 8}, {"200", 3}, {"OK", 2}, {"9", 1}, {"HTTP/1.0", 8}, {"x", 1}, {"\t", 1}, {"\0", 1}, {"\r", 1}, {"\n", 1}};
    linelen = 0; int n = mc_arg + mc_thorough, na = mc_arg == 5 ? 11 : 6;
    for(int i = 0; i < n; ++i) { int k = mc_pick(na + 1, "token"); if(k == na) break; add(tok[k].s, tok[k].n); }
    if(!linelen || memmem(line, linelen, "\r\n", 2)) { mc_trivial(); return; }
    int s = attach(); mb_feed(&m, line, linelen); mb_feed(&m, "\r\nbody", 6); m.inend = EPIPE;
    char w[3][64]; int nw = words(w, 3);
    int dig = nw >= 2 && strlen(w[1]) == 3 && strspn(w[1], "0123456789") == 3;
    int ok = nw >= 2 && !strcmp(w[0], "HTTP/1.1") && dig && !hasbad();
    int strict = ok && linelen >= 13 && !memcmp(line, "HTTP/1.1 ", 9) && line[12] == ' ' && line[9] != ' ';
    char reason[256] = "", st[256];
    if(ok) { int i = 0; while(line[i] == ' ') ++i; i += 8; while(line[i] == ' ') ++i; i += 3; while(i < linelen && line[i] == ' ') ++i; memcpy(reason, line + i, linelen - i); reason[linelen - i] = 0; }
    int r = ok ? bufsize(reason, "reason size") : 100;
    char *rb = guard(r);
    int rc = http_recvstatus(s, rb, r, -1), err = errno;
    guarded(rb, r, "reason");
    if(rc >= 0) {
        MC_CHECK(ok, "accepted", "the line '%s' (%d bytes) was accepted as a status", show(line), linelen);
        MC_CHECK(rc == atoi(w[1]), "split", "the status is %d in '%s'", rc, show(line));
        char a[256], b[256]; strip(reason, 1, a);
        MC_CHECK(memchr(rb, 0, r) != NULL, "overrun", "the reason is not terminated");
        MC_CHECK(!strcmp(strip(rb, 1, b), a), "split", "the reason is '%s' in '%s'", show(rb), show(line));
    } else {
        int small = ok && r <= (int)strlen(reason);
        if(strict && atoi(w[1]) >= 100 && atoi(w[1]) <= 599) MC_CHECK(small && err == EMSGSIZE, "refused", "the line '%s' gave %s (buffer of %d)", show(line), strerror(err), r);
        else MC_CHECK(err == EPROTO || (small && err == EMSGSIZE), "errno", "the line '%s' gave %s", show(line), strerror(err));
    }
    free(rb); hclose(s); mc_step(); mc_obs(mc_mix(rc, mc_hash(line, linelen, 0))); mc_state(mc_mix(strict, nw));
}
static void recvfld(void) {
    static const char al[] = "a: b\t-\0\r\n\xc3";
    linelen = 0; int n = mc_arg + mc_thorough, na = mc_arg == 4 ? 10 : 5;
    for(int i = 0; i < n; ++i) { int k = mc_pick(na + 1, "char"); if(k == na) break; add(al + k, 1); }
    if(!linelen || memmem(line, linelen, "\r\n", 2)) { mc_trivial(); return; }
    int s = attach(); mb_feed(&m, line, linelen); mb_feed(&m, "\r\nq: r\r\n\r\nbody", 14); m.inend = EPIPE;
    char *col = memchr(line, ':', linelen); char nm[64] = "", vl[64] = "", x[64], y[64]; int strict = 0, ok = 0;
    if(col && !hasbad()) {
        memcpy(x, line, col - line); x[col - line] = 0; memcpy(y, col + 1, linelen - (col + 1 - line)); y[linelen - (col + 1 - line)] = 0;
        strip(x, 0, nm); strip(y, 1, vl);
        ok = *nm != 0 && !strchr(nm, ' ') && !isctl(nm, 0); strict = ok && !strcmp(nm, x) && strspn(nm, "ab-") == strlen(nm);
    }
    int c = ok ? bufsize(nm, "name size") : 20, r = ok ? bufsize(vl, "value size") : 20;
    char *cb = guard(c), *rb = guard(r);
    int rc = http_recvfield(s, cb, c, rb, r, -1), err = errno;
    guarded(cb, c, "name"); guarded(rb, r, "value");
    if(rc == 0) {
        MC_CHECK(ok, "accepted", "the line '%s' (%d bytes) was accepted as a field", show(line), linelen);
        MC_CHECK(c > (int)strlen(nm) && r > (int)strlen(vl), "overrun", "'%s' accepted although the buffers are too small", show(line));
        MC_CHECK(!strcmp(cb, nm) && !strcmp(rb, vl), "split", "'%s' was split into '%s' and '%s'", show(line), show(cb), show(rb));
    } else {
        MC_CHECK(rc == -1, "result", "recvfield gave %d", rc);
        int small = ok && (c <= (int)strlen(nm) || r <= (int)strlen(vl));
        if(strict) MC_CHECK(small && err == EMSGSIZE, "refused", "the line '%s' gave %s (buffers of %d and %d)", show(line), strerror(err), c, r);
        else MC_CHECK(err == EPROTO || (small && err == EMSGSIZE) || (ok && c <= col - line && err == EMSGSIZE), "errno", "the line '%s' gave %s", show(line), strerror(err));
    }
    /* The next field is not affected. */
    char q[8], v[8];
    rc = http_recvfield(s, q, 8, v, 8, -1); MC_CHECK(rc == 0 && !strcmp(q, "q") && !strcmp(v, "r"), "next", "the field behind '%s': %d (%s)", show(line), rc, strerror(errno));
    rc = http_recvfield(s, q, 8, v, 8, -1); MC_CHECK(rc == -1 && errno == EPIPE, "end", "the end of the fields: %d (%s)", rc, strerror(errno));
    int u = http_detach(s, -1); MC_CHECK(u >= 0, "detach", "detach: %s", strerror(errno));
    MC_CHECK(m.nin - m.pos == 4, "overread", "%zu bytes are left instead of 4", m.nin - m.pos);
    wire("\r\n", 2, "detach"); hclose(u);
    free(cb); free(rb); mc_step(); mc_obs(mc_mix(rc, mc_hash(line, linelen, 0))); mc_state(mc_mix(strict, ok));
}
/* Lines around the limit. */
static void longline(void) {
    int s = attach(); int n = mc_pick(3, "about") ; int len = (n == 0 ? 1018 : n == 1 ? 2040 : 60) + mc_pick(12, "length");
    int kind = mc_pick(3, "kind"), ws = mc_pick(3, "blanks");
    memset(line, 'v', sizeof line);
    const char *pre = kind == 0 ? "name:" : kind == 1 ? "HTTP/1.1 200 " : "GET "; int pl = strlen(pre); memcpy(line, pre, pl);
    if(kind == 2) memcpy(line + len - 9, " HTTP/1.1", 9);
    if(ws == 1) memset(line + pl, ' ', kind == 2 ? 1 : 20); if(ws == 2 && kind < 2) memset(line + len - 3, ' ', 3);
    mb_feed(&m, line, len); mb_feed(&m, "\r\n\r\nbody", 8); m.inend = EPIPE;
    int bs = 2100; char *a = guard(bs), *b = guard(bs); a[0] = b[0] = 0;
    int rc = kind == 0 ? http_recvfield(s, a, bs, b, bs, -1) : kind == 1 ? http_recvstatus(s, b, bs, -1) : http_recvrequest(s, a, bs, b, bs, -1);
    int err = errno; guarded(a, bs, "first"); guarded(b, bs, "second");
    if(rc >= 0) {
        int cnt = 0; for(char *p = b; *p; ++p) cnt += *p == 'v';
        int exp = 0; for(int i = 0; i < len; ++i) exp += line[i] == 'v';
        MC_CHECK(cnt == exp, "truncated", "%d of %d bytes of the line were delivered", cnt, exp);
    } else MC_CHECK(err == EMSGSIZE && len > 1000, "long", "line of %d bytes: %s", len, strerror(err));
    free(a); free(b); hclose(s); mc_step(); mc_state(mc_mix(len, rc >= 0)); mc_obs(rc);
}
/* Every sequence of operations. */
static void ops_(void) {
    int s = attach(); int nf = mc_pick(3, "fields");
    mb_str(&m, "GET /r HTTP/1.1\r\n"); for(int i = 0; i < nf; ++i) mb_str(&m, i ? "n2: v2\r\n" : "n1: v1\r\n"); mb_str(&m, "\r\n"); size_t head = m.nin; mb_str(&m, "BODY");
    size_t cut = mc_pick(2, "cut") ? mc_pick(head + 1, "where") : m.nin + 1;
    int e = 0; if(cut <= head) { m.nin = cut; int x[] = {EPIPE, ECONNRESET, 0}; e = m.inend = x[mc_pick(3, "then")]; }
    int64_t dl = now() + 7; int n = mc_arg + mc_thorough; size_t exp = 0; char want[256]; int outdone = 0, pos = 0, inerr = 0, detached = 0;
    size_t ends[8]; ends[0] = 17; for(int i = 1; i <= nf; ++i) ends[i] = 17 + 8 * i; ends[nf + 1] = head;
    int ended = 0;
    for(int i = 0; i < n && !detached; ++i) {
        char a[16] = "", b[16] = ""; int op = mc_pick(6, "operation"), rc, err;
        mc_step(); errno = 0;
        switch(op) {
        case 0: rc = http_sendrequest(s, "PUT", "/x", dl); err = errno; if(outdone) MC_CHECK(rc == -1 && err == EPIPE, "after-done", "sendrequest after done gave %d (%s)", rc, strerror(err)); else { MC_CHECK(rc == 0, "send", "%s", strerror(err)); exp += sprintf(want + exp, "PUT /x HTTP/1.1\r\n"); } break;
        case 1: rc = http_sendfield(s, "F", " g ", dl); err = errno; if(outdone) MC_CHECK(rc == -1 && err == EPIPE, "after-done", "sendfield after done gave %d (%s)", rc, strerror(err)); else { MC_CHECK(rc == 0, "send", "%s", strerror(err)); exp += sprintf(want + exp, "F: g\r\n"); } break;
        case 2: rc = http_done(s, dl); err = errno; if(outdone) MC_CHECK(rc == -1 && err == EPIPE, "after-done", "second done gave %d (%s)", rc, strerror(err)); else { MC_CHECK(rc == 0, "done", "%s", strerror(err)); exp += sprintf(want + exp, "\r\n"); outdone = 1; } break;
        case 3: case 4: {
            rc = op == 3 ? http_recvfield(s, a, 16, b, 16, dl) : http_recvrequest(s, a, 16, b, 16, dl); err = errno;
            if(ended) { MC_CHECK(rc == -1 && err == EPIPE, "end", "receiving after the end gave %d (%s)", rc, strerror(err)); break; }
            if(inerr || ends[pos] > m.nin) { MC_CHECK(rc == -1, "false-success", "receiving an incomplete line succeeded"); int x = inerr ? ECONNRESET : e ? e : ETIMEDOUT; MC_CHECK(err == x || (e == EPIPE && err == EPIPE), "errno", "receiving an incomplete line gave %s instead of %s", strerror(err), strerror(x)); inerr = 1; break; }
            if(pos == nf + 1) { ended = 1; }
            int isreq = pos == 0, last = pos == nf + 1; pos++;
            if(last) MC_CHECK(rc == -1 && err == EPIPE, "end", "the empty line gave %d (%s)", rc, strerror(err));
            else if(isreq != (op == 4)) MC_CHECK(rc == -1 && err == EPROTO, "garbage", "the wrong kind of line gave %d (%s)", rc, strerror(err));
            else { MC_CHECK(rc == 0, "recv", "%s", strerror(err)); if(isreq) MC_CHECK(!strcmp(a, "GET") && !strcmp(b, "/r"), "split", "request"); else { char t[8]; sprintf(t, "n%d", pos - 1); MC_CHECK(!strcmp(a, t), "split", "field name %s", a); t[0] = 'v'; MC_CHECK(!strcmp(b, t), "split", "field value %s", b); } }
            break; }
        case 5: {
            int u = http_detach(s, dl); err = errno; detached = 1;
            if(!outdone) exp += sprintf(want + exp, "\r\n");
            if(ended || (!inerr && head <= m.nin)) {
                MC_CHECK(u >= 0, "detach", "detach: %s", strerror(err)); MC_CHECK(m.pos == head, "overread", "detach stopped at byte %zu instead of %zu", m.pos, head);
                MC_CHECK(!m.closed, "detach", "detach closed the underlying socket"); hclose(u);
            } else { MC_CHECK(u == -1, "detach", "detach succeeded on a broken head"); int x = inerr ? ECONNRESET : e ? e : ETIMEDOUT; MC_CHECK(err == x || err == EPIPE || err == ECONNRESET, "errno", "detach gave %s instead of %s", strerror(err), strerror(x)); }
            MC_CHECK(hclose(s) == -1 && errno == EBADF, "detach", "the handle is still there after detach");
            break; }
        }
        mc_state(mc_mix(mc_mix(outdone, pos), mc_mix(inerr, detached)));
    }
    wire(want, exp, "the sequence");
    if(!detached) hclose(s);
    MC_CHECK(m.closed == 1, "close", "the underlying socket was closed %d times", m.closed);
    mc_obs(exp * 100 + pos);
}
static void bad_(void) {
    int k = mc_pick(10, "call"), s, e; static struct http_storage st; static struct mm mm;
    int u = mb_open(&m); char a[8], b[8];
    switch(k) {
    case 0: s = http_attach_mem(u, NULL); e = errno; MC_CHECK(s == -1 && e == EINVAL, "bad-args", "NULL storage"); break;
    case 1: s = http_attach(12345); e = errno; MC_CHECK(s == -1 && e == EBADF, "bad-args", "bad handle %d", e); hclose(u); break;
    case 2: s = http_attach(mm_open(&mm)); e = errno; MC_CHECK(s == -1 && e == EPROTO, "bad-args", "not a bytestream: %s", strerror(e)); MC_CHECK(mm.closed == 1, "leak", "the underlying socket was closed %d times", mm.closed); hclose(u); break;
    case 3: e = http_detach(u, -1); MC_CHECK(e == -1 && errno == ENOTSUP, "bad-args", "detach"); hclose(u); break;
    case 4: e = http_done(u, -1); MC_CHECK(e == -1 && errno == ENOTSUP, "bad-args", "done"); hclose(u); break;
    case 5: e = http_sendrequest(u, "A", "B", -1); MC_CHECK(e == -1 && errno == ENOTSUP, "bad-args", "sendrequest"); hclose(u); break;
    case 6: e = http_recvfield(u, a, 8, b, 8, -1); MC_CHECK(e == -1 && errno == ENOTSUP, "bad-args", "recvfield"); hclose(u); break;
    case 7: s = http_attach_mem(u, &st); MC_CHECK(s >= 0, "attach", "attach_mem"); MC_CHECK(http_done(s, -1) == 0, "done", "done"); mb_str(&m, "\r\nx"); u = http_detach(s, -1); MC_CHECK(u >= 0 && m.pos == 2, "detach", "detach: %s", strerror(errno)); hclose(u); break;
    case 8: s = http_attach(u); MC_CHECK(http_sendfield(s, NULL, "x", -1) == -1 && errno == EINVAL, "bad-args", "NULL name"); MC_CHECK(http_sendrequest(s, NULL, "x", -1) == -1 && errno == EINVAL, "bad-args", "NULL command"); MC_CHECK(http_sendstatus(s, 200, NULL, -1) == -1 && errno == EINVAL, "bad-args", "NULL reason"); hclose(s); break;
    case 9: MC_CHECK(http_done(12345, -1) == -1 && errno == EBADF, "bad-args", "done of a bad handle"); MC_CHECK(http_detach(12345, -1) == -1 && errno == EBADF, "bad-args", "detach of a bad handle"); hclose(u); break;
    }
    MC_CHECK(m.closed == 1, "leak", "the underlying socket was closed %d times (call %d)", m.closed, k);
    mc_step(); mc_obs(k);
}
/* A request and a response between two ends. */
static int P[2];
static coroutine void client(void) {
    MC_CHECK(http_sendrequest(P[0], "GET", "/", -1) == 0, "pair", "sendrequest"); MC_CHECK(http_sendfield(P[0], "a", "b", -1) == 0, "pair", "sendfield"); MC_CHECK(http_done(P[0], -1) == 0, "pair", "done");
    char r[8], n[8], v[8]; int rc = http_recvstatus(P[0], r, 8, -1); MC_CHECK(rc == 404 && !strcmp(r, "no"), "pair", "status %d %s", rc, r);
    MC_CHECK(http_recvfield(P[0], n, 8, v, 8, -1) == -1 && errno == EPIPE, "pair", "end");
    P[0] = http_detach(P[0], -1); MC_CHECK(P[0] >= 0, "pair", "detach"); MC_CHECK(bsend(P[0], "xyz", 3, -1) == 0, "pair", "bsend"); char b[3]; MC_CHECK(brecv(P[0], b, 3, -1) == 0 && !memcmp(b, "uvw", 3), "pair", "body");
}
static coroutine void server(void) {
    char c[8], r[8]; MC_CHECK(http_recvrequest(P[1], c, 8, r, 8, -1) == 0 && !strcmp(c, "GET") && !strcmp(r, "/"), "pair", "request: %s", strerror(errno));
    MC_CHECK(http_recvfield(P[1], c, 8, r, 8, -1) == 0 && !strcmp(c, "a") && !strcmp(r, "b"), "pair", "field: %s", strerror(errno));
    MC_CHECK(http_recvfield(P[1], c, 8, r, 8, -1) == -1 && errno == EPIPE, "pair", "end");
    MC_CHECK(http_sendstatus(P[1], 404, "no", -1) == 0, "pair", "sendstatus");
    P[1] = http_detach(P[1], -1); MC_CHECK(P[1] >= 0, "pair", "detach"); MC_CHECK(bsend(P[1], "uvw", 3, -1) == 0, "pair", "bsend"); char b[3]; MC_CHECK(brecv(P[1], b, 3, -1) == 0 && !memcmp(b, "xyz", 3), "pair", "body");
}
static void pair_(void) {
    vk.cap = 8; vk.short_rw = vk.eagain = 1;
    MC_CHECK(ipc_pair(P) == 0, "pair", "ipc_pair"); for(int i = 0; i < 2; ++i) P[i] = http_attach(P[i]);
    int b = bundle(); bundle_go(b, client()); bundle_go(b, server());
    MC_CHECK(bundle_wait(b, now() + 100) == 0, "hung", "the peers have not finished"); hclose(b); hclose(P[0]); hclose(P[1]);
    mc_step();
}
struct mc_scn mc_scns[] = {
    {"sendrequest", "every command and resource of up to 2 (3) characters of 10 classes", sendreq, 0, 0, 0},
    {"sendstatus", "every reason of up to 3 characters of 10 classes", sendstat, 0, 0, 0},
    {"sendstatus-codes", "every status from -5 to 1004", sendstat, 0, 0, 1},
    {"sendfield-name", "every name of up to 2 characters of 27 classes", sendfld, 0, 0, 0},
    {"sendfield-value", "every value of up to 4 characters of 10 classes", sendfld, 0, 0, 1},
    {"recvrequest", "every line of up to 6 (7) tokens of 6 kinds, every buffer size class", recvreq, 0, 0, 6},
    {"recvrequest-ctl", "every line of up to 5 (6) tokens of 10 kinds including NUL, CR and LF", recvreq, 0, 0, 5},
    {"recvstatus", "every line of up to 6 (7) tokens of 6 kinds, every buffer size class", recvstat, 0, 0, 6},
    {"recvstatus-ctl", "every line of up to 5 (6) tokens of 11 kinds including NUL, CR and LF", recvstat, 0, 0, 5},
    {"recvfield", "every line of up to 6 (7) characters of 5 classes, every buffer size class", recvfld, 0, 0, 6},
    {"recvfield-ctl", "every line of up to 4 (5) characters of 10 classes including NUL, CR and LF", recvfld, 0, 0, 4},
    {"long", "lines around 64, 1024 and 2048 bytes", longline, 0, 0, 0},
    {"ops", "every sequence of 4 (5) operations; the head is cut at every byte", ops_, 0, 0, 4},
    {"bad", "invalid arguments and handles", bad_, 0, 0, 0},
    {"pair", "a request and a response over an IPC pair, every split of reads and writes", pair_, 2, 3, 0},
    {0}};
