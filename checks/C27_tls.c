// mc: variant=tls redef=tls:SSL_CTX_use_PrivateKey_file:c27_usekey,tls:SSL_CTX_use_certificate_file:c27_usecert
/* C27: TLS sockets. Both ends are the library's, over a wire of the check that
   delays, cuts and corrupts the encrypted stream; or one end is OpenSSL driven
   by the check. The random numbers of OpenSSL are replaced by a deterministic
   sequence, so the bytes on the wire are the same in each execution. */
#include "mc.h"
#include "vk.h"
#include "mock.h"
#include "libdill.h"
#include "libdillimpl.h"
#include <stdlib.h>
#include <stddef.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/crypto.h>

const char *mc_property = "C27";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "OpenSSL (3.0, the installed one) is trusted, with its random numbers replaced by a deterministic sequence; its memory is counted but not checked",
    "the certificate of the server is not verified by the client: the library does not offer it", NULL};

/* ---- OpenSSL's environment ---- */
static uint64_t rs; static long nout_; static long failat = -1, nalloc; static int failed_;
static int rbytes(unsigned char *b, int n) { for(int i = 0; i < n; ++i) { rs += 0x9e3779b97f4a7c15ull; uint64_t z = rs; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; b[i] = z >> 56; } return 1; }
static int rstatus(void) { return 1; }
static RAND_METHOD rmeth = {NULL, rbytes, NULL, NULL, rbytes, rstatus};
static int deny(void) { if(failat < 0) return 0; if(nalloc++ == failat) { failed_ = 1; return 1; } return 0; }
/* Not AddressSanitizer's heap, which is much slower; blocks freed twice are found by their mark. */
void *__libc_malloc(size_t); void *__libc_realloc(void*, size_t); void __libc_free(void*);
#define LIVE 0x11ebeef5a11d5eedull
static void *omalloc(size_t n, const char *f, int l) { if(deny()) return NULL; uint64_t *p = __libc_malloc(n + 16); if(!p) return NULL; nout_++; p[0] = LIVE; return p + 2; }
static void ofree(void *q, const char *f, int l) { if(!q) return; uint64_t *p = (uint64_t*)q - 2; if(p[0] != LIVE) mc_fail("double-free", "OpenSSL's memory is freed twice"); p[0] = ~LIVE; nout_--; __libc_free(p); }
static void *orealloc(void *q, size_t n, const char *f, int l) { if(!q) return omalloc(n, f, l); if(!n) { ofree(q, f, l); return NULL; } if(deny()) return NULL; uint64_t *p = __libc_realloc((uint64_t*)q - 2, n + 16); return p ? p + 2 : NULL; }
static char cert[512], key[512];
__attribute__((constructor)) static void init_(void) {
    if(!CRYPTO_set_mem_functions(omalloc, orealloc, ofree)) abort();
    snprintf(cert, sizeof cert, "%s", __FILE__); strcpy(strrchr(cert, '/'), "/data/tls-"); strcpy(key, cert); strcat(cert, "cert.pem"); strcat(key, "key.pem");
}

/* Parsing of the files takes OpenSSL longer than all the rest: it is done once. */
static EVP_PKEY *thekey; static X509 *thecert;
int c27_usekey(SSL_CTX *c, const char *f, int t) { return thekey && f && !strcmp(f, key) && t == SSL_FILETYPE_PEM ? SSL_CTX_use_PrivateKey(c, thekey) : SSL_CTX_use_PrivateKey_file(c, f, t); }
int c27_usecert(SSL_CTX *c, const char *f, int t) { return thecert && f && !strcmp(f, cert) && t == SSL_FILETYPE_PEM ? SSL_CTX_use_certificate(c, thecert) : SSL_CTX_use_certificate_file(c, f, t); }

/* ---- the wire ---- */
enum {NONE, CUT_EOF, CUT_RST, SILENT, XOR, INSERT, DELETE, DELAY, DROPREC, DUPREC, SWAPREC, TRUNCREC};
static const char *fname[] = {"none", "end", "reset", "silence", "corrupted byte", "inserted byte", "deleted byte", "delay", "dropped record", "repeated record", "swapped records", "shortened record"};
#define PB (1 << 18)
struct pp { struct dill_hvfs hv; struct dill_bsock_vfs bv; struct pp *to; int id;
    uint8_t in[PB]; size_t nin, pos; int64_t hold; size_t holdpos; int eof, rst, closed, cap, lastw;
    int fault; size_t off; int val; size_t seen; uint8_t rec[PB]; size_t nrec; int recno; uint8_t kept[20000]; size_t nkept; int hit;
    size_t nread; uint8_t raw[PB]; size_t nraw; int64_t serr_at; int serr; size_t slimit; } P[2];
#define OF(p, T, m) ((T*)((char*)(p) - offsetof(T, m)))
static void put(struct pp *d, const void *b, size_t n) { if(d->nin + n > PB) mc_fail("setup", "wire"); memcpy(d->in + d->nin, b, n); d->nin += n; }
/* Bytes sent to d, through the fault. */
static void wire(struct pp *d, const uint8_t *b, size_t n) {
    if(d->nraw + n > PB) mc_fail("setup", "raw"); memcpy(d->raw + d->nraw, b, n); d->nraw += n;
    if(d->fault >= DROPREC) {
        memcpy(d->rec + d->nrec, b, n); d->nrec += n;
        while(d->nrec >= 5 && d->nrec >= 5u + (d->rec[3] << 8 | d->rec[4])) {
            size_t l = 5 + (d->rec[3] << 8 | d->rec[4]); size_t r = d->recno++;
            if(r == d->off) { d->hit = 1; switch(d->fault) { case DROPREC: break; case DUPREC: put(d, d->rec, l); put(d, d->rec, l); break; case SWAPREC: memcpy(d->kept, d->rec, l); d->nkept = l; break;
                case TRUNCREC: if(l > 6) { d->rec[3] = (l - 6) >> 8; d->rec[4] = l - 6; put(d, d->rec, l - 1); } break; } }
            else { put(d, d->rec, l); if(d->nkept) { put(d, d->kept, d->nkept); d->nkept = 0; } }
            memmove(d->rec, d->rec + l, d->nrec - l); d->nrec -= l;
        }
        return;
    }
    for(size_t i = 0; i < n; ++i, ++d->seen) {
        if(!d->fault || d->seen + (n - i) <= d->off || (d->seen > d->off && d->fault >= XOR)) { put(d, b + i, n - i); d->seen += n - i; return; }
        uint8_t c = b[i];
        if(d->fault && d->seen >= d->off) switch(d->fault) {
            case CUT_EOF: d->eof = 1; d->hit = 1; return; case CUT_RST: d->eof = d->rst = 1; d->hit = 1; return; case SILENT: d->hit = 1; return;
            case XOR: if(d->seen == d->off) { c ^= d->val; d->hit = 1; } break;
            case INSERT: if(d->seen == d->off) { uint8_t x = d->val; put(d, &x, 1); d->hit = 1; } break;
            case DELETE: if(d->seen == d->off) { d->hit = 1; continue; } break;
            case DELAY: if(d->seen == d->off) { d->hit = 1; d->hold = now() + d->val; d->holdpos = d->nin; } break; }
        put(d, &c, 1);
    }
}
static int nap(int64_t deadline) {
    int64_t n = now(); if(n > 5000000) mc_fail("hang", "an operation without a deadline never ends");
    if(deadline >= 0 && n >= deadline) { errno = ETIMEDOUT; return -1; } int64_t t = n + 1; if(deadline >= 0 && t > deadline) t = deadline; return msleep(t);
}
static size_t avail(struct pp *p) { if(p->hold) { if(now() >= p->hold) p->hold = 0; else return p->holdpos - p->pos; } return p->nin - p->pos; }
static int pbrecvl(struct dill_bsock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t deadline) {
    struct pp *p = OF(b, struct pp, bv); if(p->rst == 2) { errno = ECONNRESET; return -1; }
    for(struct dill_iolist *it = f;; it = it->iol_next) {
        size_t done = 0;
        while(done < it->iol_len) {
            size_t k = avail(p); if(k > it->iol_len - done) k = it->iol_len - done;
            if(k) { if(it->iol_base) memcpy((char*)it->iol_base + done, p->in + p->pos, k); p->pos += k; p->nread += k; done += k; continue; }
            if(p->eof && !p->hold) { errno = p->rst ? ECONNRESET : EPIPE; p->rst = p->rst ? 2 : 0; return -1; }
            if(nap(deadline) < 0) { p->rst = 2; return -1; }
        }
        if(it == l) return 0;
    }
}
static int pbsendl(struct dill_bsock_vfs *b, struct dill_iolist *f, struct dill_iolist *l, int64_t deadline) {
    struct pp *p = OF(b, struct pp, bv); if(p->serr) { errno = ECONNRESET; return -1; }
    for(struct dill_iolist *it = f;; it = it->iol_next) {
        for(size_t i = 0; i < it->iol_len;) {
            if(p->slimit) { if(p->slimit == 1) { p->serr = 1; errno = ECONNRESET; return -1; } p->slimit--; }
            if(p->to->closed) { p->serr = 1; errno = ECONNRESET; return -1; }
            size_t k = it->iol_len - i; if(p->slimit) k = 1;
            if(p->to->cap) { long room = p->to->cap - (long)(p->to->nin - p->to->pos); if(room <= 0) { if(nap(deadline) < 0) { p->serr = 1; return -1; } continue; } if(k > (size_t)room) k = room; }
            wire(p->to, (uint8_t*)it->iol_base + i, k); i += k;
        }
        if(it == l) return 0;
    }
}
static void *pq(struct dill_hvfs *v, const void *t) { if(t == dill_bsock_type) return &((struct pp*)v)->bv; errno = ENOTSUP; return NULL; }
static void pclose_(struct dill_hvfs *v) { struct pp *p = (void*)v; MC_CHECK(!p->closed, "double-close", "the underlying socket was closed twice"); p->closed = 1; p->to->eof = 1; if(p->to->fault == SILENT && p->to->hit) p->to->eof = 0; }
static int popen_(int i) { struct pp *p = &P[i]; p->hv.query = pq; p->hv.close = pclose_; p->bv.bsendl = pbsendl; p->bv.brecvl = pbrecvl; p->id = i; p->to = &P[!i]; int h = hmake(&p->hv); if(h < 0) mc_fail("setup", "hmake"); return h; }
static void wire_reset(void) { for(int i = 0; i < 2; ++i) { struct pp *p = &P[i]; memset(p, 0, offsetof(struct pp, in)); p->nin = p->pos = 0; memset((char*)p + offsetof(struct pp, hold), 0, offsetof(struct pp, rec) - offsetof(struct pp, hold)); p->nrec = 0; p->recno = 0; p->nkept = 0; p->hit = 0; p->nread = p->nraw = 0; p->serr = 0; p->slimit = 0; } rs = 42; }

/* ---- an end of the connection ---- */
/* Operations: S n: send, s n: send in two pieces with empty ones; R n: receive, r n: receive into
   several buffers, K n: skip; E: receive after the end; D: done; X: detach; W ms: wait; C: close.
   After detaching S and R are on the underlying socket. */
#define MAXOP 40
struct end { int id, s, raw, dead, mem, fin; const char *prog; char ptext[300]; size_t tx, rx; int doneok; int64_t dl;
    int nop; struct { char op; int n, rc, err; int64_t t; size_t nread; } r[MAXOP]; void *st; } E[2];
static int real, rh[2]; static int64_t tmo = 1000;
static uint8_t pat(int d, size_t i) { return i % 8 == 0 ? i / 8 : "\0ABCDEFG"[i % 8] ^ (d << 5); }
static uint8_t iobuf[2][90000];
static int do_(struct end *e, char c, int n) {
    uint8_t *b = iobuf[e->id]; int64_t d = e->dl = now() + tmo; int rc;
    switch(c) {
    case 'S': for(int i = 0; i < n; ++i) b[i] = pat(e->id, e->tx + i); rc = bsend(e->s, b, n, d); if(rc == 0) e->tx += n; return rc;
    case 's': { for(int i = 0; i < n; ++i) b[i] = pat(e->id, e->tx + i); struct iolist l[5] = {{NULL, 0, l + 1, 0}, {b, n / 3, l + 2, 0}, {b + n / 3, 0, l + 3, 0}, {b + n / 3, n - n / 3, l + 4, 0}, {NULL, 0, NULL, 0}}; rc = bsendl(e->s, l, l + 4, d); if(rc == 0) e->tx += n; return rc; }
    case 'R': case 'r': case 'K': {
        memset(b, 0xEE, n + 8); struct iolist l[6] = {{b, 0, l + 1, 0}, {b, n / 3, l + 2, 0}, {NULL, 0, l + 3, 0}, {b + n / 3, n - n / 3, l + 4, 0}, {NULL, 0, NULL, 0}};
        rc = c == 'r' ? brecvl(e->s, l, l + 4, d) : brecv(e->s, c == 'K' ? NULL : b, n, d); int er = errno;
        for(int i = 0; i < 8; ++i) MC_CHECK(b[n + i] == 0xEE, "overrun", "received past the end of the buffer");
        if(rc == 0) { if(c != 'K' && !(e->raw && P[e->id].fault)) for(int i = 0; i < n; ++i) if(b[i] != pat(!e->id, e->rx + i)) mc_fail("data", "end %d: byte %zu received is %02x, sent %02x", e->id, e->rx + i, b[i], pat(!e->id, e->rx + i)); e->rx += n; MC_CHECK(e->rx <= E[!e->id].tx + 90000, "data", "more received than sent"); }
        errno = er; return rc; }
    case 'E': rc = brecv(e->s, b, 1, d); return rc;
    case 'D': return tls_done(e->s, d);
    case 'X': rc = tls_detach(e->s, d); { int er = errno, old = e->s; e->s = rc; if(rc >= 0) { e->raw = 1; MC_CHECK(real || hquery(rc, dill_bsock_type) == &P[e->id].bv, "detach", "detached to another socket"); rc = 0; } else e->dead = 1;
        if(e->s != old) { errno = 0; MC_CHECK(!hquery(old, dill_bsock_type) && errno == EBADF, "stale", "the handle is still there after tls_detach"); } errno = er; } return rc;
    case 'W': return msleep(now() + n);
    case 'C': rc = hclose(e->s); e->dead = 1; return rc;
    }
    mc_broken("op"); return -1;
}

static int attach(struct end *e, int64_t d) {
    int s = real ? rh[e->id] : popen_(e->id), h; void *st = NULL; if(e->mem) e->st = st = malloc(sizeof(struct tls_storage)), memset(st, 0x5a, sizeof(struct tls_storage));
    if(e->id == 0) h = st ? tls_attach_client_mem(s, st, d) : tls_attach_client(s, d);
    else h = st ? tls_attach_server_mem(s, cert, key, st, d) : tls_attach_server(s, cert, key, d);
    return h;
}
static void note(struct end *e, char op, int n, int rc, int err) {
    if(e->nop == MAXOP) mc_broken("ops"); e->r[e->nop].op = op; e->r[e->nop].n = n; e->r[e->nop].rc = rc; e->r[e->nop].err = rc < 0 ? err : 0; e->r[e->nop].t = now(); e->r[e->nop].nread = P[e->id].nread; e->nop++;
    mc_log("end %d: %c%d -> %d %s  (read %zu)", e->id, op, n, rc, rc < 0 ? strerror(err) : "", P[e->id].nread);
    if(rc < 0) {
        MC_CHECK(err > 0, "errno", "%c fails without an error code", op);
        if(err == ETIMEDOUT) MC_CHECK(now() == e->dl, "deadline", "%c timed out %d ms from its deadline", op, (int)(now() - e->dl));
        if(err == EPIPE && op != 'D' && op != 'S' && op != 's') MC_CHECK(e->raw || (E[!e->id].doneok && e->rx <= E[!e->id].tx && e->rx + (op == 'E' ? 0 : n) >= E[!e->id].tx + (op == 'E' ? 0 : 1)), "truncated", "end of the stream is reported by %c%d after %zu bytes, the peer sent %zu%s", op, n, e->rx, E[!e->id].tx, E[!e->id].doneok ? "" : " and has not finished");
    }
    if(e->dl >= 0) MC_CHECK(now() <= e->dl || op == 'W' || op == 'C', "deadline", "%c ended %d ms after its deadline", op, (int)(now() - e->dl));
}
static void run(struct end *e) {
    e->dl = now() + tmo; errno = 0; int h = attach(e, e->dl); int er = errno; note(e, 'A', 0, h < 0 ? -1 : 0, er);
    if(h < 0) { MC_CHECK(real || P[e->id].closed, "close", "the underlying socket stays open after a failed handshake"); e->dead = 1; e->s = -1; }
    else { e->s = h; int er2 = 0;
        for(const char *p = e->prog; *p && !e->dead;) {
            char c = *p++; int n = strtol(p, (char**)&p, 10); while(*p == ' ') p++;
            if(c == 'X' || c == 'D') E[e->id].doneok |= 1;   /* from now on the peer may see the end */
            errno = 0; int rc = do_(e, c, n); er = errno; note(e, c, n, rc, er);
            if(c == 'E') { MC_CHECK(rc < 0, "data", "data after the end"); if(er == EPIPE) continue; }
            if(rc < 0) {
                if(c == 'X') MC_CHECK(real || P[e->id].closed, "close", "tls_detach failed but the underlying socket stays open");
                /* the direction is broken for good */
                if(!e->raw && !e->dead && strchr("RrKE", c) && er != EPIPE) { errno = 0; uint8_t b; rc = brecv(e->s, &b, 1, now() + 10); MC_CHECK(rc < 0 && errno == ECONNRESET, "sticky", "receiving after an error: %d %s", rc, strerror(errno)); }
                if(!e->raw && !e->dead && strchr("Ss", c)) { errno = 0; rc = bsend(e->s, "x", 1, now() + 10); MC_CHECK(rc < 0 && errno == ECONNRESET, "sticky", "sending after an error: %d %s", rc, strerror(errno)); }
                break;
            }
        }
        if(!e->dead) { int rc = hclose(e->s); MC_CHECK(rc == 0, "close", "hclose: %s", strerror(errno)); e->dead = 1; }
        MC_CHECK(real || P[e->id].closed, "close", "the underlying socket stays open");
    }
    free(e->st); e->st = NULL; e->fin = 1;
}
static coroutine void side(int i) { run(&E[i]); }
static long base = -1; static int noleak;
static void begin(void) {
    static int once; wire_reset();
    if(!once) { once = 1; RAND_set_rand_method(&rmeth);
        /* everything that OpenSSL allocates once */
        SSL_CTX *c[2]; SSL *s[2]; for(int i = 0; i < 2; ++i) { c[i] = SSL_CTX_new(i ? SSLv23_server_method() : SSLv23_method()); if(i) { SSL_CTX_use_certificate_file(c[i], cert, SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(c[i], key, SSL_FILETYPE_PEM); } if(i) { thekey = SSL_CTX_get0_privatekey(c[i]); EVP_PKEY_up_ref(thekey); thecert = SSL_CTX_get0_certificate(c[i]); X509_up_ref(thecert); } s[i] = SSL_new(c[i]); SSL_set_bio(s[i], BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())); if(i) SSL_set_accept_state(s[i]); else SSL_set_connect_state(s[i]); }
        for(int k = 0; k < 8; ++k) for(int i = 0; i < 2; ++i) { SSL_do_handshake(s[i]); char b[20000]; int n; while((n = BIO_read(SSL_get_wbio(s[i]), b, sizeof b)) > 0) BIO_write(SSL_get_rbio(s[!i]), b, n); }
        if(!SSL_is_init_finished(s[0]) || !SSL_is_init_finished(s[1])) mc_broken("OpenSSL: no handshake");
        for(int i = 0; i < 2; ++i) { SSL_free(s[i]); SSL_CTX_free(c[i]); }
        /* and the library in it */
        P[1].closed = 1; int h = tls_attach_client(popen_(0), 0); MC_CHECK(h < 0, "attach", "attached to a broken socket"); ERR_clear_error(); OPENSSL_thread_stop(); wire_reset();
        h = tls_attach_client(-1, 0); ERR_clear_error(); }
    for(int i = 0; i < 2; ++i) { free(E[i].st); memset(&E[i], 0, sizeof E[i]); E[i].id = i; E[i].s = -1; E[i].prog = ""; }
    real = 0; failat = -1; nalloc = 0; failed_ = 0; ERR_clear_error(); OPENSSL_thread_stop(); base = nout_; tmo = 1000;
}
static void finish(void) {
    failat = -1; OPENSSL_thread_stop(); if(nout_ != base && !noleak) mc_fail("leak", "%ld blocks of OpenSSL's memory are left behind", nout_ - base);
    for(int i = 0; i < 2; ++i) {
        uint8_t k[8]; for(int j = 0; j < 8; ++j) k[j] = pat(!i, 8 + j); /* the plaintext does not appear on the wire */
        if(!E[0].raw && !E[1].raw) MC_CHECK(!memmem(P[i].raw, P[i].nraw, k + 1, 7), "plaintext", "data are on the wire unencrypted"); }
}
static void both(void) {
    int h = go(side(1)); if(h < 0) mc_fail("setup", "go"); run(&E[0]); for(int i = 0; !E[1].fin; ++i) { if(i > 100000) mc_fail("hang", "the other end never finishes"); msleep(now() + 1); } hclose(h); finish();
}
static void ok(void) { for(int i = 0; i < 2; ++i) for(int k = 0; k < E[i].nop; ++k) if(E[i].r[k].rc < 0 && !(E[i].r[k].op == 'E' && E[i].r[k].err == EPIPE)) mc_fail("failed", "end %d: %c%d failed: %s", i, E[i].r[k].op, E[i].r[k].n, strerror(E[i].r[k].err)); }
static void obs(void) { uint64_t h = 0; for(int i = 0; i < 2; ++i) for(int k = 0; k < E[i].nop; ++k) h = mc_mix(h, E[i].r[k].rc * 1000 + E[i].r[k].err); mc_obs(h); mc_state(h); mc_step(); }
static int pickn(int n, const char *what) { if(n <= 200) return mc_pick(n, what); int hi = mc_pick((n + 127) / 128, what), lo = mc_pick(128, what); if(hi * 128 + lo >= n) { mc_trivial(); return -1; } return hi * 128 + lo; }

/* ---- exchange of data ---- */
static const int sizes[] = {0, 1, 2, 5, 100, 512, 513, 16383, 16384, 16385, 32768, 40000};
static void exchange(void) {
    begin(); char *p0 = E[0].ptext, *p1 = E[1].ptext; int d = mc_pick(2, "direction"), n1 = sizes[mc_pick(12, "size")], n2 = sizes[mc_pick(mc_thorough ? 12 : 4, "size 2")], how = mc_pick(3, "send"), rcv = mc_pick(5, "receive"), end = mc_pick(6, "end"), cap = mc_pick(3, "capacity");
    E[0].mem = how & 1; E[1].mem = rcv & 1; P[0].cap = P[1].cap = cap == 0 ? 0 : cap == 1 ? 4096 : 1200; char *a = d ? p1 : p0, *b = d ? p0 : p1; int t = n1 + n2;
    if(how == 0) a += sprintf(a, "S%d S%d ", n1, n2); else if(how == 1) a += sprintf(a, "s%d S%d ", n1, n2); else a += sprintf(a, "s%d W3 s%d ", n2, n1);
    if(rcv == 0) b += sprintf(b, "R%d ", t); else if(rcv == 1) b += sprintf(b, "r%d ", t); else if(rcv == 2) b += sprintf(b, "R%d R%d ", t / 2, t - t / 2); else if(rcv == 3) { int k = t < 7 ? t : 7; b += sprintf(b, "R%d r%d K%d ", k, (t - k) / 2, t - k - (t - k) / 2); } else b += sprintf(b, "K%d R%d ", t / 3, t - t / 3);
    switch(end) {
    case 0: strcpy(a, "D E X S5 R7 C"); strcpy(b, "E D X R5 S7 C"); break;
    case 1: strcpy(a, "X S5 R7 C"); strcpy(b, "X R5 S7 C"); break;
    case 2: strcpy(a, "D R9 E E X S5"); strcpy(b, "E E S9 D X R5"); break;
    case 3: strcpy(a, "S3 R4 X R2"); strcpy(b, "R3 S4 X S2"); break;
    case 4: strcpy(a, "R600 X S5"); strcpy(b, "S600 S20000 X R5"); break;   /* data never received */
    case 5: strcpy(a, "D W20 R1 E X S1"); strcpy(b, "W10 S1 X R1"); break; }
    E[0].prog = p0; E[1].prog = p1; both(); ok(); MC_CHECK(E[0].rx <= E[1].tx && E[1].rx <= E[0].tx, "data", "more was received than sent"); obs();
}

/* ---- faults of the encrypted stream ---- */
static const char *fprog[][2] = {
    {"S100 R10 S40 D E X S5 C", "R100 S10 R40 E D X R5 C"},
    {"R50 S50 X", "S50 R50 X"},
    {"S17000 R3 D E", "R17000 S3 E D"},
    {"D R20 E X", "E S20 X"} };
static struct ref { int set, nop; size_t total, nread[MAXOP], recs; char op[MAXOP]; } ref[4][2];
static void reference(int p) {
    if(ref[p][0].set) return; begin(); E[0].prog = fprog[p][0]; E[1].prog = fprog[p][1]; both(); ok();
    for(int i = 0; i < 2; ++i) { ref[p][i].nop = E[i].nop; for(int k = 0; k < E[i].nop; ++k) { ref[p][i].nread[k] = E[i].r[k].nread; ref[p][i].op[k] = E[i].r[k].op; } ref[p][i].total = P[i].nraw; size_t o = 0; int r = 0; while(o + 5 <= P[i].nraw && P[i].raw[o] >= 20 && P[i].raw[o] <= 23) { r++; o += 5 + (P[i].raw[o + 3] << 8 | P[i].raw[o + 4]); } ref[p][i].recs = r; ref[p][i].set = 1; }
}
static int reads(char op) { return strchr("ARrKEX", op) != NULL; }
/* mc_arg: the fault */
static void cut(void) {
    int prog = mc_pick(mc_thorough ? 4 : 2, "program"); if(!mc_thorough && prog) prog = 3; int v = mc_pick(2, "victim"), f = mc_pick(3, "fault") + CUT_EOF; reference(prog); struct ref *r = &ref[prog][v];
    int off = pickn(r->total, "offset"); if(off < 0) return; if(prog == 2 && off > 3000 && off < (int)r->total - 1500 && off % 16) { mc_trivial(); return; }
    begin(); P[v].fault = f; P[v].off = off; E[0].prog = fprog[prog][0]; E[1].prog = fprog[prog][1]; both();
    /* exactly the operations that need bytes behind the cut fail */
    struct end *e = &E[v]; for(int k = 0; k < r->nop; ++k) {
        int need = r->nread[k] > (size_t)off && reads(r->op[k]);
        if(!need) { MC_CHECK(k < e->nop && (e->r[k].rc == 0 || r->op[k] == 'E'), "failed", "%s at %d of %zu: %c%d needs only %zu bytes but fails: %s", fname[f], off, r->total, r->op[k], k < e->nop ? e->r[k].n : 0, r->nread[k], k < e->nop ? strerror(e->r[k].err) : "not run"); continue; }
        MC_CHECK(k < e->nop && e->r[k].rc < 0, "success", "%s at %d of %zu: %c succeeds although it needs %zu bytes", fname[f], off, r->total, r->op[k], r->nread[k]);
        int raw = 0; for(int j = 0; j < k; ++j) raw |= r->op[j] == 'X';
        int want = f == SILENT ? ETIMEDOUT : f == CUT_EOF && raw ? EPIPE : ECONNRESET; MC_CHECK(e->r[k].err == want || (raw && f == CUT_EOF), "errno", "%s at %d of %zu: %c fails with %s, not %s", fname[f], off, r->total, r->op[k], strerror(e->r[k].err), strerror(want)); break; }
    obs();
}
static void corrupt(void) {
    int prog = mc_thorough ? mc_pick(4, "program") : mc_pick(2, "program") * 3; int v = mc_pick(2, "victim"); static const int fs[] = {XOR, INSERT, DELETE}; int f = fs[mc_pick(3, "fault")]; static const int vals[] = {1, 0x80, 0xff, 2, 4, 8, 16, 32, 64, 3, 0x7f, 0x55}; int val = f == DELETE ? 0 : vals[mc_pick(f == INSERT ? 1 : mc_thorough ? 12 : 2, "value")];
    reference(prog); struct ref *r = &ref[prog][v]; int off = pickn(r->total, "offset"); if(off < 0) return; if(prog == 2 && off > 3000 && off < (int)r->total - 1500 && off % 16) { mc_trivial(); return; }
    begin(); P[v].fault = f; P[v].off = off; P[v].val = val; E[0].prog = fprog[prog][0]; E[1].prog = fprog[prog][1]; both(); obs();
}
static void records(void) {
    int prog = mc_pick(4, "program"), v = mc_pick(2, "victim"), f = mc_pick(4, "fault") + DROPREC; reference(prog); struct ref *r = &ref[prog][v]; int off = pickn(r->recs, "record"); if(off < 0) return;
    begin(); P[v].fault = f; P[v].off = off; E[0].prog = fprog[prog][0]; E[1].prog = fprog[prog][1]; both(); obs();
}
/* A pause in the stream anywhere makes no difference, unless it is longer than the deadline. */
static void delay(void) {
    int prog = mc_thorough ? mc_pick(4, "program") : mc_pick(2, "program") * 3, v = mc_pick(2, "victim"), d = mc_pick(3, "pause"); reference(prog); struct ref *r = &ref[prog][v]; int off = pickn(r->total, "offset"); if(off < 0) return; if(prog == 2 && off > 3000 && off < (int)r->total - 1500 && off % 16) { mc_trivial(); return; }
    begin(); P[v].fault = DELAY; P[v].off = off; P[v].val = d == 0 ? 7 : d == 1 ? 999 : 3000; E[0].prog = fprog[prog][0]; E[1].prog = fprog[prog][1]; both(); if(d == 0) ok(); obs();
}

/* ---- operations that block: deadlines and cancellation ---- */
static int brc, berr, bop, bfin; static int64_t bt, bdl;
static void bl_(void) {
    struct end *e = &E[0]; uint8_t b[10]; int h; static uint8_t out[20000]; memset(out, 'x', sizeof out); errno = 0; bt = now();
    switch(bop) {
    case 0: h = popen_(0); brc = tls_attach_client(h, bdl); break;
    case 1: h = popen_(0); brc = tls_attach_server(h, cert, key, bdl); break;
    case 2: brc = brecv(e->s, b, 10, bdl); break;
    case 3: brc = bsend(e->s, out, 20000, bdl); break;
    case 4: case 5: brc = tls_done(e->s, bdl); break;
    case 6: case 7: case 8: brc = tls_detach(e->s, bdl); break;
    case 9: { struct iolist l[2] = {{b, 1, l + 1, 0}, {b, 9, NULL, 0}}; brc = brecvl(e->s, l, l + 1, bdl); break; }
    case 10: { struct iolist l[2] = {{out, 1, l + 1, 0}, {out, 19000, NULL, 0}}; brc = bsendl(e->s, l, l + 1, bdl); break; }
    }
    berr = errno; bt = now(); bfin = 1;
}
static coroutine void bl(void) { bl_(); }
static void block(void) {
    begin(); bop = mc_pick(11, "operation"); int m = mc_pick(7, "deadline"), after = mc_pick(3, "then"), part = mc_pick(3, "peer"); bfin = 0; static const int64_t ds[] = {0, -5, 1, 30, 200};
    int at = bop < 2; struct end *e = &E[0]; int hp = -1;
    if(!at) { E[1].prog = part ? part == 1 ? "S4 W400 C" : "s4000 W400 C" : "W400 C"; hp = go(side(1)); e->s = attach(e, now() + 1000); MC_CHECK(e->s >= 0, "attach", "%s", strerror(errno)); msleep(now() + 5); }
    if(bop >= 3) P[1].cap = P[1].nin - P[1].pos + (bop == 5 || bop == 7 ? 10 : bop == 6 ? 300 : bop == 4 ? 0 : bop == 8 ? 1 : 1200);
    if(bop == 4) P[1].cap = P[1].nin - P[1].pos ? (int)(P[1].nin - P[1].pos) : 1;
    if(at) { popen_(1); if(part == 1 && bop == 1) put(&P[0], "\x16\x03\x01", 3); if(part == 2) put(&P[0], "\x16\x03\x03\x00\x7a\x02\x00", 7); if(bop == 1 && part == 2) { put(&P[0], "\x16\x03\x01\x01", 4); } }
    int64_t t0 = now(); bdl = m == 0 ? 0 : m < 5 ? t0 + ds[m] : m == 5 ? t0 + 300 : -1; int enough = 0;
    if((bop == 2 || bop == 9) && part == 2) enough = 1;
    int proto = bop == 1 && part == 2;    /* a message that is none */
    if(m < 5) { bl_(); if(enough) MC_CHECK(m == 0 || m == 1 ? brc == 0 || berr == ETIMEDOUT : brc == 0, "failed", "%s", strerror(berr)); else MC_CHECK(brc < 0 && (proto || berr == ETIMEDOUT), "deadline", "operation %d with deadline %d: %d %s", bop, (int)ds[m], brc, strerror(berr));
        int64_t want = bdl > t0 ? bdl : t0; if(!enough && !proto) MC_CHECK(bt == want, "deadline", "operation %d timed out at %d rather than %d", bop, (int)(bt - t0), (int)(want - t0)); }
    else { int h = go(bl()); if(h < 0) mc_fail("setup", "go"); msleep(now() + 10); int was = bfin; t0 = now(); hclose(h); MC_CHECK(bfin, "cancel", "not cancelled"); if(!enough && !proto) { MC_CHECK(!was && brc < 0 && berr == ECANCELED && bt == t0, "cancel", "operation %d: %d %s after %d ms", bop, brc, strerror(berr), (int)(bt - t0)); } }
    P[1].cap = 0; P[1].hold = 0;
    if(at) { MC_CHECK(P[0].closed, "close", "the socket stays open"); }
    else if(bop >= 6 && bop <= 8) { MC_CHECK(P[0].closed, "close", "the socket stays open"); errno = 0; MC_CHECK(hclose(e->s) < 0 && errno == EBADF, "stale", "the handle is still valid"); }
    else { uint8_t b; int rc; errno = 0;
        if(brc < 0 && (bop == 2 || bop == 9)) { rc = brecv(e->s, &b, 1, now() + 10); MC_CHECK(rc < 0 && errno == ECONNRESET, "sticky", "receiving: %d %s", rc, strerror(errno)); rc = bsend(e->s, "x", 1, now() + 10); MC_CHECK(rc == 0, "failed", "sending after a failure to receive: %s", strerror(errno)); }
        if(brc < 0 && (bop == 3 || bop == 10 || bop == 4 || bop == 5)) { rc = bsend(e->s, "x", 1, now() + 10); MC_CHECK(rc < 0 && errno == ECONNRESET, "sticky", "sending: %d %s", rc, strerror(errno)); rc = tls_done(e->s, now() + 10); MC_CHECK(rc < 0 && errno == ECONNRESET, "sticky", "done: %d %s", rc, strerror(errno));
            if(part) { uint8_t c[4]; rc = brecv(e->s, c, 4, now() + 10); MC_CHECK(rc == 0, "failed", "receiving after a failure to send: %s", strerror(errno)); for(int i = 0; i < 4; ++i) MC_CHECK(c[i] == pat(1, i), "data", "wrong data"); } }
        if(after == 0) MC_CHECK(hclose(e->s) == 0, "close", "hclose");
        else if(after == 1) { errno = 0; rc = tls_detach(e->s, now() + 10); MC_CHECK(brc == 0 || (rc < 0 && errno == ECONNRESET), "sticky", "detach: %d %s", rc, strerror(errno)); if(rc >= 0) hclose(rc); }
        else { errno = 0; rc = tls_detach(e->s, -1); if(rc >= 0) hclose(rc); }
        MC_CHECK(P[0].closed, "close", "the socket stays open"); }
    if(hp >= 0) { for(int i = 0; !E[1].fin; ++i) { if(i > 100000) mc_fail("hang", "peer"); msleep(now() + 1); } hclose(hp); }
    E[0].raw = 1; finish(); mc_obs(mc_mix(mc_mix(brc, berr), bop)); mc_state(mc_mix(bop * 8 + m, berr)); mc_step();
}

/* ---- one coroutine sends while another one receives ---- */
static int dn[2][2], dp[2], dfin, dto[2][2]; static size_t dtx[2], drx[2];
static coroutine void dsend(int i) { static uint8_t b[2][9000]; for(int n = dn[i][0]; n;) { int k = n < dn[i][1] ? n : dn[i][1]; for(int j = 0; j < k; ++j) b[i][j] = pat(i, dtx[i] + j); int rc = bsend(E[i].s, b[i], k, dto[i][0] < 0 ? -1 : now() + dto[i][0]); MC_CHECK(rc == 0, "failed", "end %d: send: %s", i, strerror(errno)); dtx[i] += k; n -= k; if(dp[i]) msleep(now() + dp[i]); } int rc = tls_done(E[i].s, now() + 500); MC_CHECK(rc == 0, "failed", "done: %s", strerror(errno)); dfin++; }
static coroutine void drecv(int i) {
    static uint8_t b[2][9000]; int n = dn[!i][0]; while(n) { int k = n < 777 ? n : 777; int rc = brecv(E[i].s, b[i], k, dto[i][1] < 0 ? -1 : now() + dto[i][1]); MC_CHECK(rc == 0, "failed", "end %d: receive: %s", i, strerror(errno)); for(int j = 0; j < k; ++j) MC_CHECK(b[i][j] == pat(!i, drx[i] + j), "data", "end %d: byte %zu is wrong", i, drx[i] + j); drx[i] += k; n -= k; }
    errno = 0; int rc = brecv(E[i].s, b[i], 1, now() + 1000); MC_CHECK(rc < 0 && errno == EPIPE, "end", "end %d: %d %s", i, rc, strerror(errno)); dfin++; }
static coroutine void dattach(int i) { E[i].s = attach(&E[i], now() + 1000); MC_CHECK(E[i].s >= 0, "attach", "%s", strerror(errno)); dfin++; }
static coroutine void ddetach(int i) { int rc = tls_detach(E[i].s, now() + 100); MC_CHECK(rc >= 0, "detach", "%s", strerror(errno)); hclose(rc); dfin++; }
static void duplex(void) {
    begin(); static const int ns[] = {1000, 20000, 0}, ks[] = {8000, 300}; int h[8]; for(int i = 0; i < 2; ++i) { dn[i][0] = ns[mc_pick(3, "bytes")]; dn[i][1] = ks[mc_pick(2, "piece")]; dp[i] = mc_pick(2, "pause") * 3; dtx[i] = drx[i] = 0; dto[i][0] = dto[i][1] = -1; }
    int cap = mc_pick(3, "capacity"), to = mc_pick(3, "deadlines"), ord = mc_pick(4, "order"); for(int i = 0; i < 2; ++i) { dto[i][0] = to == 1 ? 400 : -1; dto[i][1] = to == 2 ? 400 : -1; } P[0].cap = P[1].cap = cap == 0 ? 0 : cap == 1 ? 5000 : 1200;
    dfin = 0; h[0] = go(dattach(0)); h[1] = go(dattach(1)); for(int i = 0; dfin < 2; ++i) { if(i > 3000) mc_fail("hang", "handshake"); msleep(now() + 1); } hclose(h[0]); hclose(h[1]);
    dfin = 0; for(int k = 0; k < 4; ++k) { int j = k ^ ord; h[k] = j & 1 ? go(drecv(j >> 1)) : go(dsend(j >> 1)); } for(int i = 0; dfin < 4; ++i) { if(i > 20000) mc_fail("hang", "data"); msleep(now() + 1); } for(int k = 0; k < 4; ++k) hclose(h[k]);
    dfin = 0; h[0] = go(ddetach(0)); h[1] = go(ddetach(1)); for(int i = 0; dfin < 2; ++i) { if(i > 3000) mc_fail("hang", "detach"); msleep(now() + 1); } hclose(h[0]); hclose(h[1]); finish(); mc_obs(mc_mix(drx[0], drx[1])); mc_state(mc_mix(ord, to)); mc_step();
}
/* Each of them has its own deadline. */
static int drc[2], derr[2]; static int64_t dt[2];
static coroutine void dls(int64_t d) { static uint8_t b[20000]; drc[0] = bsend(E[0].s, b, sizeof b, d); derr[0] = errno; dt[0] = now(); }
static coroutine void dlr(int64_t d) { uint8_t b[10]; drc[1] = brecv(E[0].s, b, 10, d); derr[1] = errno; dt[1] = now(); }
static void duplexdl(void) {
    begin(); static const int64_t ds[] = {20, 50, 100, -1}; int a = mc_pick(4, "send"), b = mc_pick(4, "receive"), ord = mc_pick(2, "first"), gap = mc_pick(3, "gap") * 5; int prog = mc_pick(2, "progress"); if(a == 3 && b == 3) { mc_trivial(); return; }
    E[1].prog = prog ? "W12 S10 W400 C" : "W400 C"; int hp = go(side(1)); E[0].s = attach(&E[0], now() + 1000); MC_CHECK(E[0].s >= 0, "attach", "%s", strerror(errno)); msleep(now() + 5); P[1].cap = P[1].nin - P[1].pos + 1200; if(prog) { P[0].fault = DELAY; P[0].off = P[0].seen + 5; P[0].val = 300; }
    int64_t t0 = now(), d0 = ds[a] < 0 ? -1 : t0 + ds[a], d1 = ds[b] < 0 ? -1 : t0 + ds[b]; dt[0] = dt[1] = 0; int h[2]; for(int i = 0; i < 2; ++i) { if(i && gap) msleep(now() + gap); h[i] = i ^ ord ? go(dlr(d1)) : go(dls(d0)); }
    if(prog) { msleep(t0 + 7); P[1].cap += 17000; } msleep(t0 + 150); int64_t end = now(); hclose(h[0]); hclose(h[1]);
    for(int i = 0; i < 2; ++i) { int64_t d = i ? d1 : d0; MC_CHECK(drc[i] < 0 && derr[i] == (d < 0 ? ECANCELED : ETIMEDOUT) && dt[i] == (d < 0 ? end : d), "deadline", "%s with deadline %d: %s at %d", i ? "receiving" : "sending", (int)(d < 0 ? -1 : d - t0), strerror(derr[i]), (int)(dt[i] - t0)); }
    hclose(E[0].s); E[0].s = -1; while(!E[1].fin) msleep(now() + 1); hclose(hp); E[0].raw = 1; finish(); mc_obs(a * 4 + b); mc_state(a * 4 + b); mc_step();
}

/* ---- failing calls ---- */
static void afaults(void) {   /* OpenSSL's allocations; mc_arg: which part */
    int prog = mc_pick(2, "program"); reference(prog); static long total[2]; 
    if(!total[prog]) { begin(); failat = 1L << 40; E[0].prog = fprog[prog][0]; E[1].prog = fprog[prog][1]; int h = go(side(1)); run(&E[0]); while(!E[1].fin) msleep(now() + 1); hclose(h); total[prog] = nalloc; finish(); }
    int k = pickn(total[prog], "allocation"); if(k < 0) return;
    for(int pass = 0; pass < 2; ++pass) { begin(); noleak = !pass; failat = k; E[0].prog = fprog[prog][0]; E[1].prog = fprog[prog][1]; both(); noleak = 0; } obs();
}
static void vfaults(void) {
    begin(); int fill = mc_pick(8, "handles"), ch[600][2], n = 0;
    if(fill) while(n < 129 - fill) { if(chmake(ch[n])) mc_fail("setup", "chmake"); n++; }
    vk.faults = 1; E[0].mem = mc_pick(2, "mem"); E[1].mem = mc_pick(2, "mem"); E[0].prog = "S10 X"; E[1].prog = "R10 X"; int h = go(side(1)); if(h < 0) { mc_trivial(); return; }
    vk_faults_on(1); run(&E[0]); for(int i = 0; !E[1].fin; ++i) { if(i > 100000) mc_fail("hang", "other end"); msleep(now() + 1); } vk_faults_on(0); hclose(h); for(int i = 0; i < n; ++i) { hclose(ch[i][0]); hclose(ch[i][1]); }
    if(!vk_fault_count) ok(); finish(); obs();
}
/* ---- invalid arguments ---- */
static void args(void) {
    begin(); int c = mc_pick(14, "case"), rc = -1, want = 0, mem = 0; struct tls_storage st; struct mm; int closed = 1; int s = popen_(0); errno = 0; int own = 1;
    switch(c) {
    case 0: rc = tls_attach_client(-1, -1); want = EBADF; own = 0; break;
    case 1: rc = tls_attach_server(-1, cert, key, -1); want = EBADF; own = 0; break;
    case 2: rc = tls_attach_client_mem(s, NULL, -1); want = EINVAL; break;
    case 3: rc = tls_attach_server_mem(s, cert, key, NULL, -1); want = EINVAL; break;
    case 4: { int p = prefix_attach(s, 2, 0); rc = tls_attach_client(p, -1); want = EPROTO; break; }
    case 5: { int p = prefix_attach(s, 2, 0); rc = tls_attach_server(p, cert, key, -1); want = EPROTO; break; }
    case 6: rc = tls_attach_server(s, "/nonexistent", key, -1); want = -1; break;
    case 7: rc = tls_attach_server(s, cert, "/nonexistent", -1); want = -1; break;
    case 8: rc = tls_attach_server(s, key, key, -1); want = -1; break;
    case 9: rc = tls_attach_server(s, cert, cert, -1); want = -1; break;
    case 10: rc = tls_done(s, -1); want = ENOTSUP; own = 0; break;
    case 11: rc = tls_detach(s, -1); want = ENOTSUP; break;
    case 12: rc = tls_done(-1, -1); want = EBADF; own = 0; break;
    case 13: rc = tls_detach(-1, -1); want = EBADF; own = 0; break; }
    int er = errno; MC_CHECK(rc == -1 && (want < 0 ? er > 0 : er == want), "errno", "case %d: %d %s", c, rc, strerror(er)); (void)st; (void)mem; (void)closed;
    MC_CHECK(P[0].closed == own, "close", "case %d: the socket %s", c, own ? "stays open" : "was closed"); if(!own) hclose(s); ERR_clear_error(); E[0].raw = 1; finish(); mc_obs(er); mc_step(); mc_state(c);
}
/* ---- over the library's own sockets ---- */
static void sockets(void) {
    begin(); int kind = mc_pick(2, "socket"), cap = mc_pick(2, "capacity"), prog = mc_pick(3, "program"); vk.short_rw = 1; vk.eagain = 1; vk.cap = cap ? 1500 : 100000; real = 1;
    static const char *pr[][2] = {{"S100 R10 X S5 R5", "R100 S10 X R5 S5"}, {"S17000 D E X S1", "R17000 E D X R1"}, {"R2 r600 K9 D E X", "S1 s610 E D X"}};
    if(kind == 0) { int rc = ipc_pair(rh); if(rc) mc_fail("setup", "ipc_pair"); }
    else { struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 5555, 0); int l = tcp_listen(&a, 1); rh[0] = tcp_connect(&a, now() + 100); do rh[1] = tcp_accept(l, NULL, now() + 100); while(rh[1] < 0 && errno != ETIMEDOUT); if(rh[0] < 0 || rh[1] < 0) { hclose(l); hclose(rh[0]); mc_trivial(); return; } hclose(l); }
    E[0].prog = pr[prog][0]; E[1].prog = pr[prog][1]; P[0].closed = P[1].closed = 1; both(); ok(); obs();
}
/* ---- other implementations: OpenSSL driven by the check ---- */
static struct raw { SSL *ssl; SSL_CTX *ctx; int s, fin, rx; const char *prog; char err[100]; } W;
static void flush(void) { uint8_t b[4096]; int n; while((n = BIO_read(SSL_get_wbio(W.ssl), b, sizeof b)) > 0) bsend(W.s, b, n, now() + 500); }
/* One more record from the library. */
static int feed(void) { static uint8_t b[20000]; flush(); if(brecv(W.s, b, 5, now() + 300) < 0) return -1; int n = b[3] << 8 | b[4]; if(n > 17000 || brecv(W.s, b + 5, n, now() + 300) < 0) return -1; BIO_write(SSL_get_rbio(W.ssl), b, n + 5); return 0; }
/* S n: send; R n: receive; D: close notify; E: wait for it; K, k: key update with or without request; G: renegotiate; T: ticket; F: fatal alert; O: other alert; C: cut the connection; W: wait */
static int rawop(char c, int n) {
    static uint8_t b[40000]; int rc, done = 0; 
    switch(c) {
    case 'H': while((rc = SSL_do_handshake(W.ssl)) != 1) { if(SSL_get_error(W.ssl, rc) != SSL_ERROR_WANT_READ || feed()) { flush(); return -1; } } flush(); return 0;
    case 'S': for(int i = 0; i < n; ++i) b[i] = pat(E[1].id, E[1].tx + i); rc = SSL_write(W.ssl, b, n); if(rc == n) E[1].tx += n; flush(); return rc == n ? 0 : -1;
    case 'R': while(done < n) { rc = SSL_read(W.ssl, b, n - done); if(rc > 0) { for(int i = 0; i < rc; ++i) MC_CHECK(b[i] == pat(0, E[1].rx + i), "data", "the peer received wrong data"); E[1].rx += rc; done += rc; flush(); continue; } if(SSL_get_error(W.ssl, rc) != SSL_ERROR_WANT_READ || feed()) return -1; } flush(); return 0;
    case 'E': while((rc = SSL_read(W.ssl, b, 100)) <= 0) { int er = SSL_get_error(W.ssl, rc); if(er == SSL_ERROR_ZERO_RETURN) return 0; if(er != SSL_ERROR_WANT_READ || feed()) return -1; } return -1;
    case 'D': E[1].doneok = 1; SSL_shutdown(W.ssl); flush(); return 0;
    case 'K': SSL_key_update(W.ssl, SSL_KEY_UPDATE_REQUESTED); SSL_do_handshake(W.ssl); flush(); return 0;
    case 'k': SSL_key_update(W.ssl, SSL_KEY_UPDATE_NOT_REQUESTED); SSL_do_handshake(W.ssl); flush(); return 0;
    case 'G': SSL_renegotiate(W.ssl); SSL_do_handshake(W.ssl); flush(); return 0;
    case 'T': SSL_new_session_ticket(W.ssl); flush(); return 0;
    case 'F': bsend(W.s, "\x15\x03\x03\x00\x02\x02\x28", 7, now() + 100); return 0;
    case 'O': bsend(W.s, "\x15\x03\x03\x00\x02\x01\x5a", 7, now() + 100); return 0;
    case 'J': bsend(W.s, "GET / HTTP/1.0\r\n\r\n", 18, now() + 100); return 0;
    case 'W': msleep(now() + n); return 0;
    case 'C': hclose(W.s); W.s = -1; return 0; }
    mc_broken("rawop"); return -1;
}
static int rawfail; static char rawlast;
static coroutine void rawside(void) { for(const char *p = W.prog; *p;) { char c = *p++; int n = strtol(p, (char**)&p, 10); while(*p == ' ') p++; rawlast = c; int rc = rawop(c, n); mc_log("peer: %c%d -> %d", c, n, rc); if(rc < 0) { rawfail = c; break; } if(W.s < 0) break; } if(W.s >= 0) hclose(W.s); W.s = -1; W.fin = 1; }
struct conv { const char *raw, *lib; int v; /* 1: TLS 1.2 only, 2: 1.3 only */ int want; /* errno of the last operation of the library, 0: success, -1: any error, -2: anything */ int rawok; };
static const struct conv convs[] = {
    {"H R100 S50 D E", "S100 R50 E X", 0, 0, 1}, {"H R100 S50 E D", "S100 R50 D E X", 0, 0, 1}, {"H S20000 R20000 E D", "R20000 S20000 X", 0, 0, 1},
    {"H S1 S0 S1 S300 R5 D E", "R1 R301 S5 E X", 0, 0, 1}, {"H K S10 R10 K R10 S10 D E", "R10 S10 S10 R10 E X", 2, 0, 1}, {"H k S10 k R10 K R5 D E", "R10 S10 S5 E X", 2, 0, 1},
    {"H T S10 T T R10 D E", "R10 S10 E X", 2, 0, 1}, {"H O S10 R10 D E", "R10 S10 E X", 1, -2, 0}, {"H S10 F", "R10 R1", 1, -1, 0}, {"H S10 F", "R10 S1 W10 S1 R1", 1, -1, 0}, {"H S10 F W100", "R10 W10 X", 1, -1, 0}, {"H S10 C", "R10 R1", 0, ECONNRESET, 1}, {"H S10 C", "R10 E", 0, ECONNRESET, 1}, {"H S10 C", "R11", 0, ECONNRESET, 1}, {"H S10 C", "W10 X", 0, ECONNRESET, 1}, {"H D C", "W10 R1", 0, EPIPE, 1}, {"H S5 D C", "W10 R9", 0, EPIPE, 1}, {"H S5 D W50 C", "W10 X", 0, 0, 1}, {"H R3 S5 D W50 C", "D R5 E X", 0, -2, 0},
    {"J W50", "", 0, -1, 1}, {"C", "", 0, ECONNRESET, 1}, {"F W50", "", 0, -1, 1}, {"W50 C", "", 0, ECONNRESET, 1}, {"H G S10 R10 D E", "R10 S10 E X", 1, -2, 0}, {"H G R10 S10 D E", "S10 R10 E X", 1, -2, 0}, {"H J W50", "R1", 0, -1, 1}, {"H W20 R10 S3 D E", "W1 S10 R3 E X", 0, 0, 1}, {"H R5 W10 E S7 D", "S5 D R7 E X", 0, 0, 1}, {"H R5 S9 S9000 E D", "S5 X", 0, 0, 1} };
static void peer(void) {
    int ci = mc_pick(sizeof convs / sizeof *convs, "conversation"), server = mc_pick(2, "role"), ver = mc_pick(3, "version"), frag = mc_pick(3, "fragments"), cc = mc_pick(3, "options"); const struct conv *c = &convs[ci]; if(c->v && ver != c->v) { mc_trivial(); return; }
    for(int pass = 0; pass < 2; ++pass) { begin(); /* the first time OpenSSL fills caches */
    memset(&W, 0, sizeof W); rawfail = 0; W.prog = c->raw; W.s = popen_(1); W.ctx = SSL_CTX_new(server ? SSLv23_server_method() : SSLv23_method()); if(server) { c27_usecert(W.ctx, cert, SSL_FILETYPE_PEM); c27_usekey(W.ctx, key, SSL_FILETYPE_PEM); if(cc == 1) SSL_CTX_set_verify(W.ctx, SSL_VERIFY_PEER, NULL); if(cc == 2) SSL_CTX_set_options(W.ctx, SSL_OP_NO_TICKET); } else if(cc == 1) SSL_CTX_set_cipher_list(W.ctx, "ECDHE-ECDSA-AES128-SHA"); else if(cc == 2) SSL_CTX_set_options(W.ctx, SSL_OP_NO_TICKET);
    if(ver) { SSL_CTX_set_min_proto_version(W.ctx, ver == 1 ? TLS1_2_VERSION : TLS1_3_VERSION); SSL_CTX_set_max_proto_version(W.ctx, ver == 1 ? TLS1_2_VERSION : TLS1_3_VERSION); } if(frag) SSL_CTX_set_max_send_fragment(W.ctx, frag == 1 ? 512 : 1000);
    W.ssl = SSL_new(W.ctx); SSL_set_bio(W.ssl, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())); if(server) SSL_set_accept_state(W.ssl); else SSL_set_connect_state(W.ssl);
    struct end *e = &E[0]; E[1].id = 1; int h = go(rawside()); e->dl = now() + tmo; int s = popen_(0), a = server ? tls_attach_client(s, e->dl) : tls_attach_server(s, cert, key, e->dl), rc = a < 0 ? -1 : 0, er = errno; note(e, 'A', 0, rc, er); int last = er;
    if(a >= 0) { e->s = a; for(const char *p = c->lib; *p && !e->dead;) { char o = *p++; int n = strtol(p, (char**)&p, 10); while(*p == ' ') p++; errno = 0; rc = do_(e, o, n); last = errno; note(e, o, n, rc, last); if(rc < 0 && !(o == 'E' && last == EPIPE)) break; rc = 0; } if(!e->dead) hclose(e->s); }
    for(int i = 0; !W.fin; ++i) { if(i > 100000) mc_fail("hang", "the peer waits"); msleep(now() + 1); } hclose(h); SSL_free(W.ssl); SSL_CTX_free(W.ctx); ERR_clear_error();
    MC_CHECK(P[0].closed, "close", "the socket stays open");
    if(c->want == 0) MC_CHECK(rc == 0, "failed", "conversation %d: %s", ci, strerror(last)); else if(c->want == -1) MC_CHECK(rc < 0, "success", "conversation %d succeeds", ci); else if(c->want > 0) MC_CHECK(rc < 0 && last == c->want, "errno", "conversation %d: %d %s, not %s", ci, rc, strerror(last), strerror(c->want));
    if(c->rawok) MC_CHECK(!rawfail, "peer", "conversation %d: the peer failed at %c", ci, rawfail);
    E[0].raw = 1; if(!pass) base = nout_; else { finish(); mc_obs(mc_mix(mc_mix(ci, rc), last)); mc_state(mc_mix(ci, last)); mc_step(); } }
}
struct mc_scn mc_scns[] = {
    {"exchange", "data of all sizes, both directions, all ways to finish", exchange, 0, 0, 0},
    {"cut", "the stream ends at each byte", cut, 0, 0, 0},
    {"corrupt", "each byte is changed, inserted or deleted", corrupt, 0, 0, 0},
    {"records", "each record is dropped, repeated, swapped or shortened", records, 0, 0, 0},
    {"delay", "a pause at each byte", delay, 0, 0, 0},
    {"block", "each blocking operation: deadlines and cancellation", block, 0, 0, 0},
    {"duplex", "sending and receiving at once", duplex, 0, 0, 0},
    {"duplexdl", "deadlines of sending and receiving at once", duplexdl, 0, 0, 0},
    {"args", "invalid arguments", args, 0, 0, 0},
    {"peer", "OpenSSL as the peer: versions, key updates, alerts, tickets, renegotiation", peer, 0, 0, 0},
    {"sockets", "over the library's sockets, short transfers", sockets, 1, 2, 0},
    {"vfaults", "the library's system calls and allocations fail", vfaults, 1, 2, 0},
    {"afaults", "OpenSSL's allocations fail", afaults, 0, 0, 0},
    {0}};
