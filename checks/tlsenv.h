/* OpenSSL made deterministic: its random numbers are a fixed sequence, its
   memory is not that of the library under test, the key is parsed once.
   Needs "redef=tls:SSL_CTX_use_PrivateKey_file:te_usekey,tls:SSL_CTX_use_certificate_file:te_usecert". */
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/crypto.h>
#include <string.h>
#include <stdlib.h>
static uint64_t te_rs; static long te_nout;
static int te_rbytes(unsigned char *b, int n) { for(int i = 0; i < n; ++i) { te_rs += 0x9e3779b97f4a7c15ull; uint64_t z = te_rs; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; b[i] = z >> 56; } return 1; }
static int te_rstatus(void) { return 1; }
static RAND_METHOD te_rmeth = {NULL, te_rbytes, NULL, NULL, te_rbytes, te_rstatus};
void *__libc_malloc(size_t); void *__libc_realloc(void*, size_t); void __libc_free(void*);
#define TE_LIVE 0x11ebeef5a11d5eedull
static void *te_malloc(size_t n, const char *f, int l) { uint64_t *p = __libc_malloc(n + 16); if(!p) return NULL; te_nout++; p[0] = TE_LIVE; return p + 2; }
static void te_free(void *q, const char *f, int l) { if(!q) return; uint64_t *p = (uint64_t*)q - 2; if(p[0] != TE_LIVE) mc_fail("double-free", "OpenSSL's memory is freed twice"); p[0] = ~TE_LIVE; te_nout--; __libc_free(p); }
static void *te_realloc(void *q, size_t n, const char *f, int l) { if(!q) return te_malloc(n, f, l); if(!n) { te_free(q, f, l); return NULL; } uint64_t *p = __libc_realloc((uint64_t*)q - 2, n + 16); return p ? p + 2 : NULL; }
static char te_cert[512], te_key[512];
__attribute__((constructor)) static void te_init(void) {
    if(!CRYPTO_set_mem_functions(te_malloc, te_realloc, te_free)) abort();
    snprintf(te_cert, sizeof te_cert, "%s", __FILE__); strcpy(strrchr(te_cert, '/'), "/data/tls-"); strcpy(te_key, te_cert); strcat(te_cert, "cert.pem"); strcat(te_key, "key.pem");
}
static EVP_PKEY *te_pkey; static X509 *te_x509; static long te_base;
int te_usekey(SSL_CTX *c, const char *f, int t) { return te_pkey && f && !strcmp(f, te_key) && t == SSL_FILETYPE_PEM ? SSL_CTX_use_PrivateKey(c, te_pkey) : SSL_CTX_use_PrivateKey_file(c, f, t); }
int te_usecert(SSL_CTX *c, const char *f, int t) { return te_x509 && f && !strcmp(f, te_cert) && t == SSL_FILETYPE_PEM ? SSL_CTX_use_certificate(c, te_x509) : SSL_CTX_use_certificate_file(c, f, t); }
/* Call at the beginning of each execution that uses TLS. dead: a handle of a dead bytestream. */
static void te_begin(int (*dead)(void)) {
    static int once;
    if(!once) { once = 1; RAND_set_rand_method(&te_rmeth); SSL_CTX *c[2]; SSL *s[2];
        for(int i = 0; i < 2; ++i) { c[i] = SSL_CTX_new(i ? SSLv23_server_method() : SSLv23_method());
            if(i) { SSL_CTX_use_certificate_file(c[i], te_cert, SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(c[i], te_key, SSL_FILETYPE_PEM); te_pkey = SSL_CTX_get0_privatekey(c[i]); EVP_PKEY_up_ref(te_pkey); te_x509 = SSL_CTX_get0_certificate(c[i]); X509_up_ref(te_x509); }
            s[i] = SSL_new(c[i]); SSL_set_bio(s[i], BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())); if(i) SSL_set_accept_state(s[i]); else SSL_set_connect_state(s[i]); }
        for(int k = 0; k < 8; ++k) for(int i = 0; i < 2; ++i) { SSL_do_handshake(s[i]); static char b[20000]; int n; while((n = BIO_read(SSL_get_wbio(s[i]), b, sizeof b)) > 0) BIO_write(SSL_get_rbio(s[!i]), b, n); }
        if(!SSL_is_init_finished(s[0]) || !SSL_is_init_finished(s[1])) mc_broken("OpenSSL: no handshake");
        for(int i = 0; i < 2; ++i) { SSL_free(s[i]); SSL_CTX_free(c[i]); }
        int h = tls_attach_client(dead(), 0); MC_CHECK(h < 0, "attach", "attached to a broken socket"); ERR_clear_error(); OPENSSL_thread_stop();
        h = tls_attach_client(-1, 0); }
    ERR_clear_error(); OPENSSL_thread_stop(); te_rs = 12345; te_base = te_nout;
}
static void te_finish(void) { OPENSSL_thread_stop(); if(te_nout != te_base) mc_fail("leak", "%ld blocks of OpenSSL's memory are left behind", te_nout - te_base); }
