// mc: variant=tls redef=tls:SSL_CTX_use_PrivateKey_file:te_usekey,tls:SSL_CTX_use_certificate_file:te_usecert
/* C34: what the library holds depends on what is open, not on what has
   happened before: however often objects are made, used and ended, neither
   memory nor descriptors nor handle numbers grow. */
#define NOBJ 160
#include "objs.h"

const char *mc_property = "C34";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "memory allocated by OpenSSL itself is not counted",
    "the caches of the resolver are covered by C29", NULL};

#define OK2(x) MC_CHECK((x) >= 0, "use", "%s: %s", #x, strerror(errno))
static long base, lim[3]; static int basefds, top;
static void handle(int h) { if(h > top) top = h; }
/* After each cycle; the first two may fill caches. */
static void measure(int i, int n, const char *what, long blocks) {
    msleep(now() + 1); msleep(now());
    long b = vk_live(), o = vk_outstanding(); int f = vk_all_fds();
    if(i == 0) { lim[0] = 0; lim[1] = 0; lim[2] = 0; }
    if(i < 2) { if(b > lim[0]) lim[0] = b; if(o > lim[1]) lim[1] = o; if(top > lim[2]) lim[2] = top; }
    MC_CHECK(f == basefds, "descriptors", "%s: %d descriptors after cycle %d, %d before", what, f, i + 1, basefds);
    MC_CHECK(o <= lim[1], "blocks", "%s, %d at a time: %ld blocks of memory are held after cycle %d, %ld after the first ones", what, n, o, i + 1, lim[1]);
    MC_CHECK(b <= lim[0], "memory", "%s, %d at a time: %ld bytes are held after cycle %d, %ld after the first ones", what, n, b, i + 1, lim[0]);
    MC_CHECK(o <= base + blocks, "cache", "%s, %d at a time: %ld blocks of memory are held after everything was closed, %ld before", what, n, o, base);
}
static void start(void) { top = 0; char key[WS_KEY_SIZE]; ws_request_key(key); /* the source of random numbers stays open */ int h = bundle(); hclose(h); basefds = vk_all_fds(); base = vk_outstanding(); }
static void one(struct obj *o, int k, int i) { o->kind = k; o->i = i; prepare(o); open_(o, NULL, 0); handle(o->h); }
static int many(int k) { return k == CHAN || k == BUNDLE || k == TCPF || k == IPCF; }
static void cycles(void) {
    int k = mc_pick(NK, "kind"), n = mc_pick(3, "how many"), e = mc_pick(3, "end"), rev = mc_pick(2, "reverse"), u = mc_pick(2, "used"); if(n == 2 && !many(k)) { mc_trivial(); return; }
    n = n == 0 ? 1 : n == 1 ? 4 : k == TCPF || k == IPCF ? 44 : NOBJ; int r = n == 1 ? 330 : n < 8 ? 90 : 12; if(k >= TLSC) r = n == 1 ? 30 : 8; vk.cap = 32; if(k >= TLSC) te_begin(deads); start();
    for(int i = 0; i < r; ++i) {
        for(int j = 0; j < n; ++j) one(&O[j], k, j);
        if(u || e) for(int j = 0; j < n; ++j) use(&O[j], 0);
        for(int j = 0; j < n; ++j) { struct obj *o = &O[rev ? n - 1 - j : j]; end(o, e); clean(o); if(o->r) { vs_shut(o->r); } }
        measure(i, n, kn[k], k == TCPF || k == IPCF ? 32 + 4 : k == CHAN || k == BUNDLE ? 64 + 4 : 20);
    }
    int max = n == 1 ? 3 * 255 : 4 * 511; MC_CHECK(top <= max, "handles", "%s: handle numbers grow to %d", kn[k], top);
    if(k >= TLSC) te_finish(); mc_step(); mc_state(mc_mix(mc_mix(k, n), e * 4 + rev * 2 + u));
}
/* Two kinds by turns. */
static void turns(void) {
    int k = mc_pick(NK, "kind"), l = mc_pick(NK, "other"), e = mc_pick(3, "end"), over = mc_pick(2, "overlapping"); if(k >= TLSC || l >= TLSC) { mc_trivial(); return; } vk.cap = 32; start();
    for(int i = 0; i < 40; ++i) {
        one(&O[0], k, 0); use(&O[0], 0); if(!over) { end(&O[0], e); clean(&O[0]); }
        one(&O[1], l, 1); use(&O[1], 0); if(over) { end(&O[0], e); clean(&O[0]); }
        end(&O[1], e); clean(&O[1]); measure(i, 2, kn[k], 20);
    }
    mc_step(); mc_state(mc_mix(mc_mix(k, l), e * 2 + over));
}
/* Coroutines that end by themselves, are waited for or cancelled, while they wait for anything. */
static int ch[2], sk[2], pr, lst, bnd, never; static struct ipaddr A;
static coroutine void waits(int what) {
    char b[4]; struct chclause c[2] = {{CHRECV, ch[0], b, 1}, {CHSEND, ch[0], b, 1}};
    switch(what) { case 0: break; case 1: msleep(now() + 1); break; case 2: msleep(-1); break; case 3: chrecv(ch[0], b, 1, -1); break; case 4: chsend(ch[1], b, 1, now() + 2); break; case 5: choose(c, 2, -1); break; case 6: fdin(pr, -1); break; case 7: fdout(pr, now() + 1); break; case 8: bundle_wait(never, now() + 1); break; case 9: { int h = bundle(); bundle_go(h, waits(2)); bundle_go(h, waits(0)); bundle_wait(h, -1); hclose(h); break; } case 10: { int h = go(waits(2)); msleep(-1); hclose(h); break; } case 11: yield(); break; }
}
static void crs(void) {
    int w = mc_pick(12, "waits for"), ni = mc_pick(4, "how many"), how = mc_pick(4, "end"); int n = ni == 0 ? 1 : ni == 1 ? 3 : ni == 2 ? 70 : 130, r = n > 3 ? 6 : 300; if((w == 6 || w == 7) && n > 3) r = 6;
    if((w == 9 || w == 10) && n > 70) n = 70;
    chmake(ch); pr = vk_probe(); never = bundle(); int nh = go(waits(2)); bundle_go(never, waits(2)); start(); char mem[1]; (void)mem;
    for(int i = 0; i < r; ++i) {
        int h[130], b = -1; if(how & 1) { b = bundle(); handle(b); for(int j = 0; j < n; ++j) OK2(bundle_go(b, waits(w))); } else for(int j = 0; j < n; ++j) { h[j] = go(waits(w)); OK2(h[j]); handle(h[j]); }
        if(how & 2) { msleep(now() + 3); if(b >= 0) bundle_wait(b, now() + 1); else for(int j = 0; j < n; ++j) bundle_wait(h[j], now()); }
        if(b >= 0) hclose(b); else for(int j = n - 1; j >= 0; --j) hclose(h[j]);
        measure(i, n, "go", 64 + 4);
    }
    fdclean(pr); extern int vk_close(int); vk_close(pr); hclose(nh); hclose(never); hclose(ch[0]); hclose(ch[1]); MC_CHECK(top <= 2000, "handles", "handle numbers grow to %d", top); mc_step(); mc_state(mc_mix(w, n * 4 + how));
}
struct mc_scn mc_scns[] = {
    {"cycles", "1, 4 and many objects of each kind made, used and ended again and again, every way and order of ending", cycles, 0, 0, 0},
    {"turns", "every pair of kinds by turns", turns, 0, 0, 0},
    {"coroutines", "1 to 130 coroutines started again and again, waiting for each kind of event, ending by themselves or cancelled", crs, 0, 0, 0},
    {0}};
