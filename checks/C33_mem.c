// mc: variant=tls redef=tls:SSL_CTX_use_PrivateKey_file:te_usekey,tls:SSL_CTX_use_certificate_file:te_usecert
/* C33: objects created in memory supplied by the user live in that memory,
   whatever it contains before, and leave it alone after they are closed. */
#include "mc.h"
#include "vk.h"

const char *mc_property = "C33";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "memory is aligned as the storage types demand",
    "go_mem and bundle_go_mem are covered by C22; the sequences of attaching and detaching layers by C28", NULL};

#define NOBJ 2
#include "objs.h"
static union {max_align_t a; uint8_t b[4096];} M; static const uint8_t fills[] = {0, 0xff, 0x55, 0xaa, 0xbe};
static void untouched(size_t from, size_t to, int v, const char *what, int k) { for(size_t i = from; i < to; ++i) MC_CHECK(M.b[i] == v, "memory", "%s_mem: byte %zd %s was changed", kn[k], (ssize_t)(i - from), what); }
#define G 256
/* Two objects of one kind side by side. */
static void life(void) {
    int k = mc_pick(NK, "kind"), fill = mc_pick(5, "contents"), e0 = mc_pick(3, "end of the first"), e1 = mc_pick(3, "end of the second"), ord = mc_pick(3, "order"), again = mc_pick(2, "again"); size_t n = sz[k]; vk.cap = 64;
    if(k >= TLSC) te_begin(deads);
    memset(M.b, 0x77, sizeof M.b); memset(M.b + G, fills[fill], 2 * n);
    for(int i = 0; i < 2; ++i) { O[i].kind = k; O[i].i = i; prepare(&O[i]); }
    open_(&O[0], M.b + G, 0); untouched(G + n, G + 2 * n, fills[fill], "behind the object", k); if(ord == 1) use(&O[0], 0); open_(&O[1], M.b + G + n, 0);
    untouched(0, G, 0x77, "before the object", k); untouched(G + 2 * n, sizeof M.b, 0x77, "behind the objects", k);
    if(ord != 1) use(&O[0], 0); use(&O[1], 0); use(&O[1], 1); if(ord == 2) use(&O[0], 1);
    end(&O[0], e0); memset(M.b + G, 0x5c, n); if(k >= TERM || e0 == 0) clean(&O[0]);
    for(int i = 0; i < 2; ++i) msleep(now() + 1); if(k != HTTP) use(&O[1], 1); untouched(G, G + n, 0x5c, "after it was closed", k); clean(&O[0]);
    if(again) { O[0].kind = k; O[0].i = 0; prepare(&O[0]); open_(&O[0], M.b + G, 0); use(&O[0], 0); if(k != HTTP) use(&O[1], 0); }
    end(&O[1], e1); memset(M.b + G + n, 0x5c, n); msleep(now() + 1); untouched(G + n, G + 2 * n, 0x5c, "after it was closed", k);
    if(again) { use(&O[0], 1); untouched(G + n, G + 2 * n, 0x5c, "after it was closed", k); end(&O[0], e1); memset(M.b + G, 0x5c, n); }
    clean(&O[0]); clean(&O[1]); msleep(now() + 1); untouched(G, G + 2 * n, 0x5c, "after it was closed", k); untouched(0, G, 0x77, "before the object", k); untouched(G + 2 * n, sizeof M.b, 0x77, "behind the objects", k);
    if(k >= TLSC) te_finish(); mc_step(); mc_state(mc_mix(mc_mix(k, fill), mc_mix(e0 * 3 + e1, ord * 2 + again)));
}
/* One allocation less than without. */
static void allocation(void) {
    int k = mc_pick(NK, "kind"), e = mc_pick(3, "end"); vk.cap = 64; if(k >= TLSC) te_begin(deads); vk_alloc_hook = onalloc; long n[3];
    /* the first one is for tables that grow and pools */
    for(int i = 0; i < 3; ++i) { O[0].kind = k; O[0].i = 0; prepare(&O[0]); open_(&O[0], i == 1 ? M.b + G : NULL, 0); n[i] = allocs; use(&O[0], 0); end(&O[0], e); clean(&O[0]); msleep(now() + 1); }
    MC_CHECK(n[1] < n[2], "allocation", "%s_mem allocates memory %ld times, %s %ld times", kn[k], n[1], kn[k], n[2]);
    if(k >= TLSC) te_finish(); mc_step(); mc_state(k * 3 + e); mc_obs(n[1]);
}
/* Creating it fails: the memory belongs to the user again and nothing else is different. */
static void fails(void) {
    int k = mc_pick(NK, "kind"), null = mc_pick(2, "NULL memory"), what = null ? 0 : mc_pick(3, "reason"); struct obj *o = &O[0], *q = &O[1]; vk.cap = 64; if(k >= TLSC) te_begin(deads);
    memset(M.b, 0x77, sizeof M.b); o->kind = q->kind = k; o->i = 0; q->i = 1; int h = -1; prepare(q); open_(q, M.b + G + sz[k], 0);
    if(null) { if(k < TLSC) { prepare(o); if(o->h2 >= 0) hclose(o->h2); } open_(o, NULL, 1); }
    else {
        o->aux = o->peer = o->fd = o->h2 = -1; ipaddr_local(&o->a, "127.0.0.1", 5555, IPADDR_IPV4); strcpy(o->path, "/s0"); int64_t d = now() + 2; void *m = M.b + G;
        if(k == CHAN || k == BUNDLE || k == IPCP) { mc_trivial(); goto out; }
        h = what == 0 ? -1 : what == 1 ? bundle() : deads();
        int w = h; switch(k) {
        case TCPL: case IPCL: w = k == TCPL ? tcp_listen_mem(what == 0 ? &q->a : what == 1 ? &q->a : (ipaddr_remote(&o->a, "10.9.9.9", 5, IPADDR_IPV4, -1), &o->a), 3, m) : ipc_listen_mem(what < 2 ? q->path : "/nowhere/at/all/that/is/too/long/for/a/name/of/a/local/socket/because/that/cannot/be/longer/than/one/hundred/and/seven/characters", 3, m); if(w >= 0) { OK(hclose(w), "hclose"); w = -1; } break;
        case TCPA: if(what == 2) { hclose(h); h = tcp_listen(&o->a, 3); } w = tcp_accept_mem(h, NULL, m, d); break;
        case IPCA: if(what == 2) { hclose(h); h = ipc_listen(o->path, 3); } w = ipc_accept_mem(h, m, d); break;
        case TCPC: w = tcp_connect_mem(&o->a, m, what ? d : -1); break; case IPCC: w = ipc_connect_mem(o->path, m, what ? d : -1); break;
        case TCPF: w = tcp_fromfd_mem(what ? 77 : -1, m); break; case TCPLF: w = tcp_listener_fromfd_mem(what ? 77 : -1, m); break; case IPCF: w = ipc_fromfd_mem(what ? 77 : -1, m); break; case IPCLF: w = ipc_listener_fromfd_mem(what ? 77 : -1, m); break;
        case UDP: { struct ipaddr r6; ipaddr_remote(&r6, "::1", 5, IPADDR_IPV6, -1); ipaddr_local(&o->a, "127.0.0.1", 6666, IPADDR_IPV4); w = udp_open_mem(what ? &q->a : &o->a, what == 1 ? NULL : &r6, m); if(w >= 0) { OK(hclose(w), "hclose"); w = -1; } break; }
        case PREFIX: w = what == 2 ? prefix_attach_mem(h, 0, 0, m) : prefix_attach_mem(h, 2, 0, m); break;
        case SUFFIX: w = what == 2 ? suffix_attach_mem(h, "123456789012345678901234567890123", 33, m) : suffix_attach_mem(h, "\r\n", 2, m); break;
        case TERM: w = term_attach_mem(h, what == 2 ? NULL : "END", 3, m); break;
        case HTTP: if(what == 2) { mc_trivial(); goto out; } w = http_attach_mem(h, m); break;
        case WSC: w = ws_attach_client_mem(h, WS_BINARY, "/x", "y", m, d); break; case WSS: { char u[4], v[4]; w = ws_attach_server_mem(h, WS_BINARY, u, 4, v, 4, m, d); break; }
        case TLSC: w = tls_attach_client_mem(h, m, d); break; case TLSS: w = tls_attach_server_mem(h, te_cert, te_key, m, d); break;
        }
        MC_CHECK(w < 0, "fails", "%s_mem succeeds (%d)", kn[k], what); 
    }
    untouched(0, G, 0x77, "before the object", k); untouched(G + 2 * sz[k], sizeof M.b, 0x77, "behind the objects", k);
    memset(M.b + G, 0x5c, sz[k]);
    /* the memory is used for something else */
    msleep(now() + 5); if(sz[k] >= sizeof(struct bundle_storage)) { int b = bundle_mem((void*)(M.b + G)); OK(b, "bundle_mem"); OK(bundle_go(b, nap(-1)), "bundle_go"); OK(hclose(b), "hclose"); } memset(M.b + G, 0x5c, sz[k]); use(q, 0); use(q, 1);
    out: if(h >= 0) hclose(h); clean(o); if(o->fd >= 0) { extern int vk_close(int); vk_close(o->fd); o->fd = -1; } end(q, 0); clean(q); untouched(G, G + sz[k], M.b[G], "after creating it failed", k);
    if(k >= TLSC) te_finish(); mc_step(); mc_state(mc_mix(k, null * 3 + what));
}
struct mc_scn mc_scns[] = {
    {"life", "two objects of each kind side by side in one block of any contents: used, ended in every way and order, the memory used again", life, 0, 0, 0},
    {"allocation", "the number of allocations with and without memory of the user", allocation, 0, 0, 0},
    {"fails", "creating each kind of object fails for several reasons; the memory is used for something else then", fails, 0, 0, 0},
    {0}};
