// mc: variant=dns
/* C29: resolving names. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <arpa/inet.h>
#include <netinet/in.h>

const char *mc_property = "C29";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "the name server is modelled: it answers from a zone, or misbehaves as enumerated; UDP keeps order",
    "resolver code is compiled with address sanitizer, stack arrays included", NULL};

enum {A = 1, NS = 2, CNAME = 5, TXT = 16, AAAA = 28, ANYT = 255};

/* ---- the zone ---- */
static struct {char name[300]; int type; uint8_t d[16]; char target[300];} Z[40];
static int nZ;
static int rcodeof[2];              /* forced rcode for A, AAAA questions */
static void rec(const char *name, int type, int host) {
    strcpy(Z[nZ].name, name); Z[nZ].type = type; memset(Z[nZ].d, 0, 16);
    if(type == A) { Z[nZ].d[0] = 10; Z[nZ].d[1] = 20; Z[nZ].d[2] = host >> 8; Z[nZ].d[3] = host; }
    else { Z[nZ].d[0] = 0xfd; Z[nZ].d[1] = 0x77; Z[nZ].d[14] = host >> 8; Z[nZ].d[15] = host; }
    ++nZ;
}
static void alias(const char *name, const char *to) { strcpy(Z[nZ].name, name); Z[nZ].type = CNAME; strcpy(Z[nZ].target, to); ++nZ; }
/* ---- what the library asked ---- */
static struct {char name[300]; int type, id, tcp; int64_t at; struct ipaddr to; uint16_t port;} Q[300];
static int nQ;
/* ---- how the server behaves ---- */
static struct {int chain, compress, upper, dup, additional, wrongname, tc; int64_t delay;} S;
static const char *conf, *hosts, *nss;
static const char *file(const char *p) {
    if(strstr(p, "resolv.conf")) return conf;
    if(strstr(p, "nsswitch")) return nss;
    if(strstr(p, "hosts")) return hosts;
    return NULL;
}
static struct sockaddr_in sin_(uint32_t host, int port) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(host); return s; }
#define SRV 0x0a000035 /* 10.0.0.53 */

/* ---- packets ---- */
struct pk {uint8_t b[70000]; size_t n;};
static void p8(struct pk *p, int v) { p->b[p->n++] = v; }
static void p16(struct pk *p, int v) { p8(p, v >> 8); p8(p, v); }
static void pname(struct pk *p, const char *s) {
    while(*s && strcmp(s, ".")) { const char *e = strchr(s, '.'); int l = e ? e - s : (int)strlen(s); p8(p, l); for(int i = 0; i < l; ++i) p8(p, S.upper && s[i] >= 'a' && s[i] <= 'z' ? s[i] - 32 : s[i]); s += l; if(*s == '.') ++s; }
    p8(p, 0);
}
static struct pk R; static int nan, qtype_, id_; static char qn_[300];
static void begin_reply(int id, const char *name, int type, int rcode) {
    R.n = 0; nan = 0; p16(&R, id); p16(&R, 0x8180 | rcode); p16(&R, 1); p16(&R, 0); p16(&R, 0); p16(&R, 0);
    pname(&R, name); p16(&R, type); p16(&R, 1); strcpy(qn_, name);
}
static void rr(int section, const char *name, int type, int class, int ttl, const void *d, int dl) {
    if(S.compress && !strcasecmp(name, qn_)) p16(&R, 0xc00c); else pname(&R, name);
    p16(&R, type); p16(&R, class); p16(&R, ttl >> 16); p16(&R, ttl); p16(&R, dl); memcpy(R.b + R.n, d, dl); R.n += dl;
    int o = 4 + 2 * section; int c = (R.b[o] << 8 | R.b[o + 1]) + 1; R.b[o] = c >> 8; R.b[o + 1] = c;
}
static void rrname(int section, const char *name, int type, const char *target) {
    static struct pk t; t.n = 0; int u = S.upper; pname(&t, target); S.upper = u; rr(section, name, type, 1, 60, t.b, t.n);
}
static int known(const char *n) { for(int i = 0; i < nZ; ++i) if(!strcasecmp(Z[i].name, n)) return 1; return 0; }
static void answer(int id, const char *name, int type) {
    char n[300]; strcpy(n, name);
    int forced = rcodeof[type == AAAA]; begin_reply(id, name, type, forced ? forced : known(name) ? 0 : 3);
    if(forced) return;
    int sect = S.additional ? 3 : 1;
    for(int hop = 0; hop < 12; ++hop) {
        int any = 0; const char *to = NULL;
        for(int i = 0; i < nZ; ++i) if(!strcasecmp(Z[i].name, n)) {
            if(Z[i].type == type) for(int k = 0; k <= S.dup; ++k) { any = 1; rr(sect, S.wrongname ? "other.example" : n, type, 1, 60, Z[i].d, type == A ? 4 : 16); }
            else if(Z[i].type == CNAME && type != CNAME) to = Z[i].target;
        }
        if(any || !to) return;
        rrname(1, n, CNAME, to);
        if(!S.chain) return;
        strcpy(n, to);
    }
}
/* Parses a question. Returns 0 if it is well-formed. */
static int question(const uint8_t *b, size_t n, char *name, int *type) {
    if(n < 17 || b[2] & 0xf8 || (!(b[2] & 1) && !(conf && strstr(conf, "recurse"))) || (b[2] & 2) || b[4] || b[5] != 1 || b[6] || b[7] || b[8] || b[9] || b[10] || b[11]) return -1;
    size_t o = 12; char *p = name;
    while(1) { if(o >= n) return -1; int l = b[o++]; if(!l) break; if(l > 63 || o + l > n) return -1; if(p != name) *p++ = '.'; memcpy(p, b + o, l); p += l; o += l; if(o > 12 + 255) return -1; }
    *p = 0; if(n != o + 4) return -1; *type = b[o] << 8 | b[o + 1]; return b[o + 2] == 0 && b[o + 3] == 1 ? 0 : -1;
}
static void log_q(const uint8_t *b, size_t n, int tcp, const struct sockaddr *to) {
    { char t[200]; int o = 0; for(size_t i = 0; i < n && i < 60; ++i) o += sprintf(t + o, "%02x ", b[i]); mc_log("%s", t); }
    if(nQ == 300) mc_fail("queries", "300 questions were asked");
    MC_CHECK(question(b, n, Q[nQ].name, &Q[nQ].type) == 0, "question", "the question sent is not well-formed (%zu bytes)", n);
    Q[nQ].id = b[0] << 8 | b[1]; Q[nQ].tcp = tcp; Q[nQ].at = now(); memset(&Q[nQ].to, 0, sizeof Q[nQ].to); memcpy(&Q[nQ].to, to, sizeof(struct sockaddr_in)); mc_log("question %s type %d %s", Q[nQ].name, Q[nQ].type, tcp ? "(TCP)" : ""); nQ++;
}
/* Delayed datagrams. */
static struct dg {uint8_t b[66000]; size_t n; struct sockaddr_in from, to;} D[16]; static int nD;
static uint8_t delivered[24][70000]; static size_t ndelivered[24]; static int nDel;
static void fire(void *p) { struct dg *d = p; vk_inject_dgram((struct sockaddr*)&d->from, (struct sockaddr*)&d->to, d->b, d->n); }
static void reply(const struct sockaddr *from, const struct sockaddr *to, int64_t delay) {
    struct dg *d = &D[nD++ % 16]; memcpy(d->b, R.b, R.n); d->n = R.n; memcpy(&d->from, from, sizeof d->from); memcpy(&d->to, to, sizeof d->to);
    if(delay < 0) return;
    if(delay == 0) fire(d); else vk_at(vk_us() + delay * 1000, fire, d);
}
static void (*server)(const struct sockaddr *me, const struct sockaddr *you, int q);
static void dgram(const struct sockaddr *from, const struct sockaddr *to, const void *b, size_t n) {
    log_q(b, n, 0, to); server(to, from, nQ - 1);
}
static void keep(void);
static void normal(const struct sockaddr *me, const struct sockaddr *you, int q) {
    answer(Q[q].id, Q[q].name, Q[q].type); if(S.tc) R.b[2] |= 2; keep(); reply(me, you, S.delay);
}
static int64_t T0;
static void begin(void) {
    nZ = nQ = nD = 0; memset(&S, 0, sizeof S); rcodeof[0] = rcodeof[1] = 0; server = normal; conf = "nameserver 10.0.0.53\n"; hosts = ""; nss = NULL; nDel = 0;
    vk_remote_dgram = dgram; vk_file = file; vk_memleak_ok = 1; T0 = now();
}

/* ---- the call ---- */
#define NA 8
static const int modes[] = {IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6, 0};
static struct ipaddr addrs[NA + 1]; static int rc_, err_; static int64_t took;
static void call(const char *name, int naddrs, int port, int mode, int64_t deadline) {
    memset(addrs, 0x5a, sizeof addrs); int fds = vk_all_fds(); int64_t t = now(); errno = 0;
    rc_ = ipaddr_remotes(addrs, naddrs, name, port, mode, deadline); err_ = errno; took = now() - t; mc_step();
    mc_log("ipaddr_remotes(%d, %.40s, %d, mode %d) = %d (%s) after %d ms", naddrs, name, port, mode, rc_, rc_ < 0 ? strerror(err_) : "ok", (int)took);
    MC_CHECK(rc_ >= -1 && rc_ <= naddrs, "count", "%d addresses were returned, %d fit", rc_, naddrs);
    for(size_t i = 0; i < sizeof addrs[0]; ++i) MC_CHECK(((uint8_t*)&addrs[naddrs])[i] == 0x5a, "overrun", "the address behind the array was written to");
    MC_CHECK(vk_all_fds() == fds, "leak", "%d descriptors are left", vk_all_fds() - fds);
    if(rc_ < 0) MC_CHECK(err_ != 0, "errno", "failure without errno");
    static const int v4[] = {1, 0, 1, 1, 1}, v6[] = {0, 1, 1, 1, 1};
    int pref6 = mode == IPADDR_PREF_IPV6, last = -1;
    for(int i = 0; i < rc_; ++i) {
        int f = ipaddr_family(&addrs[i]), is6 = f == AF_INET6; MC_CHECK(f == AF_INET || f == AF_INET6, "family", "the family of address %d is %d", i, f);
        MC_CHECK(mode == IPADDR_IPV4 ? !is6 : mode == IPADDR_IPV6 ? is6 : 1, "family", "mode %d gave a family %d address", mode, f);
        MC_CHECK(ipaddr_port(&addrs[i]) == port, "port", "the port is %d", ipaddr_port(&addrs[i]));
        int key = is6 == pref6; /* the preferred family comes first */
        if(last >= 0) MC_CHECK(key <= last, "order", "address %d is of the preferred family but comes later", i);
        last = key;
    }
    mc_state(mc_mix(rc_, mc_mix(took, nQ)));
}
static int same(const struct ipaddr *a, int type, const uint8_t *d) {
    if(type == A) return ipaddr_family(a) == AF_INET && !memcmp(&((struct sockaddr_in*)a)->sin_addr, d, 4);
    return ipaddr_family(a) == AF_INET6 && !memcmp(&((struct sockaddr_in6*)a)->sin6_addr, d, 16);
}
/* What the zone says. Returns the number of addresses; -1: too long a chain. */
static int lookup(const char *name, int type, uint8_t (*out)[16]) {
    char n[300]; strcpy(n, name); if(rcodeof[type == AAAA]) return 0;
    for(int hop = 0; hop < 7; ++hop) {
        int k = 0; const char *to = NULL;
        for(int i = 0; i < nZ; ++i) if(!strcasecmp(Z[i].name, n)) { if(Z[i].type == type) memcpy(out[k++], Z[i].d, 16); else if(Z[i].type == CNAME) to = Z[i].target; }
        if(k || !to) return k;
        strcpy(n, to);
    }
    return -1;
}
/* The addresses returned for one family against those expected. */
static void verdict1(int type, uint8_t (*exp)[16], int n, int room) {
    int got = 0; for(int i = 0; i < rc_; ++i) got += ipaddr_family(&addrs[i]) == (type == A ? AF_INET : AF_INET6);
    if(n < 0) return;
    int want = n < room ? n : room;
    MC_CHECK(got == want, "addresses", "%d addresses of type %d instead of %d", got, type, want);
    for(int k = 0, i = 0; k < n && i < want; ++k) { /* in the order of the answer */ }
    for(int i = 0; i < rc_; ++i) if(ipaddr_family(&addrs[i]) == (type == A ? AF_INET : AF_INET6)) {
        int hit = 0; for(int k = 0; k < n; ++k) if(same(&addrs[i], type, exp[k])) hit = 1;
        MC_CHECK(hit, "foreign", "address %d is not in the answer", i);
        for(int j = 0; j < i; ++j) MC_CHECK(!ipaddr_equal(&addrs[i], &addrs[j], 0) || S.dup, "twice", "address %d was returned twice", i);
    }
}
static void verdict(const char *name, int naddrs, int mode) {
    uint8_t e4[16][16], e6[16][16]; int n4 = mode == IPADDR_IPV6 ? 0 : lookup(name, A, e4), n6 = mode == IPADDR_IPV4 ? 0 : lookup(name, AAAA, e6);
    if(S.wrongname) n4 = n6 = 0;
    if(S.dup || S.additional) { if(rc_ >= 0) for(int i = 0; i < rc_; ++i) { int hit = 0; for(int k = 0; k < n4; ++k) hit |= same(&addrs[i], A, e4[k]); for(int k = 0; k < n6; ++k) hit |= same(&addrs[i], AAAA, e6[k]); MC_CHECK(hit, "foreign", "address %d is not in the answer", i); } if(S.dup) MC_CHECK((rc_ > 0) == (n4 > 0 || n6 > 0), "addresses", "%d", rc_); return; }
    int certain = n4 >= 0 && n6 >= 0; int total = (n4 > 0 ? n4 : 0) + (n6 > 0 ? n6 : 0);
    if(rc_ < 0) { MC_CHECK(!total, "lost", "the call failed (%s) though there are %d addresses", strerror(err_), total); return; }
    int first6 = mode == IPADDR_PREF_IPV6; int r4 = naddrs, r6 = naddrs; if(first6) r4 -= n6 > 0 ? n6 : 0; else r6 -= n4 > 0 ? n4 : 0; if(r4 < 0) r4 = 0; if(r6 < 0) r6 = 0;
    if(certain) { verdict1(A, e4, n4, r4); verdict1(AAAA, e6, n6, r6); }
}
static void asked(const char *name, int64_t from) { /* every question is about the name, its aliases or the search list */ }
/* One family's part of the zone. */
static int setz(const char *name, int type, int kind) {
    char a[64], b[64]; sprintf(a, "a%d.alias.example", type); sprintf(b, "b%d.alias.example", type); int w = type == AAAA;
    switch(kind) {
    case 0: break;
    case 1: rec(name, type, 1); break;
    case 2: rec(name, type, 1); rec(name, type, 2); rec(name, type, 3); break;
    case 3: alias(name, a); rec(a, type, 4); break;
    case 4: alias(name, a); alias(a, b); rec(b, type, 5); rec(b, type, 6); break;
    case 5: alias(name, a); break;                    /* dangling */
    case 6: alias(name, name); break;                 /* loops */
    case 7: alias(name, a); alias(a, name); break;
    case 8: rcodeof[w] = 2; break;
    case 9: rcodeof[w] = 5; break;
    case 10: rcodeof[w] = 3; break;
    case 11: { char x[32] = "", y[32]; strcpy(x, name); for(int i = 0; i < 14; ++i) { sprintf(y, "c%d-%d.example", type, i); alias(x, y); strcpy(x, y); } rec(x, type, 9); break; }
    case 12: { char x[32], y[32]; strcpy(x, name); for(int i = 0; i < 4; ++i) { sprintf(y, "c%d-%d.example", type, i); alias(x, y); strcpy(x, y); } rec(x, type, 9); break; }
    case 13: for(int i = 0; i < 9; ++i) rec(name, type, 20 + i); break;
    }
    return kind;
}
static void answers_(void) {
    begin(); static const int ns[] = {8, 1, 2}; const char *name = "host.example";
    int mi = mc_pick(5, "mode"), mode = modes[mi], k4 = 0, k6 = 0;
    if(mode != IPADDR_IPV6) k4 = setz(name, A, mc_pick(14, "A"));
    /* An alias holds for both types. */
    int aliased = known(name) && Z[0].type == CNAME;
    if(mode != IPADDR_IPV4) { static const int plain[] = {0, 1, 2, 8, 9, 10, 13}; k6 = aliased ? 0 : setz(name, AAAA, k4 ? plain[mc_pick(7, "AAAA")] : mc_pick(14, "AAAA")); if(aliased && mc_pick(2, "aliased AAAA")) rec(Z[nZ - 1].type == A ? Z[nZ - 1].name : "a1.alias.example", AAAA, 7); }
    /* The server's style. */
    int st = mc_pick(8, "style"); S.chain = st >= 1; S.compress = st == 2 || st == 3; S.upper = st == 3; S.dup = st == 4; S.additional = st == 5; S.wrongname = st == 6; S.tc = 0; if(st == 7) S.delay = 30;
    int naddrs = ns[mc_pick(3, "naddrs")], port = mc_pick(2, "port") ? 65535 : 80;
    call(name, naddrs, port, mode, T0 + 1000); verdict(name, naddrs, mode);
    MC_CHECK(took <= 1000, "deadline", "late"); if(!S.delay) MC_CHECK(took == 0, "slow", "%d ms were spent though everything was answered at once", (int)took);
    for(int i = 0; i < nQ; ++i) { struct sockaddr_in *s = (void*)&Q[i].to; MC_CHECK(ntohl(s->sin_addr.s_addr) == SRV && ntohs(s->sin_port) == 53, "server", "a question went to another host"); MC_CHECK(Q[i].type == (mode == IPADDR_IPV4 ? A : mode == IPADDR_IPV6 ? AAAA : Q[i].type) && (Q[i].type == A || Q[i].type == AAAA), "type", "the type of question %d is %d", i, Q[i].type); }
    mc_obs(mc_mix(mc_mix(mode, rc_), mc_mix(naddrs, rc_ < 0 ? err_ : 0)));
}

/* ---- hosts file ---- */
static void hosts_(void) {
    begin(); static const char *hs[] = {"10.20.0.1 host.example\n", "fd77::1 host.example\n", "10.20.0.1 host.example\nfd77::2 host.example\n10.20.0.3 host.example\n",
        "# 10.20.0.9 host.example\n10.20.0.1\tcanon  host.example HOST2 # x\n", "10.20.0.256 host.example\n\n  \n10.20.0.1 HOST.example", "10.20.0.1 host.example.com\n", "", NULL, "fd77::1 x host.example\r\n10.20.0.2 host.example\n", "\x31\x32 host.example\n:: host.example\n"};
    static const int v4[] = {1, 0, 2, 1, 1, 0, 0, 0, 1, 0}, v6[] = {0, 1, 1, 0, 0, 0, 0, 0, 1, 1};
    int h = mc_pick(10, "hosts"); hosts = hs[h]; static const char *cf[] = {"nameserver 10.0.0.53\nlookup file bind\n", "nameserver 10.0.0.53\nlookup bind file\n", "nameserver 10.0.0.53\nlookup file\n", "nameserver 10.0.0.53\n", "lookup bind\nnameserver 10.0.0.53"};
    int c = mc_pick(5, "lookup"); conf = cf[c]; static const char *ns[] = {NULL, "hosts: files dns\n", "passwd: files\nhosts: dns\n", "hosts: files mdns4_minimal [NOTFOUND=return] dns\n", "hosts:\n"}; int n = mc_pick(5, "nsswitch"); nss = ns[n];
    if(mc_pick(2, "in DNS")) { rec("host.example", A, 0x101); rec("host.example", AAAA, 0x102); }
    int mode = modes[mc_pick(5, "mode")], naddrs = mc_pick(2, "naddrs") ? 1 : 8;
    char order[3] = ""; strcpy(order, n == 1 || n == 3 ? "fb" : n == 2 ? "b" : c == 0 ? "fb" : c == 2 ? "f" : c == 4 ? "b" : "bf");
    if(n != 1 && n != 2 && n != 3 && c == 2) strcpy(order, "f");
    call("host.example", naddrs, 80, mode, T0 + 1000);
    if(n == 3) { MC_CHECK(rc_ >= 0, "lost", "%s", strerror(err_)); mc_obs(rc_); return; }
    int want = 0, w4 = 0, w6 = 0, f4 = -1, f6 = -1; /* which source answers for each family */
    for(char *p = order; *p; ++p) { if(*p == 'f') { if(f4 < 0 && v4[h]) f4 = 0; if(f6 < 0 && v6[h]) f6 = 0; } else { if(f4 < 0 && nZ) f4 = 1; if(f6 < 0 && nZ) f6 = 1; } }
    /* A line of the lookup statement only replaces as much of the default as it has words. */
    int fuzzy = c == 2 || c == 4;
    w4 = mode == IPADDR_IPV6 ? 0 : f4 < 0 ? 0 : f4 ? 1 : v4[h]; w6 = mode == IPADDR_IPV4 ? 0 : f6 < 0 ? 0 : f6 ? 1 : v6[h]; want = w4 + w6 < naddrs ? w4 + w6 : naddrs;
    if(!fuzzy) MC_CHECK((rc_ < 0 ? 0 : rc_) == want, "addresses", "%d addresses instead of %d (%d, %d; order %s)", rc_, want, w4, w6, order);
    for(int i = 0; i < rc_; ++i) { char t[IPADDR_MAXSTRLEN]; ipaddr_str(&addrs[i], t); int dns = !strcmp(t, "10.20.1.1") || !strcmp(t, "fd77::102"); int is6 = ipaddr_family(&addrs[i]) == AF_INET6;
        MC_CHECK(dns ? nZ > 0 : !strncmp(t, "10.20.0.", 8) || !strncmp(t, "fd77::", 6) || !strcmp(t, "::"), "foreign", "%s", t); if(!fuzzy) MC_CHECK(dns == (is6 ? f6 : f4), "source", "%s comes from the wrong source (order %s)", t, order); }
    mc_obs(mc_mix(rc_, mode));
}

/* ---- the search list, ndots, several servers ---- */
static void search_(void) {
    begin(); static const char *cfs[] = {"", "search one.test two.test\n", "domain one.test\n", "search .\n", "search one.test\noptions ndots:2\n", "options ndots:0\n", "search one.test .\noptions ndots:5\n", "search a b c d e\n"};
    static const char *sl[8][7] = {{NULL}, {"one.test", "two.test"}, {"one.test"}, {NULL}, {"one.test"}, {NULL}, {"one.test"}, {"a", "b", "c", "d"}}; static const int nd[] = {1, 1, 1, 1, 2, 0, 5, 1};
    int c = mc_pick(8, "config"); char cf[200]; sprintf(cf, "nameserver 10.0.0.53\n%s", cfs[c]); conf = cf; vk_hostname = mc_pick(2, "hostname") ? "me.corp.test" : "box";
    const char *search[7]; int ns = 0; if(c == 0 || c == 5) { if(vk_hostname[0] == 'm') search[ns++] = "corp.test"; } else for(int i = 0; sl[c][i]; ++i) search[ns++] = sl[c][i];
    static const char *names[] = {"host", "host.sub", "host.", "host.sub.", "a.b.c"}; int n = mc_pick(5, "name"); char name[64]; strcpy(name, names[n]);
    /* Candidates in order. */
    char cand[8][100]; int nc = 0, dots = 0; for(char *p = name; *p; ++p) dots += *p == '.'; char bare[64]; strcpy(bare, name); if(bare[strlen(bare) - 1] == '.') bare[strlen(bare) - 1] = 0;
    int absolute = name[strlen(name) - 1] == '.'; if(dots >= nd[c]) strcpy(cand[nc++], bare); for(int i = 0; i < ns; ++i) sprintf(cand[nc++], "%s.%s", bare, search[i]); if(dots < nd[c]) strcpy(cand[nc++], bare);
    int which = mc_pick(nc + 1, "exists"), neg = mc_pick(3, "negative"); if(which < nc) rec(cand[which], A, 1); if(neg == 1) for(int i = 0; i < nc; ++i) rec(cand[i], TXT, 1);
    if(neg == 2) S.upper = 1;
    int mode = mc_pick(2, "mode") ? IPADDR_IPV4 : 0; call(name, 8, 80, mode, T0 + 1000);
    MC_CHECK(took == 0, "slow", "%d ms", (int)took); MC_CHECK(rc_ == (which < nc), "addresses", "%d (%s) for %s, the zone has %s", rc_, strerror(err_), name, which < nc ? cand[which] : "nothing");
    int k = 0; for(int i = 0; i < nQ; ++i) if(Q[i].type == A) { MC_CHECK(k < nc && !strcasecmp(Q[i].name, cand[k]), "search", "question %d is about %s instead of %s", i, Q[i].name, k < nc ? cand[k] : "nothing more"); ++k; }
    mc_obs(mc_mix(rc_, nQ)); conf = NULL;
}
/* Lost answers, several servers. */
static int lostn[3]; /* how many questions each server ignores; -1: ICMP error */
static int64_t srvdelay[3];
static void lossy(const struct sockaddr *me, const struct sockaddr *you, int q) {
    int s = ntohl(((struct sockaddr_in*)me)->sin_addr.s_addr) - SRV; MC_CHECK(s >= 0 && s < 3, "server", "a question went to another host");
    if(lostn[s] > 0) { lostn[s]--; return; }
    if(lostn[s] < 0) { vk_dgram_error(you, ECONNREFUSED); return; }
    answer(Q[q].id, Q[q].name, Q[q].type); reply(me, you, srvdelay[s]);
}
static void lost_(void) {
    begin(); server = lossy; int ns = mc_pick(3, "servers") + 1, opt = mc_pick(3, "options"); static const char *o[] = {"", "options timeout:1 attempts:3\n", "options attempts:1 timeout:2\n"}; static const int to[] = {5, 1, 2}, at[] = {2, 3, 1};
    char cf[200] = ""; for(int i = 0; i < ns; ++i) sprintf(cf + strlen(cf), "nameserver 10.0.0.%d\n", 53 + i); strcat(cf, o[opt]); conf = cf;
    static const int L[] = {0, 1, 2, 99, -1}; static const int64_t del[] = {0, 70, 1500, 7000}; for(int i = 0; i < ns; ++i) { lostn[i] = L[mc_pick(i == 2 && !mc_thorough ? 4 : 5, "lost")]; srvdelay[i] = lostn[i] < 0 || lostn[i] == 99 ? 0 : del[mc_pick(i < 2 || mc_thorough ? 4 : 2, "delay")]; }
    rec("host.example", A, 1); if(mc_pick(2, "wall clock")) vk_wall_us += 777777;
    static const int64_t dls[] = {-1, 20000, 1000, 50, 0}; int64_t dl = dls[mc_pick(5, "deadline")];
    /* What must happen. */
    int l[3]; memcpy(l, lostn, sizeof l);
    call("host.example", 1, 80, IPADDR_IPV4, dl < 0 ? -1 : dl == 0 ? 0 : T0 + dl);
    if(dl >= 0) MC_CHECK(took <= dl, "deadline", "the deadline was %d ms, the call took %d", (int)dl, (int)took);
    MC_CHECK(took <= ns * to[opt] * at[opt] * 1000 + 1000 * ns * at[opt], "hung", "the call took %d ms", (int)took);
    if(rc_ < 0) MC_CHECK(err_ == ETIMEDOUT ? dl >= 0 && took >= dl : err_ == ECONNREFUSED, "errno", "%s after %d ms", strerror(err_), (int)took);
    if(rc_ == 1) MC_CHECK(same(&addrs[0], A, Z[0].d), "foreign", "a wrong address");
    /* A server that answers at once within its timeout is heard, if the deadline allows for it. */
    int refused = 0; for(int i = 0; i < ns; ++i) refused |= l[i] < 0;
    if(!refused) { int64_t t = 0, best = -1, last = -1; for(int a = 0; a < at[opt]; ++a) for(int i = 0; i < ns; ++i, t += to[opt] * 1000) if(l[i] > 0 && l[i]-- > 0) ; else { last = t; if(srvdelay[i] < to[opt] * 1000 && best < 0) best = t + srvdelay[i]; }
        if(best >= 0 && (dl < 0 || dl > best + 1000 * ns * at[opt] || (dl > best && best < to[opt] * 1000))) MC_CHECK(rc_ == 1, "lost", "%d (%s) after %d ms though an answer comes at %d ms", rc_, strerror(err_), (int)took, (int)best);
        if(rc_ == 1 && best >= 0) MC_CHECK(took <= best + 1000 * ns * at[opt], "slow", "%d ms though an answer came at %d", (int)took, (int)best);
        if(rc_ == 0) MC_CHECK(took + 1000 * ns * at[opt] >= t, "early", "the call gave up after %d ms, %d questions", (int)took, nQ); }
    mc_obs(mc_mix(mc_mix(rc_, took), nQ));
}

/* ---- malformed answers ---- */
static int cut_at, bytepos, byteval, nbytes, trunc_tcp;
/* Any address returned must occur in what was received. */
static void plausible(void) {
    for(int i = 0; i < rc_; ++i) { int is6 = ipaddr_family(&addrs[i]) == AF_INET6, n = is6 ? 16 : 4, hit = 0; const uint8_t *a = is6 ? (void*)&((struct sockaddr_in6*)&addrs[i])->sin6_addr : (void*)&((struct sockaddr_in*)&addrs[i])->sin_addr;
        for(int k = 0; k < nDel && !hit; ++k) for(size_t o = 12; o + n <= ndelivered[k]; ++o) if(!memcmp(delivered[k] + o, a, n)) { hit = 1; break; }
        MC_CHECK(hit, "foreign", "address %d does not occur in anything the server sent", i); }
}
static void keep(void) { if(nDel < 24) { memcpy(delivered[nDel], R.b, R.n); ndelivered[nDel++] = R.n; } }
static void mangle(void) {
    if(cut_at >= 0 && cut_at < (int)R.n) R.n = cut_at;
    if(bytepos >= 0 && bytepos < (int)R.n) { uint8_t v[] = {0, 0xff, 0xc0, R.b[bytepos] ^ 1, R.b[bytepos] ^ 0x80, R.b[bytepos] + 1, 0x3f, R.b[bytepos] ^ 0x40, 12, 0x7f, R.b[bytepos] ^ 2, R.b[bytepos] ^ 0x20}; R.b[bytepos] = v[byteval]; }
}
static void bad(const struct sockaddr *me, const struct sockaddr *you, int q) { answer(Q[q].id, Q[q].name, Q[q].type); mangle(); keep(); reply(me, you, 0); }
static void corrupt_(void) {
    begin(); server = bad; conf = "nameserver 10.0.0.53\noptions timeout:1 attempts:1\n"; static const int ks[] = {2, 4, 3, 6, 12}; int type = mc_pick(2, "type") ? AAAA : A; S.compress = mc_pick(2, "compress"); S.chain = 1;
    setz("host.example", type, ks[mc_pick(5, "zone")]); begin_reply(1, "host.example", type, 0); answer(1, "host.example", type); int n = R.n;
    cut_at = bytepos = -1; if(mc_arg == 0) cut_at = mc_pick(n + 1 < 250 ? n + 1 : 250, "cut at"); else { bytepos = mc_pick(n < 250 ? n : 250, "byte"); byteval = mc_pick(12, "value"); }
    call("host.example", NA, 80, type == A ? IPADDR_IPV4 : IPADDR_IPV6, T0 + 3500); plausible();
    MC_CHECK(took <= 3500, "deadline", "late"); mc_obs(mc_mix(rc_, took));
}
/* Two bytes at once (thorough). */
static int bp2, bv2;
static void bad2(const struct sockaddr *me, const struct sockaddr *you, int q) { answer(Q[q].id, Q[q].name, Q[q].type); mangle(); bytepos = bp2; byteval = bv2; mangle(); keep(); reply(me, you, 0); }
static void corrupt2_(void) {
    begin(); server = bad2; conf = "nameserver 10.0.0.53\noptions timeout:1 attempts:1\n"; int type = A; S.compress = 1; S.chain = 1;
    setz("host.example", type, mc_pick(2, "zone") ? 3 : 1); answer(1, "host.example", type); int n = R.n; cut_at = -1;
    bytepos = mc_pick(n, "byte"); byteval = mc_pick(8, "value"); bp2 = mc_pick(n, "byte 2"); bv2 = mc_pick(8, "value 2"); if(bp2 <= bytepos || nDel) { mc_trivial(); return; }
    int b0 = bytepos, v0 = byteval; call("host.example", NA, 80, IPADDR_IPV4, T0 + 3500); (void)b0; (void)v0; plausible(); mc_obs(mc_mix(rc_, took));
}
/* Hand-made packets. */
static void odd(const struct sockaddr *me, const struct sockaddr *you, int q) {
    int id = Q[q].id, type = Q[q].type; const char *n = Q[q].name; static uint8_t d[65536]; memset(d, 'x', sizeof d); d[0] = 10; d[1] = 20; d[2] = 0; d[3] = 1; begin_reply(id, n, type, 0); int dl = type == A ? 4 : 16;
    switch(mc_arg) {
    case 0: { static const int len[] = {0, 1, 3, 5, 15, 17, 255, 600}; rr(1, n, type, 1, 60, d, len[cut_at]); if(byteval) { rr(1, n, type, 1, 60, Z[0].d, dl); } break; }          /* wrong rdlength */
    case 1: { static const int tt[] = {2, 6, 12, 15, 16, 28, 33, 44, 46, 99, 255, 0, 65535, 41, 5}; static const int len[] = {0, 1, 2, 7, 22, 300}; int tn = tt[cut_at]; if(tn == type) tn = 1; rr(1, n, tn, 1, 60, d, len[byteval]); rr(1, n, type, 1, 60, Z[0].d, dl); break; } /* other records */
    case 2: { uint8_t p[4] = {0xc0, 0, 0, 0}; int to[] = {0, 12, (int)R.n, (int)R.n + 12, 0x3fff, (int)R.n - 1, 1, (int)R.n + 2}; p[0] |= to[cut_at] >> 8; p[1] = to[cut_at]; rr(1, n, CNAME, 1, 60, p, byteval + 1); rr(1, n, type, 1, 60, Z[0].d, dl); break; } /* pointers */
    case 3: R.b[6 + 2 * (cut_at % 3)] = byteval ? 0xff : 0; R.b[7 + 2 * (cut_at % 3)] = cut_at < 3 ? 2 : 0xff; rr(1, n, type, 1, 60, Z[0].d, dl); break;  /* counts */
    case 4: { R.b[5] = cut_at; for(int i = 1; i < cut_at; ++i) { pname(&R, byteval ? n : "other.example"); p16(&R, byteval ? type : 3); p16(&R, 1); } rr(1, n, type, 1, 60, Z[0].d, dl); if(!cut_at) { } break; }            /* several questions */
    case 5: { char l[300] = ""; static const int len[] = {1, 63, 62, 10}; int k = len[cut_at]; while(strlen(l) + k < 250 - (byteval ? 0 : k)) { for(int i = 0; i < k; ++i) strcat(l, "y"); strcat(l, "."); } if(strlen(l)) l[strlen(l) - 1] = 0; rrname(1, n, CNAME, l); rr(1, l, type, 1, 60, Z[0].d, dl); break; } /* long names */
    case 6: { R.b[2] = byteval; R.b[3] = cut_at << 4; rr(1, n, type, 1, 60, Z[0].d, dl); break; } /* flags */
    case 7: { int many = cut_at == 0 ? 31 : cut_at == 1 ? 200 : 1000; for(int i = 0; i < many; ++i) { d[2] = i >> 8; d[3] = i; rr(1, n, type, 1, 60, d, dl); } break; }  /* beyond the buffer */
    }
    keep(); reply(me, you, 0);
}
static void odd_(void) {
    begin(); server = odd; conf = "nameserver 10.0.0.53\noptions timeout:1 attempts:1\n"; static const int na[] = {8, 15, 8, 6, 4, 4, 16, 3}, nb[] = {2, 6, 3, 2, 2, 2, 8, 1}; int type = mc_pick(2, "type") ? AAAA : A; rec("host.example", type, 1); S.compress = mc_pick(2, "compress"); cut_at = mc_pick(na[mc_arg], "a"); byteval = mc_pick(nb[mc_arg], "b"); if(mc_arg == 6) byteval = (byteval & 4 ? 0x80 : 0) | (byteval & 1 ? 2 : 0) | (byteval & 2 ? 0x78 : 0);
    call("host.example", NA, 80, type == A ? IPADDR_IPV4 : IPADDR_IPV6, T0 + 3500); plausible();
    if(mc_arg == 1 || (mc_arg == 5 && cut_at)) MC_CHECK(rc_ >= 0 || err_ == ETIMEDOUT, "errno", "%s", strerror(err_));
    mc_obs(mc_mix(rc_, took));
}
/* ---- forged answers ---- */
static int forge[3], nforge, forgelate;
static void forger(const struct sockaddr *me, const struct sockaddr *you, int q) {
    int z = nZ; for(int i = 0; i < nforge; ++i) { struct sockaddr_in from = *(struct sockaddr_in*)me; int id = Q[q].id, type = Q[q].type; const char *n = Q[q].name; begin_reply(forge[i] == 0 ? id ^ 0x0100 : id, forge[i] == 1 ? "host.examplf" : n, forge[i] == 2 ? (type == A ? AAAA : A) : type, forge[i] == 6 ? 3 : 0);
        if(forge[i] == 3) from.sin_port = htons(54); if(forge[i] == 4) from.sin_addr.s_addr ^= htonl(1); if(forge[i] == 5) { R.n = 11; } if(forge[i] == 7) R.b[5] = 0;
        if(forge[i] == 6) from.sin_port = htons(54); uint8_t d[16] = {66, 66, 66, 66}; if(forge[i] != 5 && forge[i] != 6) rr(1, n, type, 1, 60, d, type == A ? 4 : 16);
        if(forge[i] == 8) { R.b[R.n - 1] ^= 1; R.b[0] ^= 0x80; } reply((struct sockaddr*)&from, you, 0); }
    answer(Q[q].id, Q[q].name, Q[q].type); reply(me, you, forgelate ? 20 : 0);
}
static void forged_(void) {
    begin(); server = forger; nforge = mc_pick(3, "forged") + 1; for(int i = 0; i < nforge; ++i) forge[i] = mc_pick(9, "kind"); forgelate = mc_pick(2, "late"); rec("host.example", A, 1); rec("host.example", AAAA, 2); int mode = modes[mc_pick(5, "mode")];
    call("host.example", 4, 80, mode, T0 + 1000); MC_CHECK(took == (forgelate ? 20 * (mode == IPADDR_IPV4 || mode == IPADDR_IPV6 ? 1 : 2) : 0), "slow", "%d ms", (int)took); verdict("host.example", 4, mode); mc_obs(mc_mix(rc_, took));
}
/* ---- truncated answers and TCP ---- */
static struct vstream *rs[8]; static int nrs, tcpmode, frag, tq, got2; static struct pk TQ;
static int tsent; static struct pk TR;
static void tcp_step(void *p) {
    struct vstream *s = p; if(vs_closed(s)) return; uint8_t b[600]; size_t n = vs_read(s, b, sizeof b); memcpy(TQ.b + TQ.n, b, n); TQ.n += n;
    if(!got2) {
        if(tcpmode == 1) { vs_shut(s); got2 = 1; return; } if(tcpmode == 2) { vs_rst(s); got2 = 1; return; }
        if(TQ.n < 2 || TQ.n < 2u + (TQ.b[0] << 8 | TQ.b[1])) { vk_at(vk_us() + 1000, tcp_step, s); return; }
        MC_CHECK(TQ.n == 2u + (TQ.b[0] << 8 | TQ.b[1]), "question", "trailing bytes after the question"); log_q(TQ.b + 2, TQ.n - 2, 1, (struct sockaddr*)&(struct sockaddr_in){.sin_family = AF_INET}); got2 = 1; if(tcpmode == 3) return;
        int q = nQ - 1; MC_CHECK(conf && strstr(conf, "options tcp") ? !strcmp(Q[q].name, "host.example") : q > 0 && Q[q].type == Q[q - 1].type && !strcmp(Q[q].name, Q[q - 1].name), "question", "the question asked over TCP is another one"); answer(Q[q].id, Q[q].name, Q[q].type); if(tcpmode == 9) R.b[0] ^= 1; keep();
        TR.n = 0; int len = R.n; if(tcpmode == 6) len = 0; if(tcpmode == 7) len = 11; if(tcpmode == 8) len = 0xffff; p16(&TR, len); memcpy(TR.b + 2, R.b, R.n); TR.n += tcpmode == 6 ? 0 : tcpmode == 7 ? 11 : R.n; tsent = 0;
    }
    int left = TR.n - tsent; if(left <= 0) return; int k = frag == 0 ? left : frag == 1 ? 1 : frag == 2 ? (tsent == 0 ? 1 : left) : frag == 3 ? (tsent == 0 ? 2 : left) : tsent == 0 ? 3 : left; if(k > left) k = left;
    if((tcpmode == 4 || tcpmode == 5) && tsent + k >= (int)TR.n) { if(k > 1) vs_write(s, TR.b + tsent, k - 1); if(tcpmode == 4) vs_shut(s); else vs_rst(s); tsent = TR.n; return; }
    vs_write(s, TR.b + tsent, k); tsent += k; if(tsent < (int)TR.n) vk_at(vk_us() + 1000, tcp_step, s); else if(tcpmode == 8) vs_shut(s);
}
static int64_t cdelay;
static int tconnect(const struct sockaddr *sa, int64_t *delay, struct vstream *s) {
    const struct sockaddr_in *a = (void*)sa; MC_CHECK(ntohl(a->sin_addr.s_addr) == SRV && ntohs(a->sin_port) == 53, "server", "a connection to another host"); *delay = cdelay * 1000; if(tcpmode == 10) return -ECONNREFUSED; if(tcpmode == 11) return VK_BLACKHOLE; got2 = 0; TQ.n = 0; vk_at(vk_us() + *delay + 2000, tcp_step, s); return 0;
}
static void tcp_(void) {
    begin(); conf = mc_pick(2, "options") ? "nameserver 10.0.0.53\noptions timeout:1 attempts:1\n" : "nameserver 10.0.0.53\noptions tcp timeout:1 attempts:1\n"; int only = !!strstr(conf, "tcp"); if(only && !mc_thorough) { mc_trivial(); return; }
    S.tc = 1; int type = mc_pick(2, "type") ? AAAA : A; setz("host.example", type, mc_pick(2, "zone") ? 13 : 4); S.chain = 1; vk_remote_connect = tconnect; tcpmode = mc_pick(12, "server"); frag = mc_pick(5, "fragments"); cdelay = mc_pick(3, "delay") * 40; vk.cap = 4096; vk.eagain = mc_thorough; vk.short_rw = 1;
    static const int64_t dls[] = {3500, -1, 60, 2}; int64_t dl = dls[mc_pick(4, "deadline")]; call("host.example", NA, 80, type == A ? IPADDR_IPV4 : IPADDR_IPV6, dl < 0 ? -1 : T0 + dl);
    if(dl >= 0) MC_CHECK(took <= dl, "deadline", "late: %d", (int)took); MC_CHECK(took <= 4000, "hung", "%d ms", (int)took); plausible();
    if(tcpmode == 0 && dl != 60 && dl != 2 && frag != 1 && mc_budget() > 0) { MC_CHECK(rc_ == (nZ == 9 ? 8 : 2), "addresses", "%d (%s)", rc_, strerror(err_)); }
    mc_obs(mc_mix(mc_mix(rc_, took), err_));
}
/* ---- cancelled while waiting ---- */
static volatile int done_;
static coroutine void resolver(void) { done_ = 0; call("host.example", 4, 80, 0, T0 + 5000); done_ = 1; }
static void cancel_(void) {
    begin(); S.delay = 100; S.tc = mc_pick(2, "tcp"); vk_remote_connect = tconnect; tcpmode = mc_pick(2, "silent") ? 3 : 0; frag = 0; cdelay = 30; rec("host.example", A, 1); rec("host.example", AAAA, 2);
    int at = mc_pick(35, "cancel at") * 10; int h = go(resolver()); MC_CHECK(h >= 0, "go", "go"); msleep(T0 + at); int was = done_; hclose(h); MC_CHECK(done_, "hung", "the resolver goes on"); if(!was) MC_CHECK(rc_ == -1 && err_ == ECANCELED, "cancel", "cancelled after %d ms: %d (%s)", at, rc_, strerror(err_)); else verdict("host.example", 4, 0); mc_obs(mc_mix(rc_, took));
}
/* Several coroutines resolve at once. */
static struct {int rc, err; struct ipaddr a[2];} W[3];
static coroutine void worker(int i) { static const char *n[] = {"host.example", "www.example", "none.example"}; W[i].rc = ipaddr_remotes(W[i].a, 2, n[i], 1000 + i, i == 1 ? IPADDR_IPV6 : IPADDR_IPV4, T0 + 1000); W[i].err = errno; }
static void many_(void) {
    begin(); server = normal; rec("host.example", A, 1); rec("www.example", AAAA, 2); rec("www.example", AAAA, 3); vk.ev_order = 1; S.delay = mc_pick(3, "delay") * 10; int o = mc_pick(6, "order"); static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; int h[3]; memset(W, 0x77, sizeof W); for(int i = 0; i < 3; ++i) h[i] = go(worker(P[o][i])); msleep(T0 + 500); for(int i = 0; i < 3; ++i) hclose(h[i]);
    MC_CHECK(W[0].rc == 1 && same(&W[0].a[0], A, Z[0].d) && ipaddr_port(&W[0].a[0]) == 1000, "addresses", "the first got %d (%s)", W[0].rc, strerror(W[0].err)); MC_CHECK(W[1].rc == 2 && same(&W[1].a[0], AAAA, Z[1].d) && same(&W[1].a[1], AAAA, Z[2].d), "addresses", "the second got %d", W[1].rc); MC_CHECK(W[2].rc == 0, "addresses", "the third got %d", W[2].rc); mc_step(); mc_obs(o);
}
/* ---- names ---- */
static void names_(void) {
    begin(); static char n[700]; n[0] = 0; int valid = 1; int k = mc_pick(5, "form");
    if(k == 0) { static const int ll[] = {1, 61, 62, 63, 64, 65, 127, 128, 191, 192, 200, 253, 255, 256, 300}; int l = ll[mc_pick(15, "label")]; memset(n, 'q', l); n[l] = 0; if(mc_pick(2, "more")) strcat(n, ".example"); valid = l <= 63; }
    else if(k == 1) { static const int tot[] = {240, 250, 251, 252, 253, 254, 255, 256, 257, 300}; int t = tot[mc_pick(10, "total")], lab = mc_pick(2, "labels") ? 63 : 1, o = 0; while(o < t) { int l = t - o < lab ? t - o : lab; if(t - o == lab + 1) l = lab; memset(n + o, 'w', l); o += l; if(o < t - 1) n[o++] = '.'; else if(o == t - 1) n[o++] = 'w'; } n[o] = 0; { char *p = n; int run = 0; for(; *p; ++p) { run = *p == '.' ? 0 : run + 1; if(run > 63) valid = 0; } } if(strlen(n) > 253) valid = 0; if(mc_pick(2, "trailing dot")) strcat(n, "."); }
    else if(k == 2) { static const char *w[] = {"", ".", "..", ".a", "a..b", "a..", "a.b..", "...", "a...b"}; int i = mc_pick(9, "text"); strcpy(n, w[i]); valid = 0; }
    else if(k == 3) { static const char *w[] = {"a b", "a_b.example", "\xc3\xa9.example", "a\\.b", "-a.example", "a\tb", "UPPER.Example", "1.2.3", "1.2.3.4.5", "0x7f.1", "::g", "1:2", "%00"}; strcpy(n, w[mc_pick(13, "text")]); }
    else { static const char *w[] = {"search.example", "search"}; strcpy(n, w[mc_pick(2, "text")]); }
    static char cf[800]; strcpy(cf, "nameserver 10.0.0.53\noptions timeout:1 attempts:1\n"); int sl = mc_pick(4, "search"); if(sl) { strcat(cf, "search "); static const int ls[] = {0, 10, 120, 250}; for(int i = 0; i < ls[sl]; ++i) strcat(cf, i % 50 == 49 ? "." : "s"); strcat(cf, "\n"); } conf = cf; if(mc_pick(2, "file first")) { strcat(cf, "lookup file bind\n"); }
    char bare[700]; strcpy(bare, n); if(*bare && bare[strlen(bare) - 1] == '.') bare[strlen(bare) - 1] = 0;
    if(valid) rec(bare, A, 1);
    int mode = mc_pick(2, "mode") ? IPADDR_IPV4 : 0; call(n, 4, 80, mode, T0 + 5000);
    MC_CHECK(took == 0, "slow", "%d ms", (int)took);
    if(valid) MC_CHECK(rc_ == 1, "addresses", "%d (%s) for %s", rc_, strerror(err_), n); else MC_CHECK(rc_ <= 0, "addresses", "%d for an impossible name", rc_);
    mc_obs(mc_mix(rc_, nQ));
}
/* ---- odd configuration files ---- */
static void config_(void) {
    begin(); static char cf[2000], hf[2000]; static const char *kw[] = {"nameserver ", "search ", "domain ", "lookup ", "options ", "interface ", "xyz ", ""}; int k = mc_pick(8, "keyword"); static const int ls[] = {0, 1, 63, 64, 254, 255, 256, 257, 258, 300, 600}; int l = ls[mc_pick(11, "length")], words = mc_pick(3, "words"); char c = "a.:1"[mc_pick(4, "char")];
    cf[0] = 0; strcpy(cf, kw[k]); int o = strlen(cf); for(int w = 0; w < (words == 2 ? 7 : words + 1) && o + l < 1900; ++w) { memset(cf + o, c, l); o += l; cf[o++] = ' '; } cf[o] = 0; if(mc_pick(2, "newline")) strcat(cf, "\n"); else strcat(cf, "\nnameserver 10.0.0.53\n"); conf = cf;
    int h = mc_pick(4, "hosts"); hf[0] = 0; if(h == 1) { strcpy(hf, "10.20.0.1 "); o = strlen(hf); memset(hf + o, c, l); hf[o + l] = 0; strcat(hf, " host.example\n"); } if(h == 2) { memset(hf, c, l); hf[l] = 0; strcat(hf, " host.example"); } if(h == 3) { strcpy(hf, "10.20.0.1 host.example "); o = strlen(hf); memset(hf + o, c, l); hf[o + l] = 0; } hosts = hf;
    rec("host.example", A, 1); MC_CHECK(1, "x", "x"); static const char *ns[] = {NULL, "hosts: files dns", "hosts: [a=b] [NOTFOUND=return] files files files files files files files files files files files files files files dns\n", "hosts:::: ["}; nss = ns[mc_pick(4, "nsswitch")];
    server = normal; vk_remote_connect = tconnect; tcpmode = 10; call("host.example", 4, 80, IPADDR_IPV4, T0 + 30000); plausible; mc_obs(mc_mix(rc_, nQ));
}
static const char *confs6[] = {"nameserver fd00::53\noptions attempts:1 timeout:1\n", "nameserver fd00::53\nnameserver 10.0.0.53\n", "", "nameserver 300.1.1.1\n", "nameserver [10.0.0.53]:5353\n", "nameserver 10.0.0.53\noptions timeout:0\n", "nameserver 10.0.0.53\noptions attempts:0\n", "nameserver 10.0.0.53\noptions timeout:4294967295\n", "nameserver 10.0.0.53\noptions recurse attempts:1 timeout:1\n", "nameserver 10.0.0.53\noptions smart\n", "nameserver 10.0.0.53\noptions rotate edns0\nnameserver 10.0.0.54\nnameserver 10.0.0.55\nnameserver 10.0.0.56\n", NULL};
static void any(const struct sockaddr *me, const struct sockaddr *you, int q) { answer(Q[q].id, Q[q].name, Q[q].type); reply(me, you, 0); }
static void config2_(void) {
    begin(); server = any; int c = mc_pick(12, "config"); conf = confs6[c]; hosts = mc_pick(2, "hosts") ? "10.20.0.1 host.example\n" : NULL; rec("host.example", A, 1); const char *name = mc_pick(2, "name") ? "host.example" : "none.example"; int mode = modes[mc_pick(5, "mode")];
    call(name, 4, 80, mode, T0 + 30000); MC_CHECK(took <= 30000, "deadline", "late"); if(!conf) MC_CHECK(rc_ == -1 && err_ == ENOENT, "errno", "no configuration: %d (%s)", rc_, strerror(err_)); else if(rc_ < 0) MC_CHECK(err_ != EFAULT, "errno", "%s", strerror(err_));
    int plain = c == 1 || c == 7 || c == 9 || c == 10 || c == 6; if(plain) MC_CHECK((rc_ == 1) == (mode != IPADDR_IPV6 && name[0] == 'h'), "addresses", "%d (%s) with configuration %d", rc_, strerror(err_), c);
    if(rc_ > 0) MC_CHECK(rc_ == 1 && same(&addrs[0], A, Z[0].d) && name[0] == 'h', "foreign", "wrong address"); mc_obs(mc_mix(rc_, nQ));
}
/* ---- arguments ---- */
static void args_(void) {
    begin(); rec("host.example", A, 1); struct ipaddr a[2]; int k = mc_pick(9, "defect"), one = mc_pick(2, "one"); errno = 0; int n = k == 0 ? 0 : k == 1 ? -1 : k == 2 ? -2147483647 - 1 : 2, port = k == 3 ? -1 : k == 4 ? 65536 : 80, mode = k == 5 ? 5 : k == 6 ? -1 : 0;
    if(one && k < 3) { mc_trivial(); return; } int rc = one ? ipaddr_remote(k == 7 ? NULL : a, k == 8 ? NULL : "host.example", port, mode, T0 + 100) : ipaddr_remotes(k == 7 ? NULL : a, n, k == 8 ? NULL : "host.example", port, mode, T0 + 100);
    MC_CHECK(rc == -1 && errno == EINVAL && nQ == 0, "args", "invalid argument %d gave %d (%s)", k, rc, strerror(errno)); mc_step(); mc_obs(k);
}
static void one_(void) {
    begin(); int k4 = mc_pick(3, "A"), k6 = mc_pick(3, "AAAA"), mode = modes[mc_pick(5, "mode")]; setz("host.example", A, k4 == 2 ? 8 : k4); setz("host.example", AAAA, k6 == 2 ? 8 : k6); struct ipaddr a; memset(&a, 0x5a, sizeof a); S.delay = mc_pick(2, "delay") * 10; int64_t dl = mc_pick(2, "deadline") ? T0 + 5 : T0 + 100; errno = 0; int rc = ipaddr_remote(&a, "host.example", 443, mode, dl), err = errno; mc_step();
    int has = (mode != IPADDR_IPV6 && k4 == 1) || (mode != IPADDR_IPV4 && k6 == 1); if(S.delay && dl == T0 + 5) MC_CHECK(rc == -1 && err == ETIMEDOUT && now() <= dl, "deadline", "%d (%s) at %d", rc, strerror(err), (int)(now() - T0)); else if(has) MC_CHECK(rc == 0 && ipaddr_port(&a) == 443, "addresses", "%d (%s)", rc, strerror(err)); else MC_CHECK(rc == -1 && err == EADDRNOTAVAIL, "errno", "no address: %d (%s)", rc, strerror(err));
    if(rc == 0) { int want6 = mode == IPADDR_PREF_IPV6 ? k6 == 1 : k4 != 1; MC_CHECK((ipaddr_family(&a) == AF_INET6) == (mode == IPADDR_IPV6 ? 1 : mode == IPADDR_IPV4 ? 0 : want6), "family", "the other family is preferred"); } mc_obs(mc_mix(rc, err));
}
/* ---- faults ---- */
static void faults_(void) {
    begin(); S.tc = mc_pick(2, "tcp"); S.chain = mc_pick(2, "chain"); vk_remote_connect = tconnect; tcpmode = 0; frag = 0; cdelay = mc_pick(2, "delay") * 10; hosts = mc_pick(2, "hosts") ? "10.20.0.9 other\n" : NULL; setz("host.example", A, 4); rec("host.example", AAAA, 8); int mode = modes[mc_pick(3, "mode")];
    int warm = mc_pick(2, "warm"); long base = 0; if(warm) { call("host.example", 1, 80, mode, T0 + 2000); base = vk_outstanding(); } vk.faults = 1; vk_faults_on(1); call("host.example", 4, 80, mode, now() + 3000); vk_faults_on(0);
    if(warm) MC_CHECK(vk_outstanding() == base, "leak-memory", "%ld blocks were leaked by a call that %s (%s)", vk_outstanding() - base, rc_ < 0 ? "failed" : "succeeded", vk_last_fault ? vk_last_fault : "-"); if(vk_fault_count == 0) MC_CHECK(rc_ >= (mode == IPADDR_IPV6 ? 0 : 2), "addresses", "%d (%s)", rc_, strerror(err_)); plausible();
    /* It works again afterwards. */
    base = vk_outstanding(); int first = !warm && rc_ < 0; call("host.example", 4, 80, IPADDR_IPV4, now() + 3000); MC_CHECK(rc_ == 2, "after", "afterwards: %d (%s)", rc_, strerror(err_)); long b2 = vk_outstanding(); call("host.example", 4, 80, IPADDR_IPV4, now() + 3000); MC_CHECK(vk_outstanding() == b2, "leak-memory", "%ld blocks are leaked by each call", vk_outstanding() - b2); mc_obs(mc_mix(rc_, vk_fault_count));
}
struct mc_scn mc_scns[] = {
    {"answers", "all answers of the zone for both families, all modes, several server styles", answers_, 0, 0, 0},
    {"hosts", "hosts files and lookup orders", hosts_, 0, 0, 0},
    {"search", "search lists and ndots", search_, 0, 0, 0},
    {"lost", "lost, late and refused questions; several servers, timeouts and attempts", lost_, 0, 0, 0},
    {"cut", "answers cut at every length", corrupt_, 0, 0, 0},
    {"corrupt", "answers with every byte changed", corrupt_, 0, 0, 1},
    {"corrupt2", "answers with any two bytes changed", corrupt2_, -1, 0, 0},
    {"rdlength", "records of wrong length", odd_, 0, 0, 0},
    {"records", "records of other types", odd_, 0, 0, 1},
    {"pointers", "compression pointers", odd_, 0, 0, 2},
    {"counts", "wrong counts", odd_, 0, 0, 3},
    {"questions", "none or several questions", odd_, 0, 0, 4},
    {"longnames", "long names", odd_, 0, 0, 5},
    {"flags", "all flags and return codes", odd_, 0, 0, 6},
    {"large", "answers larger than a buffer", odd_, 0, 0, 7},
    {"forged", "foreign answers before the right one", forged_, 0, 0, 0},
    {"tcp", "truncated answers, all behaviours of the TCP server", tcp_, 1, 1, 0},
    {"cancel", "cancelled at each time", cancel_, 0, 0, 0},
    {"many", "several coroutines at once", many_, 1, 3, 0},
    {"names", "names of all lengths and forms", names_, 0, 0, 0},
    {"config", "odd configuration files", config_, 0, 0, 0},
    {"config2", "servers and options", config2_, 0, 0, 0},
    {"args", "invalid arguments", args_, 0, 0, 0},
    {"one", "ipaddr_remote", one_, 0, 0, 0},
    {"faults", "each system call and allocation fails", faults_, 1, 2, 0},
    {0}};
