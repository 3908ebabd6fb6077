/* C19: IP addresses. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include <stdlib.h>
#include <ifaddrs.h>
#include <arpa/inet.h>
#include <netinet/in.h>

const char *mc_property = "C19";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {"inet_pton and inet_ntop of the system are the reference for literals", "resolving names is the subject of C29", NULL};

static int modes[] = {0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6};
static int badmodes[] = {-1, 5, 6, 100, 1 << 30};
struct box { uint8_t pre[32]; struct ipaddr a; uint8_t post[32]; };
static void prep(struct box *b) { memset(b, 0xEE, sizeof *b); }
static void intact(struct box *b, const char *what) { for(int i = 0; i < 32; ++i) MC_CHECK(b->pre[i] == 0xEE && b->post[i] == 0xEE, "overrun", "%s wrote outside of the address", what); }
/* Everything known about an address. */
static void examine(struct ipaddr *a, int fam, const void *raw, int port, const char *what) {
    char s[64]; memset(s, 0x7e, sizeof s);
    MC_CHECK(ipaddr_family(a) == fam, "family", "%s: family %d instead of %d", what, ipaddr_family(a), fam);
    MC_CHECK(ipaddr_len(a) == (fam == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)), "len", "%s: length %d", what, ipaddr_len(a));
    MC_CHECK(ipaddr_port(a) == port, "port", "%s: port %d instead of %d", what, ipaddr_port(a), port);
    const struct sockaddr *sa = ipaddr_sockaddr(a); MC_CHECK(sa->sa_family == fam, "sockaddr", "%s", what);
    const void *r = fam == AF_INET ? (void*)&((struct sockaddr_in*)sa)->sin_addr : (void*)&((struct sockaddr_in6*)sa)->sin6_addr;
    MC_CHECK(!memcmp(r, raw, fam == AF_INET ? 4 : 16), "address", "%s: wrong address", what);
    MC_CHECK(ntohs(fam == AF_INET ? ((struct sockaddr_in*)sa)->sin_port : ((struct sockaddr_in6*)sa)->sin6_port) == port, "port", "%s", what);
    if(fam == AF_INET6) MC_CHECK(((struct sockaddr_in6*)sa)->sin6_flowinfo == 0, "flowinfo", "%s: the flow information is not zero", what);
    char ref[64]; inet_ntop(fam, raw, ref, sizeof ref); const char *t = ipaddr_str(a, s); MC_CHECK(t == s && !strcmp(s, ref), "str", "%s: printed as %s instead of %s", what, s, ref); for(int i = IPADDR_MAXSTRLEN; i < 64; ++i) MC_CHECK(s[i] == 0x7e, "str-overrun", "%s", what);
}
/* What a name means as a literal: the family, or 0. */
static int literal(const char *n, int mode, uint8_t *raw) {
    uint8_t r4[4], r6[16]; int is4 = inet_pton(AF_INET, n, r4) == 1, is6 = inet_pton(AF_INET6, n, r6) == 1;
    if(is4 && mode != IPADDR_IPV6) { memcpy(raw, r4, 4); return AF_INET; }
    if(is6 && mode != IPADDR_IPV4) { memcpy(raw, r6, 16); return AF_INET6; }
    return 0;
}
static void *noifs(void) { return NULL; }
static void one(const char *n, int port) {
    uint8_t raw[16];
    for(int m = 0; m < 5; ++m) {
        int fam = literal(n, modes[m], raw); struct box b; prep(&b); errno = 0; int rc = ipaddr_local(&b.a, n, port, modes[m]), err = errno; mc_step(); intact(&b, "ipaddr_local");
        if(!fam) MC_CHECK(rc == -1 && err == ENODEV, "local", "ipaddr_local(\"%s\", mode %d) gave %d (%s)", n, modes[m], rc, strerror(err));
        else { MC_CHECK(rc == 0, "local", "ipaddr_local(\"%s\", mode %d): %s", n, modes[m], strerror(err)); examine(&b.a, fam, raw, port, n); }
        /* Remote addresses: literals of the other family give none, other names need a resolver. */
        uint8_t any[16]; if(!literal(n, 0, any)) continue;
        struct { uint8_t pre[32]; struct ipaddr a[3]; uint8_t post[32]; } c; memset(&c, 0xEE, sizeof c); int cnt = 1 + m % 3; rc = ipaddr_remotes(c.a, cnt, n, port, modes[m], -1);
        MC_CHECK(rc == (fam ? 1 : 0), "remotes", "ipaddr_remotes(\"%s\", mode %d) gave %d", n, modes[m], rc); if(fam) examine(&c.a[0], fam, raw, port, n); for(int i = 0; i < 32; ++i) MC_CHECK(c.pre[i] == 0xEE && c.post[i] == 0xEE, "overrun", "ipaddr_remotes"); for(size_t i = 0; i < sizeof(struct ipaddr) * 2; ++i) MC_CHECK(((uint8_t*)&c.a[1])[i] == 0xEE, "overrun", "ipaddr_remotes wrote a second address");
        prep(&b); errno = 0; rc = ipaddr_remote(&b.a, n, port, modes[m], -1); intact(&b, "ipaddr_remote"); if(fam) { MC_CHECK(rc == 0, "remote", "ipaddr_remote(\"%s\")", n); examine(&b.a, fam, raw, port, n); } else MC_CHECK(rc == -1 && errno == EADDRNOTAVAIL, "remote", "ipaddr_remote(\"%s\", mode %d) gave %d (%s)", n, modes[m], rc, strerror(errno));
    }
}
static void texts_(void) {
    static const char *tok[] = {".", ":", "1", "0", "255", "256", "a", "::", "ffff", "01", "g", "%", " ", "1.2.3.4"}; int nt = mc_arg ? 5 : 14, len = mc_arg ? (mc_thorough ? 10 : 8) : mc_thorough ? 7 : 6; vk_ifaddrs = noifs;
    int a = mc_pick(nt + 1, "token"), b = mc_pick(nt + 1, "token"), c = mc_pick(nt + 1, "token"); char s[100]; int i[12] = {0}; int rest = len - 3;
    for(;;) { strcpy(s, a < nt ? tok[a] : ""); strcat(s, b < nt ? tok[b] : ""); strcat(s, c < nt ? tok[c] : ""); for(int k = 0; k < rest; ++k) if(i[k] < nt) strcat(s, tok[i[k]]);
        one(s, 80); int k = 0; while(k < rest && ++i[k] > nt) i[k++] = 0; if(k == rest) break; }
    mc_obs(mc_mix(a, b * 100 + c));
}
static void long_(void) {
    static const char *w[] = {"1:2:3:4:5:6:7:8", "::", "::1", "1::", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4::5:6:7:8", "1:2:3:4:5:6:7:8:9", "1::2::3", "::ffff:1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "abcd:ef01:2345:6789:abcd:ef01:2345:6789", "ABCD::EF", "12345::", "::fffff", "fe80::1%lo", "[::1]", "255.255.255.255", "0.0.0.0", "1.2.3", "1.2.3.4.5", "1.2.3.4 ", " 1.2.3.4", "0x1.2.3.4", "1.2.3.04", "1.2.3.256", "", "lo", "localhost.", "1..2.3", "::1.2.3.4", "::ffff:255.255.255.255", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"};
    int k = mc_pick(35, "text"); static const int ports[] = {1, 80, 255, 256, 32767, 32768, 65535, 0}; vk_ifaddrs = noifs; one(w[k], ports[mc_pick(8, "port")]); mc_obs(k);
}
/* Printing and parsing, ports, comparison. */
static void print_(void) {
    int v6 = mc_pick(2, "IPv6"); static const int g4[] = {0, 1, 9, 10, 99, 100, 199, 200, 249, 255}, g6[] = {0, 1, 0xa, 0xff, 0x1000, 0xffff}; vk_ifaddrs = noifs;
    uint8_t r[16]; int n = v6 ? 8 : 4, m = v6 ? 6 : 10, i[8] = {0}; if(!v6) i[0] = mc_pick(10, "byte"); else { i[0] = mc_pick(6, "group"); i[1] = mc_pick(6, "group"); i[2] = mc_pick(6, "group"); } int fix = v6 ? 3 : 1; if(v6 && !mc_thorough) m = 4;
    for(;;) {
        for(int k = 0; k < n; ++k) if(v6) { r[k * 2] = g6[i[k]] >> 8; r[k * 2 + 1] = g6[i[k]]; } else r[k] = g4[i[k]];
        char s[64]; inet_ntop(v6 ? AF_INET6 : AF_INET, r, s, 64); struct ipaddr a, b; MC_CHECK(ipaddr_local(&a, s, 1234, 0) == 0, "roundtrip", "%s", s); examine(&a, v6 ? AF_INET6 : AF_INET, r, 1234, s); char t[IPADDR_MAXSTRLEN]; ipaddr_str(&a, t); MC_CHECK(ipaddr_local(&b, t, 1234, 0) == 0 && ipaddr_equal(&a, &b, 0), "roundtrip", "%s", t); mc_step();
        int k = fix; while(k < n && ++i[k] >= m) i[k++] = 0; if(k == n) break;
    }
    mc_obs(v6 * 1000 + i[0]);
}
static void ports_(void) {
    int v6 = mc_pick(2, "IPv6"), hi = mc_pick(64, "port"); struct box b; prep(&b); vk_ifaddrs = noifs; ipaddr_local(&b.a, v6 ? "1:2::3" : "1.2.3.4", 1, 0); uint8_t raw[16]; literal(v6 ? "1:2::3" : "1.2.3.4", 0, raw);
    for(int p = hi * 1024; p < hi * 1024 + 1024; ++p) { ipaddr_setport(&b.a, p); examine(&b.a, v6 ? AF_INET6 : AF_INET, raw, p, "setport"); struct ipaddr c; MC_CHECK(ipaddr_local(&c, v6 ? "1:2::3" : "1.2.3.4", p, 0) == 0 && ipaddr_equal(&b.a, &c, 0) && ipaddr_equal(&b.a, &c, 1), "port", "%d", p); MC_CHECK(ipaddr_remote(&c, v6 ? "1:2::3" : "1.2.3.4", p, 0, -1) == 0 && ipaddr_port(&c) == p, "port", "%d", p); MC_CHECK(ipaddr_local(&c, NULL, p, v6 ? IPADDR_IPV6 : 0) == 0 && ipaddr_port(&c) == p, "port", "%d", p); mc_step(); }
    intact(&b, "ipaddr_setport"); mc_obs(v6 * 64 + hi);
}
static void equal_(void) {
    int v6 = mc_pick(2, "IPv6"), bits = v6 ? 128 : 32, base = mc_pick(4, "base"); uint8_t r[2][16]; for(int i = 0; i < 16; ++i) r[0][i] = r[1][i] = base == 0 ? 0 : base == 1 ? 255 : base == 2 ? i * 17 : i; int d = mc_pick(bits + 1, "difference"); if(d < bits) r[1][d / 8] ^= 1 << d % 8;
    int pd = mc_pick(17, "difference of ports"); int p[2] = {0x1234, pd < 16 ? 0x1234 ^ 1 << pd : 0x1234}; struct ipaddr a[2]; memset(a, 0xA5, sizeof a);
    for(int i = 0; i < 2; ++i) if(v6) { struct sockaddr_in6 *s = (void*)&a[i]; s->sin6_family = AF_INET6; s->sin6_port = htons(p[i]); memcpy(&s->sin6_addr, r[i], 16); } else { struct sockaddr_in *s = (void*)&a[i]; s->sin_family = AF_INET; s->sin_port = htons(p[i]); memcpy(&s->sin_addr, r[i], 4); if(i) memset(s->sin_zero, 3, 8); }
    int same = d == bits, sp = pd == 16; for(int k = 0; k < 2; ++k) { MC_CHECK(ipaddr_equal(&a[k], &a[!k], 0) == (same && sp), "equal", "bit %d, port bit %d", d, pd); MC_CHECK(ipaddr_equal(&a[k], &a[!k], 1) == same, "equal", "bit %d, port bit %d, ports ignored", d, pd); MC_CHECK(ipaddr_equal(&a[k], &a[k], 0) == 1, "equal", "itself"); }
    /* The families differ. */
    struct ipaddr o; vk_ifaddrs = noifs; ipaddr_local(&o, v6 ? "1.2.3.4" : "::ffff:1.2.3.4", p[0], 0); for(int g = 0; g < 2; ++g) MC_CHECK(!ipaddr_equal(&o, &a[0], g) && !ipaddr_equal(&a[0], &o, g), "equal", "addresses of different families"); mc_step(); mc_obs(mc_mix(d, pd));
}
/* Interfaces. */
static struct ifaddrs ifs[5]; static struct sockaddr_in6 sas[5]; static int nifs;
static void *iflist(void) { return nifs ? ifs : NULL; }
static void iface_(void) {
    nifs = mc_pick(mc_thorough ? 6 : 5, "entries"); memset(ifs, 0, sizeof ifs); memset(sas, 0, sizeof sas); vk.faults = 1; int w4 = -1, w6 = -1;
    for(int i = 0; i < nifs; ++i) {
        ifs[i].ifa_next = i + 1 < nifs ? &ifs[i + 1] : NULL; int k = mc_pick(mc_thorough || nifs < 4 ? 9 : 6, "entry"); static char *nm[] = {"eth0", "eth1", "eth"}; int name = k < 6 ? k / 4 : 0; if(k == 8) name = 2; ifs[i].ifa_name = nm[name];
        int fam = k == 7 ? -1 : k == 6 ? AF_PACKET : k == 8 ? AF_INET : (k % 4 == 0) || k == 4 ? AF_INET : k % 4 == 1 || k == 5 ? AF_INET6 : k == 2 ? AF_PACKET : -1;
        if(fam >= 0) { ifs[i].ifa_addr = (void*)&sas[i]; sas[i].sin6_family = fam; if(fam == AF_INET) { struct sockaddr_in *s = (void*)&sas[i]; s->sin_addr.s_addr = htonl(0x0a000001 + i); } else if(fam == AF_INET6) { sas[i].sin6_addr.s6_addr[0] = 0xfe; sas[i].sin6_addr.s6_addr[15] = i + 1; sas[i].sin6_scope_id = 3; } }
        if(name == 0 && fam == AF_INET && w4 < 0) w4 = i; if(name == 0 && fam == AF_INET6 && w6 < 0) w6 = i;
    }
    vk_ifaddrs = iflist;
    for(int m = 0; m < 5; ++m) {
        int mode = modes[m], w = mode == IPADDR_IPV4 ? w4 : mode == IPADDR_IPV6 ? w6 : mode == IPADDR_PREF_IPV6 ? (w6 >= 0 ? w6 : w4) : w4 >= 0 ? w4 : w6; struct box b; prep(&b); int f0 = vk_fault_count; vk_faults_on(1); errno = 0; int rc = ipaddr_local(&b.a, "eth0", 7777, mode), err = errno; vk_faults_on(0); intact(&b, "ipaddr_local"); mc_step();
        if(vk_fault_count > f0) MC_CHECK(rc == -1 && err, "fault", "ipaddr_local gave %d (%s)", rc, strerror(err));
        else if(w < 0) MC_CHECK(rc == -1 && err == ENODEV, "iface", "an interface without an address gave %d (%s)", rc, strerror(err));
        else { MC_CHECK(rc == 0, "iface", "mode %d: %s", mode, strerror(err)); int fam = sas[w].sin6_family; examine(&b.a, fam, fam == AF_INET ? (void*)&((struct sockaddr_in*)&sas[w])->sin_addr : (void*)&sas[w].sin6_addr, 7777, "interface"); }
    }
    mc_obs(mc_mix(w4, w6));
}
static void args_(void) {
    struct ipaddr a[2]; int k = mc_pick(6, "defect"), fn = mc_pick(3, "function"), ni = mc_pick(4, "name"); static const char *names[] = {"1.2.3.4", "::1", "eth0", NULL}; const char *n = names[ni]; int mode = 0, port = 80, cnt = 2, want = 0; static const int bp[] = {-1, 65536, 1 << 30, -65536, 65536 + 80};
    vk_ifaddrs = noifs; struct ipaddr *p = a;
    if(k == 0) { mode = badmodes[mc_pick(5, "mode")]; want = EINVAL; } else if(k == 1) { port = bp[mc_pick(5, "port")]; want = EINVAL; }
    else if(k == 2) { if(fn != 2) { mc_trivial(); return; } cnt = 0; want = EINVAL; } else if(k == 3) { if(fn != 2) { mc_trivial(); return; } cnt = -3; want = EINVAL; }
    else if(k == 4) { if(fn == 0) { mc_trivial(); return; } p = NULL; want = EINVAL; } else if(fn == 0 || n) { mc_trivial(); return; }
    if(fn && (ni == 3 || k == 5)) want = EINVAL;
    if(fn && ni == 2 && k > 1) { }
    if(fn == 0 && !n) { /* any address */ if(k > 1) { mc_trivial(); return; } }
    int fds = vk_open_fds(); errno = 0; int rc = fn == 0 ? ipaddr_local(p, n, port, mode) : fn == 1 ? ipaddr_remote(p, n, port, mode, 0) : ipaddr_remotes(p, cnt, n, port, mode, 0);
    MC_CHECK(rc == -1 && errno == want, "args", "invalid argument %d of function %d gave %d (%s)", k, fn, rc, strerror(errno)); MC_CHECK(vk_open_fds() == fds, "leak", "descriptors"); mc_step(); mc_obs(k * 12 + fn * 4 + ni);
}
static void any_(void) {
    int m = mc_pick(5, "mode"), port = mc_pick(3, "port") * 32000; struct box b; prep(&b); int rc = ipaddr_local(&b.a, NULL, port, modes[m]); static const uint8_t z[16]; MC_CHECK(rc == 0, "any", "ipaddr_local(NULL)"); examine(&b.a, modes[m] == IPADDR_IPV6 || modes[m] == IPADDR_PREF_IPV6 ? AF_INET6 : AF_INET, z, port, "any"); intact(&b, "ipaddr_local"); mc_step(); mc_obs(m);
}
struct mc_scn mc_scns[] = {
    {"texts", "every text of up to 6-7 of 14 tokens, every mode, local and remote", texts_, 0, 0, 0},
    {"numbers", "every text of up to 8-10 of 5 tokens", texts_, 0, 0, 1},
    {"long", "chosen texts, every kind of port", long_, 0, 0, 0},
    {"print", "addresses of boundary bytes: printed, parsed, compared", print_, 0, 0, 0},
    {"ports", "every port number", ports_, 0, 0, 0},
    {"equal", "addresses that differ in any one bit of the address and of the port", equal_, 0, 0, 0},
    {"iface", "every list of up to 4-5 interface entries, every mode, failures", iface_, 1, 1, 0},
    {"args", "invalid arguments", args_, 0, 0, 0},
    {"any", "no name", any_, 0, 0, 0},
    {0}};
