/* Connecting, accepting and wrapping of descriptors: used by C10 and C35. */
static uint8_t pat[8192];
static int ipc; static struct vstream *rem; static int64_t t0;
static int base_fds;
static void begin(void) { for(size_t i = 0; i < sizeof pat; ++i) pat[i] = gl_pat(i); ipc = mc_pick(2, "ipc"); base_fds = vk_open_fds(); t0 = now(); }
static int conn(int *fd) {
    *fd = vk_stream_fd(ipc ? AF_UNIX : AF_INET, &rem);
    int s = ipc ? ipc_fromfd(*fd) : tcp_fromfd(*fd);
    MC_CHECK(s >= 0, "fromfd", "fromfd: %s", strerror(errno));
    return s;
}
static int done_(int s, int64_t dl) { return ipc ? ipc_done(s, dl) : tcp_done(s, dl); }
static int close_(int s, int64_t dl) { return ipc ? ipc_close(s, dl) : tcp_close(s, dl); }
static void dead(int s) {
    char c; 
    errno = 0; MC_CHECK(hclose(s) == -1 && errno == EBADF, "stale-handle", "the handle still exists after close");
}

/* ---- connect ---- */
static int rc_mode; static int64_t rc_delay; static const int rc_errs[] = {ECONNREFUSED, EHOSTUNREACH, ENETUNREACH, ECONNRESET, EACCES, EPERM};
static int remote(const struct sockaddr *sa, int64_t *delay, struct vstream *r) {
    *delay = rc_delay * 1000; rem = r;
    if(rc_mode == 0) return 0;
    if(rc_mode == 1) return VK_BLACKHOLE;
    return -rc_errs[rc_mode - 2];
}
static int nrc, nerr, ndone; static int64_t nat;
static struct tcp_storage cmem; static struct ipaddr addr;
static coroutine void connector(int64_t dl, int mem) { errno = 0; nrc = mem ? tcp_connect_mem(&addr, &cmem, dl) : tcp_connect(&addr, dl); nerr = errno; nat = vk_us() / 1000 - t0; ndone = 1; }
static void connect_(void) {
    for(size_t i = 0; i < sizeof pat; ++i) pat[i] = gl_pat(i);
    ipc = 0;
    vk.connect_async = 1; vk.short_rw = vk.eagain = 1; vk.eintr = 1; vk.ev_limit = 1;
    MC_CHECK(ipaddr_remote(&addr, mc_pick(2, "v6") ? "2001:db8::1" : "10.1.2.3", 80, 0, -1) == 0, "addr", "addr");
    t0 = now(); base_fds = vk_open_fds();
    vk_remote_connect = remote; rc_mode = mc_pick(8, "remote"); rc_delay = 2 * mc_pick(3, "delay");
    int k = mc_pick(3, "deadline"); int64_t dl = k == 0 ? -1 : k == 1 ? 3 : 0; 
    int cn = mc_pick(3, "cancel"); int64_t ca = cn == 0 ? 20 : cn == 1 ? 1 : 5;
    int mem = mc_pick(2, "mem");
    ndone = 0;
    int h = go(connector(dl <= 0 ? dl : t0 + dl, mem));
    if(!ndone) msleep(t0 + ca);
    int cancelled = !ndone;
    hclose(h);
    MC_CHECK(ndone, "hung", "connect has not returned");
    if(!cancelled) ca = INT64_MAX;
    int64_t e = rc_mode == 1 ? INT64_MAX : rc_delay, d = dl < 0 ? INT64_MAX : dl, at; int exp;
    if(e <= d && e <= ca && e != INT64_MAX) { exp = rc_mode == 0 ? 0 : rc_errs[rc_mode - 2]; at = e; }
    else if(d <= ca && d != INT64_MAX) { exp = ETIMEDOUT; at = d; }
    else { exp = ECANCELED; at = ca; }
    MC_CHECK((nrc >= 0 ? 0 : nerr) == exp, nrc >= 0 ? "false-success" : "result", "connect gave %d (%s), expected %s", nrc, nrc < 0 ? strerror(nerr) : "ok", exp ? strerror(exp) : "success");
    if(exp != ECANCELED) MC_CHECK(nat == at, "late", "connect returned at %ld instead of %ld", (long)nat, (long)at);
    mc_step(); mc_obs(exp);
    if(exp) { MC_CHECK(vk_open_fds() <= base_fds + 1, "fd-left", "failed connect left a descriptor"); return; }
    MC_CHECK(bsend(nrc, "hello", 5, -1) == 0, "dead-connection", "bsend: %s", strerror(errno));
    char b[8]; MC_CHECK(vs_read(rem, b, 8) == 5 && !memcmp(b, "hello", 5), "data", "data");
    vs_write(rem, pat, 3); MC_CHECK(brecv(nrc, b, 3, -1) == 0 && !memcmp(b, pat, 3), "data", "brecv");
    vs_shut(rem);
    MC_CHECK(tcp_close(nrc, -1) == 0, "close", "close: %s", strerror(errno));
    dead(nrc);
    MC_CHECK(vs_closed(rem), "fd-left", "fd open");
}

/* ---- accept ---- */
#define MAXA 3
static struct {int rc, err, done; int64_t at, dl;} ac[MAXA]; static struct ipaddr aaddr[MAXA]; static int ls, nacc;
static struct vstream *cl[MAXA]; static int ncl;
static struct tcp_storage amem[MAXA]; static struct ipc_storage ajmem[MAXA];
static int usemem;
#define WANT(i) ((i + usemem) % 2 ? NULL : &aaddr[i])
static coroutine void acc(int n) { for(int i = 0; i < n; ++i) { errno = 0; int64_t d = ac[i].dl; if(d > 0) d += t0;
    ac[i].rc = ipc ? (usemem ? ipc_accept_mem(ls, &ajmem[i], d) : ipc_accept(ls, d)) : usemem ? tcp_accept_mem(ls, WANT(i), &amem[i], d) : tcp_accept(ls, WANT(i), d);
    ac[i].err = errno; ac[i].at = vk_us() / 1000 - t0; ac[i].done = 1; ++nacc; mc_log("accept = %d (%s)", ac[i].rc, ac[i].rc < 0 ? strerror(ac[i].err) : "ok"); } }
static void client(void *a) { cl[ncl] = vk_remote_client(ipc ? 0 : 5555, ipc ? "/s" : NULL); mc_log("  client %d connects: %s", ncl, cl[ncl] ? "ok" : "refused"); if(cl[ncl]) { vs_write(cl[ncl], pat + ncl * 10, 3); ++ncl; } }
static void accept_(void) {
    begin();
    vk.eagain = vk.eintr = vk.ev_limit = 1;
    usemem = mc_pick(2, "mem");
    struct ipaddr la; struct tcp_listener_storage tls; struct ipc_listener_storage jls;
    ipaddr_local(&la, "127.0.0.1", 5555, IPADDR_IPV4);
    ls = ipc ? (usemem ? ipc_listen_mem("/s", 5, &jls) : ipc_listen("/s", 5)) : usemem ? tcp_listen_mem(&la, 5, &tls) : tcp_listen(&la, 5);
    MC_CHECK(ls >= 0, "listen", "listen: %s", strerror(errno));
    int n = 1 + mc_pick(MAXA, "accepts");
    memset(ac, 0, sizeof ac); ncl = nacc = 0;
    int k = mc_pick(4, "clients"); int64_t cm[MAXA];
    for(int i = 0; i < k; ++i) { cm[i] = 2 * i + 2 * mc_pick(2, "when"); if(i && cm[i] < cm[i-1]) cm[i] = cm[i-1]; if(cm[i] == 0) client(NULL); else vk_at((t0 + cm[i]) * 1000, client, NULL); }
    for(int i = 0; i < n; ++i) { int x = mc_pick(3, "deadline"); ac[i].dl = x == 0 ? -1 : x == 1 ? 3 : 0; }
    int cn = mc_pick(2, "cancel"); int64_t ca = cn == 0 ? 20 : 1;
    int h = go(acc(n));
    if(nacc < n) msleep(t0 + ca);
    int before = nacc;
    hclose(h);
    MC_CHECK(nacc == n, "hung", "accept has not returned");
    /* Oracle: each accept takes the next client that has not been aborted. */
    int c = 0, ok = 0; int64_t t = 0;
    for(int i = 0; i < n; ++i) {
        mc_step();
        if(ac[i].rc < 0) {
            MC_CHECK(ac[i].err == ETIMEDOUT || ac[i].err == ECANCELED, "result", "accept: %s", strerror(ac[i].err));
            if(ac[i].err == ETIMEDOUT) { int64_t d = ac[i].dl < t ? t : ac[i].dl; MC_CHECK(ac[i].dl >= 0 && ac[i].at == d, "early-timeout", "accept with deadline %ld timed out at %ld", (long)ac[i].dl, (long)ac[i].at); }
            else MC_CHECK(i >= before, "spurious-cancel", "accept cancelled");
            /* Nobody was waiting, aborted ones excepted. */
            for(int j = c; j < k; ++j) if(cm[j] <= ac[i].at && cm[j] <= (ac[i].err == ECANCELED ? ca : ac[i].at)) { int aborted = vs_got_rst(cl[j]); MC_CHECK(aborted, "lost-client", "client %d connected at %ld was not accepted by the call which failed at %ld", j, (long)cm[j], (long)ac[i].at); c = j + 1; }
            t = ac[i].at;
            continue;
        }
        while(c < k && vs_got_rst(cl[c])) ++c;
        MC_CHECK(c < k, "phantom", "more accepted than connected");
        uint8_t b[3];
        MC_CHECK(brecv(ac[i].rc, b, 3, -1) == 0 && !memcmp(b, pat + c * 10, 3), "order", "accept %d did not give client %d", i, c);
        MC_CHECK(bsend(ac[i].rc, "abc", 3, -1) == 0 && vs_read(cl[c], b, 3) == 3, "dead-connection", "bsend");
        int64_t at = cm[c] < t ? t : cm[c];
        if(i < before) MC_CHECK(ac[i].at == at, "late", "client %d came at %ld, accept returned at %ld", c, (long)cm[c], (long)ac[i].at);
        MC_CHECK(brecv(ac[i].rc, b, 1, now() + 1) == -1 && errno == ETIMEDOUT, "silence", "brecv from a silent peer: %s", strerror(errno));
        if(!ipc && (i + usemem) % 2 == 0) { struct sockaddr_in *in = (void*)ipaddr_sockaddr(&aaddr[i]); MC_CHECK(ipaddr_family(&aaddr[i]) == AF_INET && in->sin_addr.s_addr == htonl(0x0a000001) && ipaddr_port(&aaddr[i]) >= 40000, "address", "address of the peer: family %d port %d", ipaddr_family(&aaddr[i]), ipaddr_port(&aaddr[i])); }
        ++c; ++ok; t = ac[i].at;
    }
    msleep(t0 + 30);
    /* Close in some order. */
    int order = mc_pick(2, "listener first");
    if(order) { if(mc_pick(2, "hclose")) hclose(ls); else MC_CHECK(close_(ls, -1) == 0, "close", "close of listener"); dead(ls); }
    for(int i = 0; i < n; ++i) if(ac[i].rc >= 0) { int rc = hclose(ac[i].rc); MC_CHECK(rc == 0, "hclose", "hclose"); }
    if(!order) { MC_CHECK(close_(ls, -1) == 0, "close", "close of listener: %s", strerror(errno)); dead(ls); }
    MC_CHECK(vk_open_fds() <= base_fds + 1, "fd-left", "descriptors left");
    mc_obs(ok);
}

/* ---- arguments ---- */
static void args(void) {
    begin();
    struct vstream *r; int fd; struct tcp_storage ts; struct ipc_storage is; struct tcp_listener_storage tl; struct ipc_listener_storage il;
    int k = mc_pick(9, "what"), exp = EINVAL, rc; int keep = -1;
    errno = 0;
    switch(k) {
    case 0: keep = vk_stream_fd(ipc ? AF_INET : AF_UNIX, &r); rc = ipc ? ipc_fromfd(keep) : tcp_fromfd(keep); break;
    case 1: rc = ipc ? ipc_fromfd(-1) : tcp_fromfd(-1); break;
    case 2: keep = vk_stream_fd(ipc ? AF_UNIX : AF_INET, &r); rc = ipc ? ipc_fromfd_mem(keep, NULL) : tcp_fromfd_mem(keep, NULL); break;
    case 3: keep = vk_stream_fd(ipc ? AF_UNIX : AF_INET, &r); rc = ipc ? ipc_listener_fromfd(keep) : tcp_listener_fromfd(keep); break;
    case 4: keep = vk_probe(); rc = ipc ? ipc_fromfd(keep) : tcp_fromfd(keep); exp = ENOTSOCK; break;
    case 5: rc = ipc ? ipc_fromfd(40) : tcp_fromfd(40); exp = EBADF; break;
    case 6: { int64_t d = now(); if(ipc) { rc = ipc_connect_mem("/nobody", NULL, d); } else { struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 1, 0); rc = tcp_connect_mem(&a, NULL, d); } break; }
    case 7: if(ipc) rc = ipc_listen_mem("/x", 1, NULL); else { struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 1, 0); rc = tcp_listen_mem(&a, 1, NULL); } break;
    case 8: rc = ipc ? ipc_accept(77, 0) : tcp_accept(77, NULL, 0); exp = EBADF; break;
    }
    MC_CHECK(rc == -1 && errno == exp, "args", "case %d: %d (%s)", k, rc, strerror(errno));
    if(keep >= 0) { MC_CHECK(vk_is_open(keep), "args", "refused descriptor was closed"); vk_close_raw(keep); }
    mc_obs(k);
    /* Listening sockets as connections, connections as listeners, wrong handles. */
    if(k == 0) {
        struct ipaddr a; ipaddr_local(&a, "127.0.0.1", 0, IPADDR_IPV4);
        int l = ipc ? ipc_listen("/q", 3) : tcp_listen(&a, 3);
        MC_CHECK(l >= 0, "listen", "listen");
        if(!ipc) MC_CHECK(ipaddr_port(&a) != 0 && vk_remote_client(ipaddr_port(&a), NULL), "ephemeral", "port %d was reported for an ephemeral listener", ipaddr_port(&a));
        char c; errno = 0; MC_CHECK(brecv(l, &c, 1, 0) == -1 && errno == ENOTSUP, "type", "brecv on a listener: %s", strerror(errno));
        errno = 0; MC_CHECK(done_(l, 0) == -1 && errno == ENOTSUP, "type", "done on a listener: %s", strerror(errno));
        int f2, s = conn(&f2);
        errno = 0; MC_CHECK((ipc ? ipc_accept(s, 0) : tcp_accept(s, NULL, 0)) == -1 && errno == ENOTSUP, "type", "accept on a connection: %s", strerror(errno));
        int ch[2]; chmake(ch);
        errno = 0; MC_CHECK(close_(ch[0], 0) == -1 && errno == ENOTSUP, "type", "close of a channel: %s", strerror(errno));
        errno = 0; MC_CHECK((ipc ? tcp_close(s, 0) : ipc_close(s, 0)) == -1 && errno == ENOTSUP, "type", "close of the other type: %s", strerror(errno));
        hclose(ch[0]); hclose(ch[1]); hclose(s); hclose(l);
    }
}
/* Numbers that were released work for other files. */
static void reuse(void) {
    int p[3]; for(int i = 0; i < 3; ++i) { p[i] = vk_probe(); vk_probe_set(p[i], 0);
        MC_CHECK(fdin(p[i], now() + 2) == -1 && errno == ETIMEDOUT, "reuse", "fdin of a new file: %s", strerror(errno)); vk_probe_set(p[i], POLLIN); MC_CHECK(fdin(p[i], now() + 2) == 0, "reuse", "fdin of a new file: %s", strerror(errno));
        vk_probe_set(p[i], POLLOUT); MC_CHECK(fdout(p[i], now() + 2) == 0, "reuse", "fdout of a new file: %s", strerror(errno)); }
    for(int i = 0; i < 3; ++i) { fdclean(p[i]); vk_close_raw(p[i]); }
}
/* fromfd gives a working object for every kind, and the number is released. */
static void prior(int fd, int how) { if(how & 1) { int rc = fdin(fd, now() + 2); MC_CHECK(rc == -1 && errno == ETIMEDOUT, "prior", "fdin: %d %s", rc, strerror(errno)); } if(how & 2) { int rc = fdout(fd, now() + 2); MC_CHECK(rc == 0 || errno == ETIMEDOUT, "prior", "fdout: %s", strerror(errno)); } }
static void fromfd(void) {
    begin();
    int lis = mc_pick(2, "listener"), mem = mc_pick(2, "mem"), pr = mc_pick(4, "waited for before"), again = mc_pick(2, "number used again at once"), v6 = ipc ? 0 : mc_pick(2, "IPv6");
    struct tcp_storage ts; struct ipc_storage is; struct tcp_listener_storage tl; struct ipc_listener_storage il;
    if(!lis) {
        int fd = vk_stream_fd(ipc ? AF_UNIX : v6 ? AF_INET6 : AF_INET, &rem); prior(fd, pr);
        int s = ipc ? (mem ? ipc_fromfd_mem(fd, &is) : ipc_fromfd(fd)) : mem ? tcp_fromfd_mem(fd, &ts) : tcp_fromfd(fd);
        MC_CHECK(s >= 0, "fromfd", "fromfd: %s", strerror(errno));
        MC_CHECK(!vk_is_open(fd), "own", "the original descriptor is still open"); if(again) reuse();
        vs_write(rem, pat, 3); char b[3];
        MC_CHECK(brecv(s, b, 3, -1) == 0 && !memcmp(b, pat, 3), "data", "data");
        MC_CHECK(hclose(s) == 0 && vs_closed(rem), "close", "close");
    } else {
        extern int vk_socket(int, int, int); extern int vk_bind(int, const struct sockaddr*, socklen_t); extern int vk_listen(int, int);
        struct ipaddr a; ipaddr_local(&a, v6 ? "::1" : "127.0.0.1", 5555, 0);
        int fd = vk_socket(ipc ? AF_UNIX : v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
        if(ipc) { struct { sa_family_t f; char p[108]; } su = {AF_UNIX, "/s"}; MC_CHECK(vk_bind(fd, (void*)&su, 110) == 0, "vk", "bind"); } else vk_bind(fd, ipaddr_sockaddr(&a), ipaddr_len(&a));
        vk_listen(fd, 3); prior(fd, pr);
        ls = ipc ? (mem ? ipc_listener_fromfd_mem(fd, &il) : ipc_listener_fromfd(fd)) : mem ? tcp_listener_fromfd_mem(fd, &tl) : tcp_listener_fromfd(fd);
        MC_CHECK(ls >= 0, "fromfd", "listener_fromfd: %s", strerror(errno)); if(again) reuse();
        ncl = 0; client(NULL); MC_CHECK(ncl == 1, "vk", "client");
        int s = ipc ? ipc_accept(ls, -1) : tcp_accept(ls, NULL, -1);
        MC_CHECK(s >= 0, "accept", "accept: %s", strerror(errno));
        char b[3]; MC_CHECK(brecv(s, b, 3, -1) == 0 && !memcmp(b, pat, 3), "data", "data");
        hclose(s); MC_CHECK(close_(ls, -1) == 0, "close", "close");
    }
    MC_CHECK(vk_open_fds() <= base_fds + 1, "fd-left", "descriptors left"); reuse();
    mc_obs(1);
}

