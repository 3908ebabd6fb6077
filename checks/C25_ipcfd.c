/* C25: passing of descriptors over IPC. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "iolgen.h"
#include <unistd.h>

const char *mc_property = "C25";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, one connection, up to 3 different open files passed",
    "system calls, clock and heap are those of the virtual kernel; it may transfer less than asked and answer EAGAIN; a descriptor is delivered with the byte it was sent with, as in Linux",
    "the remote end acts at even milliseconds and deadlines are at odd ones", NULL};

#define NF 3
static int files[NF], ids[NF], fopen_[NF];
static int base_fds;
static int64_t t0;
static uint8_t pat[256];
static void begin(void) {
    for(int i = 0; i < (int)sizeof pat; ++i) pat[i] = gl_pat(i);
    for(int i = 0; i < NF; ++i) { files[i] = vk_probe(); ids[i] = vk_file_id(files[i]); fopen_[i] = 1; }
    t0 = now(); base_fds = vk_open_fds();
}
static void end(void) { for(int i = 0; i < NF; ++i) if(fopen_[i]) vk_close_raw(files[i]); }
static void check_fd(int fd, int want) {
    MC_CHECK(fd >= 0, "recvfd", "recvfd: %s", strerror(errno));
    MC_CHECK(vk_file_id(fd) == ids[want], "wrong-file", "the received descriptor is of another file");
    vk_close_raw(fd);
}

/* The same bytes in one buffer, in a list of single bytes and an empty item, or with the first one skipped. */
static int shape;
static struct iolist *items(struct iolist *l, uint8_t *b, int n) { for(int i = 0; i < n; ++i) l[i] = (struct iolist){b + i, 1, &l[i + 1], 0}; l[n] = (struct iolist){NULL, 0, NULL, 0}; return &l[n]; }
static int tx(int s, const uint8_t *b, int n, int64_t dl) { if(shape == 0) return bsend(s, b, n, dl); struct iolist l[32], *e = items(l, (uint8_t*)b, n); return bsendl(s, l, e, dl); }
static int rx(int s, uint8_t *b, int n, const uint8_t *skipped, int64_t dl) { if(shape == 0) return brecv(s, b, n, dl); struct iolist l[32], *e = items(l, b, n); if(shape == 2) { b[0] = *skipped; l[0].iol_base = NULL; } return brecvl(s, l, e, dl); }

/* ---- order: programs of bytes and descriptors in both directions ---- */
static int make(int kind, int s[2], struct ipc_pair_storage *ps) {
    if(kind == 0) return ipc_pair(s);
    if(kind == 1) return ipc_pair_mem(ps, s);
    int l = ipc_listen("/x/sock", 10);
    MC_CHECK(l >= 0, "listen", "ipc_listen: %s", strerror(errno));
    s[0] = ipc_connect("/x/sock", -1);
    MC_CHECK(s[0] >= 0, "connect", "ipc_connect: %s", strerror(errno));
    s[1] = ipc_accept(l, -1);
    MC_CHECK(s[1] >= 0, "accept", "ipc_accept: %s", strerror(errno));
    hclose(l);
    return 0;
}
static int prog[2][5], np[2], merge[2], done_[4], closeit;
static coroutine void sender(int s, int d) {
    int pos = 0;
    for(int i = 0; i < np[d]; ++i) {
        int o = prog[d][i];
        int rc = o == 0 ? tx(s, pat + pos, 1, -1) : o == 1 ? tx(s, pat + pos, 3, -1) : ipc_sendfd(s, files[o - 2], -1);
        if(o < 2) pos += o ? 3 : 1;
        MC_CHECK(rc == 0, "send", "operation %d: %s", i, strerror(errno));
        /* The descriptor in flight is independent of the sender's one. */
        if(closeit && o >= 2 && fopen_[o - 2]) {
            int again = 0;
            for(int e = 0; e < 2; ++e) for(int j = e == d ? i + 1 : 0; j < np[e]; ++j) if(prog[e][j] == o) again = 1;
            if(!again) { vk_close_raw(files[o - 2]); fopen_[o - 2] = 0; }
        }
    }
    done_[d] = 1;
}
static coroutine void receiver(int s, int d) {
    int pos = 0, e = !d; /* receives what direction e sends */
    uint8_t b[32];
    for(int i = 0; i < np[e]; ++i) {
        int o = prog[e][i];
        if(o >= 2) { check_fd(ipc_recvfd(s, -1), o - 2); continue; }
        int n = o ? 3 : 1;
        while(merge[e] && i + 1 < np[e] && prog[e][i + 1] < 2) n += prog[e][++i] ? 3 : 1;
        memset(b, 0, sizeof b);
        MC_CHECK(rx(s, b, n, pat + pos, -1) == 0, "brecv", "brecv: %s", strerror(errno));
        MC_CHECK(!memcmp(b, pat + pos, n), "data", "wrong bytes");
        pos += n;
    }
    done_[2 + d] = 1;
}
static int fin_rc[2];
static coroutine void closer(int s, int i) { fin_rc[i] = ipc_close(s, -1); }
static void order(void) {
    begin();
    int kind = mc_pick(3, "setup"); shape = kind == 0 ? mc_pick(3, "shape") : 0; int dup = mc_pick(2, "duplex");
    np[1] = 0; np[0] = 1 + mc_pick(mc_thorough ? 4 : 3, "ops");
    for(int i = 0; i < np[0]; ++i) prog[0][i] = mc_pick(4, "op");
    if(dup) { np[1] = 1 + mc_pick(2, "ops"); for(int i = 0; i < np[1]; ++i) prog[1][i] = mc_pick(3, "op"); }
    merge[0] = mc_pick(2, "merge"); merge[1] = 0;
    closeit = mc_pick(2, "close the sent ones");
    int nb = 0; for(int i = 0; i < np[0]; ++i) if(prog[0][i] < 2) ++nb;
    if(nb < 2 && merge[0]) { mc_trivial(); end(); return; }
    vk.cap = mc_pick(2, "small buffer") ? 2 : 0;
    int s[2]; struct ipc_pair_storage ps;
    MC_CHECK(make(kind, s, &ps) == 0, "pair", "pair: %s", strerror(errno));
    vk.short_rw = vk.eagain = 1;
    memset(done_, 0, sizeof done_);
    int b = bundle();
    int first = mc_choose(2, "receiver first");
    for(int k = 0; k < 2; ++k) {
        if(k == first) { bundle_go(b, sender(s[0], 0)); if(dup) bundle_go(b, sender(s[1], 1)); }
        else { bundle_go(b, receiver(s[1], 1)); if(dup) bundle_go(b, receiver(s[0], 0)); }
    }
    MC_CHECK(bundle_wait(b, now() + 1000) == 0, "stuck", "the transfer does not end (%d %d %d %d)", done_[0], done_[1], done_[2], done_[3]);
    hclose(b);
    b = bundle();
    bundle_go(b, closer(s[0], 0)); bundle_go(b, closer(s[1], 1));
    MC_CHECK(bundle_wait(b, now() + 1000) == 0, "stuck", "ipc_close does not end");
    hclose(b);
    MC_CHECK(fin_rc[0] == 0 && fin_rc[1] == 0, "close", "ipc_close failed, something is left in the stream");
    end();
    MC_CHECK(vk_open_fds() == base_fds - NF, "fd-left", "%d descriptors are left", vk_open_fds() - base_fds + NF);
    mc_obs(mc_mix(np[0], np[1]));
}

/* ---- any operations against any stream ---- */
static int ntok, tok[6]; static struct vstream *rem; static int ending;
static void feed(int i) {
    if(tok[i] == 0) vs_write(rem, pat + i, 1);
    else vs_pass(rem, files, tok[i]);
    mc_log("  remote sends %s", tok[i] == 0 ? "a byte" : tok[i] == 1 ? "a descriptor" : "several descriptors");
}
static void do_feed(void *a) { feed((intptr_t)a); }
static void do_end(void *a) { if(ending == 1) vs_shut(rem); else if(ending == 2) vs_rst(rem); }
static void any(void) {
    begin();
    int fd = vk_stream_fd(AF_UNIX, &rem), s = ipc_fromfd(fd);
    MC_CHECK(s >= 0, "fromfd", "ipc_fromfd: %s", strerror(errno));
    vk.short_rw = vk.eagain = 1;
    ntok = mc_pick(mc_thorough ? 5 : 4, "tokens");
    for(int i = 0; i < ntok; ++i) tok[i] = mc_pick(4, "token");
    ending = mc_pick(3, "ending"); shape = mc_pick(2, "shape") * 2;
    int split = ntok ? mc_pick(ntok + 1, "late from") : 0;
    for(int i = 0; i < split; ++i) feed(i);
    for(int i = split; i < ntok; ++i) vk_at((t0 + 2) * 1000, do_feed, (void*)(intptr_t)i);
    if(ending) vk_at((t0 + 4) * 1000, do_end, NULL);
    int pos = 0, st = 0; /* 1: broken, 2: ended */
    int got = 0, nops = mc_thorough ? 4 : 3;
    int held[8];
    for(int k = 0; k < nops; ++k) {
        int op = mc_pick(5, "op");
        int n = op == 0 ? 1 : op == 1 ? 2 : op == 4 ? 0 : 1;
        if(op == 4) break;
        int64_t dl = op == 3 ? t0 + 1 : k % 2 ? -1 : t0 + 9;
        mc_step();
        /* What is to come? */
        int64_t nw = now() - t0;
        int have_now = nw >= 2 ? ntok : split;
        int exp; int timeout = 0, gone = 0;
        if(st) exp = st == 1 ? ECONNRESET : EPIPE;
        else if(pos + n <= have_now && !(nw >= 4 && ending == 2 && 0)) exp = 0;
        else if(dl >= 0 && dl < t0 + 2) { exp = ETIMEDOUT; timeout = 1; }
        else if(pos + n <= ntok) exp = 0;
        else if(ending == 1) { exp = EPIPE; gone = 1; }
        else if(ending == 2) { exp = ECONNRESET; gone = 2; }
        else if(dl < 0) { mc_log("  would wait for ever"); break; }
        else { exp = ETIMEDOUT; timeout = 1; }
        uint8_t b[4] = {0};
        errno = 0;
        if(op < 2) {
            uint8_t sk = pos < ntok ? tok[pos] ? 0xcc : pat[pos] : 0; int rc = rx(s, b, n, &sk, dl), e = errno;
            mc_log("  brecv(%d) = %d %s", n, rc, rc ? strerror(e) : "");
            MC_CHECK((rc == 0 ? 0 : e) == exp, "brecv", "brecv gave %d (%s), expected %s", rc, strerror(e), strerror(exp));
            if(rc == 0) { for(int i = 0; i < n; ++i) MC_CHECK(b[i] == (tok[pos + i] ? 0xcc : pat[pos + i]), "data", "wrong bytes"); pos += n; }
            else if(!st) st = gone == 1 ? 2 : 1;
        }
        else {
            int proto = exp == 0 && tok[pos] == 0;
            int several = exp == 0 && tok[pos] > 1;
            int rc = ipc_recvfd(s, dl), e = errno;
            mc_log("  recvfd = %d %s", rc, rc < 0 ? strerror(e) : "");
            if(several) {
                /* One is delivered, or an error; the others must not stay. */
                if(rc >= 0) {
                    int ok = 0; for(int i = 0; i < tok[pos]; ++i) if(vk_file_id(rc) == ids[i]) ok = 1;
                    MC_CHECK(ok, "wrong-file", "the received descriptor is of another file");
                    held[got++] = rc; ++pos;
                } else st = 1;
            }
            else if(proto) {
                MC_CHECK(rc == -1 && e == EPROTO, "no-fd", "recvfd gave %d (%s) for a plain byte", rc, strerror(e));
                st = 1;
            }
            else {
                MC_CHECK((rc >= 0 ? 0 : e) == exp, "recvfd", "recvfd gave %d (%s), expected %s", rc, strerror(e), strerror(exp));
                if(rc >= 0) { MC_CHECK(vk_file_id(rc) == ids[0], "wrong-file", "the received descriptor is of another file"); held[got++] = rc; ++pos; }
                else if(!st && !timeout) st = gone == 1 ? 2 : 1;
            }
        }
        MC_CHECK(vk_open_fds() == base_fds + 1 + got, "fd-leak", "%d descriptors are open that nobody knows of", vk_open_fds() - base_fds - 1 - got);
        mc_state(mc_mix(mc_mix(pos, st), exp));
    }
    MC_CHECK(hclose(s) == 0, "hclose", "hclose");
    MC_CHECK(vs_closed(rem), "fd-left", "the socket is still open");
    for(int i = 0; i < got; ++i) {
        MC_CHECK(vk_is_open(held[i]), "fd-closed", "a received descriptor was closed with the socket");
        vk_close_raw(held[i]);
    }
    end();
    MC_CHECK(vk_open_fds() == base_fds - NF, "fd-left", "%d descriptors are left", vk_open_fds() - base_fds + NF);
    mc_obs(st);
}

/* ---- sendfd and recvfd: waiting, deadlines, cancellation, endings ---- */
static int wrc, werr, wdone; static int64_t wat;
static coroutine void waiter(int s, int dir, int64_t dl) {
    errno = 0;
    wrc = dir ? ipc_recvfd(s, dl) : ipc_sendfd(s, files[0], dl);
    werr = errno; wat = vk_us() / 1000 - t0; wdone = 1;
}
static int evt, evread;
static void do_event(void *a) {
    uint8_t b[256];
    switch(evt) {
    case 1: mc_log("  remote reads"); evread += vs_read(rem, b, 1); break;
    case 2: mc_log("  remote resets"); vs_rst(rem); break;
    case 3: mc_log("  remote ends the stream"); vs_shut(rem); break;
    case 4: mc_log("  remote sends a descriptor"); vs_pass(rem, files + 1, 1); break;
    case 5: mc_log("  remote sends a byte"); vs_write(rem, pat, 1); break;
    }
}
static void wait_(void) {
    begin();
    vk.cap = 4;
    int dir = mc_pick(2, "receive");
    int fd = vk_stream_fd(AF_UNIX, &rem), s = ipc_fromfd(fd);
    MC_CHECK(s >= 0, "fromfd", "ipc_fromfd: %s", strerror(errno));
    int full = !dir && mc_pick(2, "full");
    int badfd = dir ? 0 : mc_pick(3, "bad descriptor");
    int state = mc_pick(5, "state");
    uint8_t b[256];
    int sent = 0;
    if(full) { MC_CHECK(bsend(s, pat, 4, -1) == 0, "bsend", "bsend"); sent = 4; }
    int st = 0;
    if(state == 1) { MC_CHECK(ipc_done(s, -1) == 0, "done", "ipc_done"); if(!dir) st = EPIPE; }
    if(state == 2) { if(!dir && full) { errno = 0; MC_CHECK(bsend(s, pat, 1, 0) == -1 && errno == ETIMEDOUT, "bsend", "bsend"); st = ECONNRESET; }
        else if(dir) { MC_CHECK(brecv(s, b, 1, 0) == -1 && errno == ETIMEDOUT, "brecv", "brecv"); st = ECONNRESET; } }
    if(state == 3) { vs_shut(rem); if(dir) st = EPIPE; }
    if(state == 4) { vs_rst(rem); st = ECONNRESET; full = 0; }
    int file = files[0];
    vk.eagain = 1;
    evread = 0;
    evt = st || state == 3 || state == 4 ? 0 : dir ? (int[]){0, 2, 3, 4, 5}[mc_pick(5, "event")] : (int[]){0, 1, 2, 3}[mc_pick(4, "event")];
    int64_t et = evt ? 2 * mc_pick(3, "at") : 0;
    if(evt) { if(et) vk_at((t0 + et) * 1000, do_event, NULL); else do_event(NULL); }
    int64_t dl = (int[]){-1, 0, 3}[mc_pick(3, "deadline")], ca = (int[]){20, 1, 3}[mc_pick(3, "cancel")];
    if(dl == 3 && ca == 3) { mc_trivial(); hclose(s); end(); return; }
    int rs = 0;
    if(badfd) {
        /* Refused at once; the socket is not affected. */
        errno = 0;
        int x = badfd == 1 ? -1 : 55;
        int rc = ipc_sendfd(s, x, 0), e = errno;
        MC_CHECK(rc == -1, "bad-fd", "ipc_sendfd(%d) succeeded", x);
        if(badfd == 1) MC_CHECK(e == EINVAL, "bad-fd", "ipc_sendfd(-1): %s", strerror(e));
        else if(!st && !full && state == 0 && evt == 0) MC_CHECK(e == EBADF, "bad-fd", "ipc_sendfd of a closed descriptor: %s", strerror(e));
        if(badfd == 2 && (evt == 2 || state == 4)) { hclose(s); end(); mc_obs(7); return; }
    }
    (void)rs; (void)file;
    wdone = 0;
    int h = go(waiter(s, dir, dl <= 0 ? dl : t0 + dl));
    if(!wdone) msleep(t0 + ca);
    int cancelled = !wdone;
    MC_CHECK(hclose(h) == 0 && wdone, "hclose", "hclose of the waiting coroutine");
    /* Reference. */
    int64_t at; int exp;
    int64_t D = dl < 0 ? INT64_MAX : dl, C = cancelled ? ca : INT64_MAX, E = INT64_MAX; int er = 0;
    if(!dir) {
        if(!full) { E = 0; er = evt == 2 && et == 0 ? ECONNRESET : 0; }
        else if(evt == 1) { E = et; er = 0; }
        else if(evt == 2) { E = et; er = ECONNRESET; }
    } else {
        if(evt == 2) { E = et; er = ECONNRESET; }
        if(evt == 3) { E = et; er = EPIPE; }
        if(evt == 4) { E = et; er = 0; }
        if(evt == 5) { E = et; er = EPROTO; }
    }
    if(st) { exp = st; at = 0; }
    else if(E <= D && E <= C && E != INT64_MAX) { exp = er; at = E; }
    else if(D <= C && D != INT64_MAX) { exp = ETIMEDOUT; at = D; }
    else { exp = ECANCELED; at = ca; }
    MC_CHECK((wrc >= 0 ? 0 : werr) == exp, "result", "%s gave %d (%s), expected %s", dir ? "recvfd" : "sendfd", wrc, strerror(werr), strerror(exp));
    MC_CHECK(wat == at || exp == ECANCELED, "late", "returned at %ld instead of %ld", (long)wat, (long)at);
    if(dir && wrc >= 0) check_fd(wrc, 1);
    /* What has arrived. */
    if(!dir && state != 4 && evt != 2) {
        int q = vs_avail(rem), p = vs_passed_fds(rem);
        int want = sent - evread + (wrc == 0);
        MC_CHECK(q == want, "sent", "%d bytes are in the stream, expected %d", q, want);
        MC_CHECK(p == (wrc == 0), "sent-fd", "%d descriptors are in the stream", p);
    }
    MC_CHECK(vk_open_fds() == base_fds + 1, "fd-leak", "%d descriptors too many", vk_open_fds() - base_fds - 1);
    /* Reported again. */
    if(exp == ECONNRESET || exp == EPIPE) {
        errno = 0;
        int rc = dir ? ipc_recvfd(s, -1) : ipc_sendfd(s, files[0], -1);
        MC_CHECK(rc == -1 && errno == exp, "again", "second call: %d %s", rc, strerror(errno));
        errno = 0;
        rc = dir ? brecv(s, b, 1, -1) : bsend(s, b, 1, -1);
        MC_CHECK(rc == -1 && errno == exp, "again", "bytes after the failed call: %d %s", rc, strerror(errno));
    }
    hclose(s);
    end();
    mc_obs(exp); mc_state(mc_mix(mc_mix(dir, exp), state));
}

/* ---- the descriptor table of the receiver is full ---- */
static void full_table(void) {
    begin();
    int fd = vk_stream_fd(AF_UNIX, &rem), s = ipc_fromfd(fd);
    int n = mc_pick(3, "free");
    int k = 1 + mc_pick(3, "passed");
    int op = mc_pick(2, "bytes");
    msleep(now());
    int top = 0; for(int i = 0; i < VK_NFD; ++i) if(vk_is_open(i)) top = i + 1;
    int plug[8], np_ = 0;
    for(int i = 3; i < top; ++i) if(!vk_is_open(i)) plug[np_++] = vk_probe();
    vs_pass(rem, files, k);
    vs_write(rem, pat, 1);
    int d = brecv(s, NULL, 0, 0); (void)d;
    vk.maxfds = top + n;
    int before = vk_open_fds();
    errno = 0;
    if(op) {
        uint8_t b[2];
        MC_CHECK(brecv(s, b, 2, -1) == 0 && b[0] == 0xcc && b[1] == pat[0], "brecv", "brecv: %s", strerror(errno));
        MC_CHECK(vk_open_fds() == before, "fd-leak", "descriptors too many");
    }
    else {
        int r = ipc_recvfd(s, -1);
        mc_log("  recvfd = %d %s", r, r < 0 ? strerror(errno) : "");
        if(n == 0) MC_CHECK(r == -1 && errno != 0, "no-room", "recvfd gave %d with no free descriptor", r);
        if(n >= k) MC_CHECK(r >= 0 || k > 1, "recvfd", "recvfd: %s", strerror(errno));
        MC_CHECK(vk_open_fds() == before + (r >= 0), "fd-leak", "%d descriptors too many", vk_open_fds() - before - (r >= 0));
        if(r >= 0) vk_close_raw(r);
    }
    hclose(s);
    for(int i = 0; i < np_; ++i) vk_close_raw(plug[i]);
    end();
    mc_obs(n * 4 + k);
}

/* ---- two coroutines at one end ---- */
static int brc, berr, bdone;
static coroutine void blocked(int s, int op) {
    uint8_t b[8];
    errno = 0;
    brc = op == 0 ? ipc_recvfd(s, -1) : op == 1 ? brecv(s, b, 2, -1) : op == 2 ? ipc_sendfd(s, files[0], -1) : bsend(s, pat, 3, -1);
    berr = errno; bdone = 1;
}
static void busy(void) {
    begin();
    vk.cap = 4;
    int fd = vk_stream_fd(AF_UNIX, &rem), s = ipc_fromfd(fd);
    uint8_t b[8];
    MC_CHECK(bsend(s, pat, 4, -1) == 0, "bsend", "bsend");
    int op = mc_pick(4, "blocked"), nd = mc_pick(4, "second");
    bdone = 0;
    int h = go(blocked(s, op));
    MC_CHECK(!bdone, "blocked", "the first operation did not wait");
    errno = 0;
    int rc = nd == 0 ? ipc_recvfd(s, 0) : nd == 1 ? brecv(s, b, 2, 0) : nd == 2 ? ipc_sendfd(s, files[1], 0) : bsend(s, pat, 1, 0);
    int exp = (op < 2) == (nd < 2) ? EBUSY : ETIMEDOUT;
    MC_CHECK(rc == -1 && errno == exp, "busy", "second operation: %d %s, expected %s", rc, strerror(errno), strerror(exp));
    /* The first one is not disturbed. */
    if(op == 0) vs_pass(rem, files + 2, 1);
    if(op == 1) vs_write(rem, pat, 2);
    if(op >= 2) vs_read(rem, b, 4);
    msleep(now() + 2);
    MC_CHECK(bdone && brc >= 0, "disturbed", "the first operation: %d %d %s", bdone, brc, strerror(berr));
    if(op == 0) check_fd(brc, 2);
    if(op == 2) MC_CHECK(vs_passed_fds(rem) == 1 && vs_avail(rem) == 1, "sent", "what was sent");
    hclose(h); hclose(s); end();
    mc_obs(op * 4 + nd);
}

/* ---- wrong handles ---- */
static void wrong(void) {
    begin();
    int p[2], c[2];
    MC_CHECK(ipc_pair(p) == 0 && chmake(c) == 0, "pair", "pair");
    int l = ipc_listen("/x/sock", 10);
    int k = mc_pick(4, "handle");
    int h = k == 0 ? c[0] : k == 1 ? l : k == 2 ? -1 : 99;
    int exp = k < 2 ? ENOTSUP : EBADF;
    errno = 0; MC_CHECK(ipc_sendfd(h, files[0], 0) == -1 && errno == exp, "wrong-handle", "ipc_sendfd: %s", strerror(errno));
    errno = 0; MC_CHECK(ipc_recvfd(h, 0) == -1 && errno == exp, "wrong-handle", "ipc_recvfd: %s", strerror(errno));
    MC_CHECK(ipc_sendfd(p[0], files[0], 0) == 0, "sendfd", "ipc_sendfd: %s", strerror(errno));
    /* Close with the descriptor still in flight. */
    if(mc_pick(2, "take it")) check_fd(ipc_recvfd(p[1], 0), 0);
    int first = mc_pick(2, "close");
    hclose(p[first]); hclose(p[!first]);
    hclose(c[0]); hclose(c[1]); hclose(l);
    end();
    MC_CHECK(vk_open_fds() == base_fds - NF, "fd-left", "%d descriptors are left", vk_open_fds() - base_fds + NF);
    mc_obs(k);
}

struct mc_scn mc_scns[] = {
    {"order", "every program of byte and descriptor transfers, one and both directions, large and tiny buffers", order, 1, 3},
    {"any", "every sequence of byte and descriptor receives against every stream of bytes and messages with 1-3 descriptors", any, 1, 2},
    {"wait", "sendfd and recvfd in every state with every event, deadline and cancellation", wait_, 2, 5},
    {"table", "receiving when the descriptor table is (nearly) full", full_table, 0, 2},
    {"busy", "two coroutines at the same end", busy, 0, 3},
    {"wrong", "wrong handles, closing with a descriptor in flight", wrong, 0, 2},
    {NULL}};
