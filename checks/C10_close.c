/* C10: done, close, connect, accept. */
#include <poll.h>
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "iolgen.h"
#include <unistd.h>
#include <netinet/in.h>
#include <arpa/inet.h>

const char *mc_property = "C10";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, up to 3 connections",
    "system calls, clock and heap are those of the virtual kernel; it may transfer less than asked, answer EAGAIN, abort a connection in the backlog, complete connect at once or later",
    "the remote end acts at even milliseconds and deadlines are at odd ones",
    "a socket is not closed while another coroutine is blocked in it", NULL};

#include "conn.h"
/* ---- done ---- */
static void done(void) {
    begin();
    int fd, s = conn(&fd);
    vk.short_rw = vk.eagain = 1;
    int n = (int[]){0, 1, 5, 3000}[mc_pick(4, "bytes")];
    if(n) MC_CHECK(bsend(s, pat, n, -1) == 0, "bsend", "bsend");
    MC_CHECK(!vs_eof(rem), "early-eof", "end of stream before done");
    MC_CHECK(done_(s, mc_pick(2, "deadline") ? 0 : -1) == 0, "done", "done: %s", strerror(errno));
    static uint8_t b[8192];
    MC_CHECK(vs_read(rem, b, sizeof b) == n && !memcmp(b, pat, n), "data", "bytes before done");
    MC_CHECK(vs_eof(rem), "no-eof", "peer does not see the end of stream after done");
    for(int k = 0; k < 3; ++k) {
        int op = mc_pick(4, "then");
        mc_step();
        errno = 0;
        if(op == 0) MC_CHECK(bsend(s, "x", 1, -1) == -1 && errno == EPIPE, "send-after-done", "bsend after done: %s", strerror(errno));
        else if(op == 1) MC_CHECK(done_(s, -1) == -1 && errno == EPIPE, "second-done", "second done: %s", strerror(errno));
        else if(op == 2) { vs_write(rem, pat + k, 2); uint8_t r[2]; MC_CHECK(brecv(s, r, 2, -1) == 0 && !memcmp(r, pat + k, 2), "recv-after-done", "brecv after done: %s", strerror(errno)); }
        else { uint8_t r[2]; MC_CHECK(brecv(s, r, 2, now() + 1) == -1 && errno == ETIMEDOUT, "recv-after-done", "brecv after done: %s", strerror(errno)); break; }
    }
    MC_CHECK(vs_read(rem, b, sizeof b) == 0, "data-after-done", "bytes after the end of stream");
    hclose(s); dead(s);
    MC_CHECK(vs_closed(rem), "fd-left", "the descriptor is still open");
    mc_obs(n);
}

/* ---- close ---- */
static int crc, cerr; static int64_t cat_; static int csock, cdone;
static coroutine void closer(int64_t dl) { errno = 0; crc = close_(csock, dl); cerr = errno; cat_ = vk_us() / 1000 - t0; cdone = 1; }
static int64_t endms; static int endtype; static size_t extra;
static void do_end(void *a) { mc_log("  remote %s", endtype == 1 ? "ends the stream" : "resets"); if(endtype == 1) vs_shut(rem); else vs_rst(rem); }
static void do_feed(void *a) { mc_log("  remote sends %ld", (long)(intptr_t)a); vs_write(rem, pat, (intptr_t)a); }
static void close__(void) {
    begin();
    int fd, s = conn(&fd), other = mc_pick(2, "before"), st = 0; /* 1: broken, 2: in direction ended */
    size_t sent = 0;
    vk.short_rw = vk.eagain = 1;
    int odone = 0, fin = 0, op = mc_pick(8, "state");
    uint8_t b[8];
    if(other) { vs_write(rem, pat, 5); MC_CHECK(brecv(s, b, 2, -1) == 0, "brecv", "brecv"); } /* rest is buffered */
    switch(op) {
    case 0: break;
    case 1: MC_CHECK(bsend(s, pat, sent = 3, -1) == 0, "bsend", "bsend"); break;
    case 2: MC_CHECK(bsend(s, pat, sent = 3, -1) == 0 && done_(s, -1) == 0, "bsend", "bsend"); odone = 1; break;
    case 3: MC_CHECK(brecv(s, b, 8, 0) == -1 && errno == ETIMEDOUT, "brecv", "brecv"); st = 1; break;
    case 4: vs_shut(rem); fin = 1; MC_CHECK(brecv(s, b, 8, -1) == -1 && errno == EPIPE, "brecv", "brecv: %s", strerror(errno)); st = 2; break;
    case 5: vs_rst(rem); fin = 1; MC_CHECK(brecv(s, b, 8, -1) == -1 && errno == ECONNRESET, "brecv", "brecv"); st = 1; break;
    case 6: vs_rst(rem); fin = 1; MC_CHECK(bsend(s, b, 8, -1) == -1 && errno == ECONNRESET, "bsend", "bsend"); st = 1; break;
    case 7: MC_CHECK(bsend(s, pat, sent = 2000, -1) == 0, "bsend", "bsend"); break;
    }
    endtype = fin ? 0 : mc_pick(3, "end"); int64_t ms = 0;
    int nf = fin ? 0 : mc_pick(3, "fragments");
    for(int i = 0; i < nf; ++i) {
        intptr_t n = (int[]){1, 512, 3000}[mc_pick(3, "fragment")];
        ms = 2 * (i + mc_pick(2, "when"));
        if(ms == 0) do_feed((void*)n); else vk_at((t0 + ms) * 1000, do_feed, (void*)n);
    }
    endms = ms + 2 * mc_pick(2, "end when");
    if(endtype) { if(endms == 0) do_end(NULL); else vk_at((t0 + endms) * 1000, do_end, NULL); }
    int k = mc_pick(3, "deadline"); int64_t dl = k == 0 ? -1 : k == 1 ? 3 : 0;
    int cn = mc_pick(3, "cancel"); int64_t ca = cn == 0 ? 20 : cn == 1 ? 1 : 5;
    csock = s; cdone = 0;
    int h = go(closer(dl <= 0 ? dl : t0 + dl));
    if(!cdone) msleep(t0 + ca);
    int cancelled = !cdone;
    MC_CHECK(hclose(h) == 0 && cdone, "hclose", "hclose of the closing coroutine");
    if(!cancelled) ca = INT64_MAX;
    int64_t e = endtype ? endms : INT64_MAX, d = dl < 0 ? INT64_MAX : dl, at; int exp;
    if(st == 1) { exp = ECONNRESET; at = 0; }
    else if(st == 2) { exp = 0; at = 0; }
    else if(endtype == 2 && endms == 0 && !odone) { exp = ECONNRESET; at = 0; }
    else if(e <= d && e <= ca && e != INT64_MAX) { exp = endtype == 1 ? 0 : ECONNRESET; at = e; }
    else if(d <= ca && d != INT64_MAX) { exp = ETIMEDOUT; at = d; }
    else { exp = ECANCELED; at = ca; }
    MC_CHECK((crc == 0 ? 0 : cerr) == exp, crc == 0 ? "false-success" : "result", "close gave %d (%s), expected %s", crc, crc ? strerror(cerr) : "ok", exp ? strerror(exp) : "success");
    if(exp != ECANCELED) MC_CHECK(cat_ == at, "late", "close returned at %ld instead of %ld", (long)cat_, (long)at);
    MC_CHECK(vs_closed(rem), "fd-left", "the descriptor is still open after close");
    dead(s);
    MC_CHECK(vk_open_fds() <= base_fds + 1, "fd-left", "%d descriptors are open, %d before", vk_open_fds(), base_fds);
    static uint8_t r[8192];
    size_t got = vs_read(rem, r, sizeof r);
    MC_CHECK(got == sent && !memcmp(r, pat, sent), "data", "%zu bytes were sent before close, %zu have arrived", sent, got);
    MC_CHECK(vs_eof(rem), "no-eof", "peer does not notice the close");
    if(exp == 0 && !ipc) MC_CHECK(!vs_got_rst(rem), "reset", "orderly close reset the connection");
    if(exp == ETIMEDOUT && !ipc) MC_CHECK(vs_got_rst(rem), "no-reset", "failed close did not abort the connection");
    mc_obs(exp); mc_state(mc_mix(op, exp));
}
/* The peer never stops sending. */
static void endless(void) {
    begin();
    vk.us_per_rw = 100;
    vk.cap = (int[]){400, 512, 65536, 3000}[mc_pick(4, "window")];
    int fd, s = conn(&fd);
    vs_endless(rem, 1);
    int64_t dl = (int[]){0, 3, 40}[mc_pick(3, "deadline")];
    t0 = now();
    csock = s; crc = close_(s, dl ? t0 + dl : 0); cerr = errno;
    int64_t late = vk_us() / 1000 - (t0 + dl);
    MC_CHECK(crc == -1 && cerr == ETIMEDOUT, "result", "close: %d %s", crc, strerror(cerr));
    MC_CHECK(late <= 5, "late", "close ended %ld ms after its deadline", (long)late);
    MC_CHECK(vs_closed(rem), "fd-left", "the descriptor is still open after close");
    dead(s);
    mc_obs(1);
}
/* ---- hclose at any moment ---- */
static void abort_(void) {
    begin();
    int fd, s = conn(&fd), st = mc_pick(5, "state");
    uint8_t b[8];
    if(st == 1) bsend(s, pat, 3, -1);
    if(st == 2) { vs_write(rem, pat, 3); brecv(s, b, 2, -1); }
    if(st == 3) { vs_shut(rem); done_(s, -1); }
    if(st == 4) vs_rst(rem);
    MC_CHECK(hclose(s) == 0, "hclose", "hclose: %s", strerror(errno));
    MC_CHECK(vs_closed(rem), "fd-left", "the descriptor is still open");
    if(!ipc && st < 3) MC_CHECK(vs_got_rst(rem), "no-reset", "hclose did not abort the connection");
    dead(s);
    mc_obs(st);
}

struct mc_scn mc_scns[] = {
    {"done", "done after 0-3000 bytes, then every sequence of 3 sends, dones, receives", done, 2, 3},
    {"close", "close in every state of the connection, against every schedule of a remote end that sends, ends or resets, with every deadline and cancellation", close__, 1, 2},
    {"endless", "close while the peer sends without end", endless, 0, 0},
    {"abort", "hclose in every state", abort_, 0, 0},
    {"connect", "connect against every remote behaviour, deadline and cancellation", connect_, 2, 4},
    {"accept", "up to 3 accepts, up to 3 clients, every timing, deadline and cancellation, aborted clients", accept_, 1, 2},
    {"args", "arguments of the wrong kind", args, 0, 0},
    {"fromfd", "wrapping of existing descriptors", fromfd, 0, 0},
    {0}};
