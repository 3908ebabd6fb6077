/* C07: handles. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "libdillimpl.h"
#include <stdlib.h>

const char *mc_property = "C07";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "one thread, up to about 600 open handles",
    "system calls, clock and heap are those of the virtual kernel", NULL};

static const int tA = 0, tB = 0, tC = 0;
struct obj { struct hvfs vfs; const void *type; char second; int id, h, old, closed, owned; struct obj *also; int makes; int inclose_rc; };
static void *q(struct hvfs *v, const void *type) {
    struct obj *o = (struct obj*)v;
    MC_CHECK(!o->closed, "use-after-close", "query of a closed object");
    if(type == o->type) return o;
    if(type == &tC) return &o->second;      /* every object has this interface too */
    errno = ENOTSUP; return NULL;
}
static void c(struct hvfs *v) {
    struct obj *o = (struct obj*)v;
    MC_CHECK(!o->closed, "double-close", "object %d closed twice", o->id);
    o->closed = 1;
    if(o->also && o->also->h >= 0) { int h = o->also->h; o->also->h = -1; int rc = hclose(h); MC_CHECK(rc == 0, "nested", "hclose within a close: %s", strerror(errno)); }
}
#define NO 640
static struct obj ob[NO]; static int no;
static int fresh[16], freshat[16], nfresh, made;    /* recently closed numbers, and how many were issued before they were closed */

static void expect_alive(struct obj *o, const char *when) {
    /* The first query of an object is of the type that the last query of the
       previous owner of the number was of, in half of the cases. */
    void *p = o->id & 2 ? hquery(o->h, &tC) : NULL;
    if(o->id & 2) MC_CHECK(p == &o->second, "type", "%s: query of its second type: %p", when, p);
    p = hquery(o->h, o->type);
    MC_CHECK(p == o, "identity", "%s: handle %d does not refer to its object (%s)", when, o->h, strerror(errno));
    errno = 0;
    const void *other = o->type == &tA ? &tB : &tA;
    p = hquery(o->h, other);
    MC_CHECK(!p && errno == ENOTSUP, "type", "%s: query of another type: %p %s", when, p, strerror(errno));
    p = hquery(o->h, &tC);
    MC_CHECK(p == &o->second, "type", "%s: query of its second type: %p", when, p);
    p = hquery(o->h, o->type);
    MC_CHECK(p == o, "identity", "%s: handle %d lost its object", when, o->h);
    p = hquery(o->h, &tC);
    MC_CHECK(p == &o->second, "type", "%s: query of its second type: %p", when, p);
    if(o->id & 4) { p = hquery(o->h, o->type); MC_CHECK(p == o, "identity", "%s: handle %d lost its object", when, o->h); }
}
static void expect_dead(int h, const char *when) {
    for(int i = 0; i < no; ++i) if(ob[i].h == h) return;   /* reissued */
    errno = 0;
    MC_CHECK(!hquery(h, &tA) && errno == EBADF, "stale", "%s: query of closed handle %d: %s", when, h, strerror(errno));
    errno = 0;
    MC_CHECK(hclose(h) == -1 && errno == EBADF, "stale", "%s: hclose of closed handle %d: %s", when, h, strerror(errno));
    errno = 0;
    MC_CHECK(hown(h) == -1 && errno == EBADF, "stale", "%s: hown of closed handle %d: %s", when, h, strerror(errno));
}
static int live(void) { int n = 0; for(int i = 0; i < no; ++i) n += ob[i].h >= 0; return n; }
static void issued(int h, const char *what) {
    MC_CHECK(h >= 0, "hmake", "%s: %s", what, strerror(errno));
    for(int i = 0; i < no; ++i) MC_CHECK(ob[i].h != h, "unique", "%s returned handle %d which is in use", what, h);
    for(int i = 0; i < nfresh; ++i) if(made - freshat[i] < 4) MC_CHECK(fresh[i] != h, "reuse", "%s reissued the number of a handle closed %d handles ago", what, made - freshat[i]);
    ++made;
}
static void dead(int h) { if(nfresh == 4) { memmove(fresh, fresh + 1, 3 * sizeof(int)); memmove(freshat, freshat + 1, 3 * sizeof(int)); nfresh = 3; } freshat[nfresh] = made; fresh[nfresh++] = h; }
static struct obj *mk(void) {
    struct obj *o = &ob[no]; memset(o, 0, sizeof(*o));
    o->vfs.query = q; o->vfs.close = c; o->type = no & 1 ? &tB : &tA; o->id = no; o->h = -1; o->old = -1;
    int h = hmake(&o->vfs);
    ++no;
    o->h = -1; issued(h, "hmake"); o->h = h;
    return o;
}
static void cl(struct obj *o) {
    int h = o->h; o->h = -1;
    struct obj *a = o->also; int ah = a ? a->h : -1;
    int rc = hclose(h);
    MC_CHECK(rc == 0, "hclose", "hclose: %s", strerror(errno));
    MC_CHECK(o->closed == 1, "close", "hclose did not close the object");
    if(ah >= 0) { MC_CHECK(a->closed == 1, "close", "nested hclose did not close the object"); dead(ah); }
    o->old = h; dead(h);
}
static void sweep(const char *when) {
    for(int i = 0; i < no; ++i) {
        if(ob[i].h >= 0) { MC_CHECK(!ob[i].closed, "closed", "object closed behind our back"); expect_alive(&ob[i], when); }
        else MC_CHECK(ob[i].closed == 1, "closed", "object %d was closed %d times", i, ob[i].closed);
    }
    for(int i = 0; i < nfresh; ++i) expect_dead(fresh[i], when);
    expect_dead(-1, when); expect_dead(-2, when); expect_dead(1 << 20, when); expect_dead(INT32_MAX, when); expect_dead(INT32_MIN, when);
}
static void finish(void) {
    for(int i = 0; i < no; ++i) if(ob[i].h >= 0) cl(&ob[i]);
    for(int i = 0; i < no; ++i) MC_CHECK(ob[i].closed == 1, "closed", "object %d was closed %d times", i, ob[i].closed);
}
/* All sequences of make, close, own starting from n open handles. */
static void seq(void) {
    static const int pre[] = {0, 1, 246, 247, 248, 249, 503, 504};
    int np = mc_arg >> 4, depth = mc_arg & 15;
    no = nfresh = made = 0;
    int n = pre[mc_pick(np, "open already")];
    for(int i = 0; i < n; ++i) mk();
    int holes = n > 3 ? mc_pick(3, "holes") : 0;
    for(int i = 0; i < holes; ++i) cl(&ob[i * 2 + 1]);
    for(int d = 0; d < depth; ++d) {
        /* candidates for close and own: the oldest two and the newest two */
        int cand[4], nc = 0;
        for(int i = 0; i < no && nc < 2; ++i) if(ob[i].h >= 0) cand[nc++] = i;
        for(int i = no - 1; i >= 0 && nc < 4; --i) if(ob[i].h >= 0 && (nc < 1 || cand[0] != i) && (nc < 2 || cand[1] != i) && (nc < 3 || cand[2] != i)) cand[nc++] = i;
        int k = mc_pick(2 + 2 * nc, "op");
        mc_step();
        if(k == 0) { mc_log("hmake"); mk(); }
        else if(k == 1) { mc_log("hmake three"); mk(); mk(); mk(); }
        else if(k < 2 + nc) { mc_log("hclose"); cl(&ob[cand[k - 2]]); }
        else {
            struct obj *o = &ob[cand[k - 2 - nc]];
            mc_log("hown %d", o->h);
            int h = o->h; o->h = -1;
            int r = hown(h);
            MC_CHECK(r != h, "own", "hown returned the same handle");
            issued(r, "hown"); o->h = r; dead(h);
            MC_CHECK(!o->closed, "own", "hown closed the object");
        }
        sweep("after an operation");
        mc_state(mc_mix(live(), no));
    }
    finish();
}
/* Closing runs other coroutines, which make and close handles. */
static int cnt, phase; static struct obj *target;
static coroutine void victim(void) { msleep(-1); }
static coroutine void slowvictim(int h2) { msleep(-1); if(h2 >= 0) hclose(h2); }
static coroutine void maker(int n, int close_some) {
    if(yield() < 0) return;
    for(int i = 0; i < n; ++i) mk();
    for(int i = 0; i < close_some; ++i) for(int j = 0; j < no; ++j) if(ob[j].h >= 0) { cl(&ob[j]); break; }
    phase = 1;
}
static void reentrant(void) {
    no = nfresh = made = phase = 0;
    int pre = (int[]){0, 200, 240, 243, 244, 245, 246}[mc_pick(7, "open already")];
    int n = (int[]){0, 1, 8, 300}[mc_pick(4, "made meanwhile")], cs = mc_pick(3, "closed meanwhile");
    for(int i = 0; i < pre; ++i) mk();
    int how = mc_pick(4, "what is closed"), v = -1, inner = -1;
    if(how == 0) v = go(victim());
    if(how == 1) { inner = go(victim()); v = go(slowvictim(inner)); }
    if(how == 2) { v = bundle(); bundle_go(v, victim()); bundle_go(v, victim()); }
    int m = go(maker(n, cs));
    if(how == 3) v = go(victim());
    for(int i = 0; i < no; ++i) MC_CHECK(ob[i].h != v && ob[i].h != m, "unique", "two objects have handle %d", ob[i].h);
    int y = mc_pick(2, "yield first");
    if(y) yield();
    int rc = hclose(v);
    MC_CHECK(rc == 0, "hclose", "hclose: %s", strerror(errno));
    nfresh = 0; dead(v);
    sweep("after closing");
    for(int i = 0; i < 3; ++i) { mk(); }
    for(int i = 0; i < 12; ++i) mk();
    sweep("after making more");
    hclose(m);
    errno = 0;
    finish(); mc_step();
}
/* An object whose close closes another handle. */
static void nested(void) {
    no = nfresh = made = 0;
    int n = 2 + mc_pick(2, "objects"), depth = mc_pick(2, "chain");
    for(int i = 0; i < n; ++i) mk();
    ob[0].also = &ob[1];
    if(depth && n > 2) ob[1].also = &ob[2];
    int own = mc_pick(2, "owned");
    if(own) { int h = ob[1].h; ob[1].h = -1; int r = hown(h); issued(r, "hown"); ob[1].h = r; dead(h); }
    cl(&ob[0]);
    sweep("after nested close");
    for(int i = 0; i < 3; ++i) mk();
    sweep("after making more");
    finish(); mc_step();
}
static struct obj bad;
static void args(void) {
    no = nfresh = made = 0;
    errno = 0; MC_CHECK(hmake(NULL) == -1 && errno == EINVAL, "args", "hmake(NULL): %s", strerror(errno));
    memset(&bad, 0, sizeof(bad));
    errno = 0; MC_CHECK(hmake(&bad.vfs) == -1 && errno == EINVAL, "args", "hmake without functions: %s", strerror(errno));
    bad.vfs.query = q;
    errno = 0; MC_CHECK(hmake(&bad.vfs) == -1 && errno == EINVAL, "args", "hmake without close: %s", strerror(errno));
    sweep("with no handle");
    mk(); sweep("with one");
    finish();
}
/* The failure of growing the table. */
static void oom(void) {
    no = nfresh = made = 0;
    vk.faults = 1;
    for(int i = 0; i < 245; ++i) mk();
    vk_faults_on(1);
    int fail = 0;
    for(int i = 0; i < 8; ++i) {
        struct obj *o = &ob[no]; memset(o, 0, sizeof(*o));
        o->vfs.query = q; o->vfs.close = c; o->type = &tA; o->id = no; o->h = -1;
        int own = mc_pick(2, "make or own");
        errno = 0;
        if(own) {
            struct obj *p = &ob[i * 3]; int h = p->h; p->h = -1;
            int f0 = vk_fault_count;
            int r = hown(h);
            if(r < 0) { MC_CHECK(errno == ENOMEM && vk_fault_count > f0, "errno", "hown: %s", strerror(errno)); MC_CHECK(p->closed == 1, "own-fail", "a failed hown left the object open"); ++fail; dead(h); }
            else { issued(r, "hown"); p->h = r; dead(h); }
        } else {
            int f0 = vk_fault_count;
            int r = hmake(&o->vfs);
            if(r < 0) { MC_CHECK(errno == ENOMEM && vk_fault_count > f0, "errno", "hmake: %s", strerror(errno)); ++fail; }
            else { ++no; issued(r, "hmake"); o->h = r; }
        }
        sweep("with failing memory"); mc_step();
        if(mc_budget() == 0 && fail) break;
    }
    vk_faults_on(0);
    for(int i = 0; i < 20; ++i) { mk(); }
    sweep("afterwards");
    finish();
}
/* Nothing may block while an object is being closed. */
static int ic_chr[2], ic_b, ic_fd, ic_ran, ic_other;
static coroutine void ic_w(void) { ic_ran = 1; }
#define IC(x) do { errno = 0; int64_t t = vk_us(); long r = (x); MC_CHECK(r == -1 && errno == ECANCELED, "inclose", "%s while an object is being closed: %ld %s", #x, r, strerror(errno)); MC_CHECK(vk_us() == t, "inclose", "%s while an object is being closed took time", #x); } while(0)
static void ic_try(int64_t dl) {
    char b = 0; struct chclause cl[2] = {{CHRECV, ic_chr[0], &b, 1}, {CHSEND, ic_chr[1], &b, 1}};
    int p0 = vk_polls;
    IC(msleep(dl)); IC(yield());
    IC(chrecv(ic_chr[0], &b, 1, dl)); IC(chsend(ic_chr[1], &b, 1, dl));
    IC(choose(cl, 2, dl)); IC(choose(cl, 0, dl));
    IC(fdin(ic_fd, dl)); IC(fdout(ic_fd, dl));
    IC(bundle_wait(ic_b, dl));
    IC(go(ic_w())); IC(bundle_go(ic_b, ic_w()));
    IC(bundle()); int ch[2]; IC(chmake(ch)); IC(hmake(&bad.vfs));
    MC_CHECK(!ic_ran, "inclose", "a coroutine was started while an object was being closed");
    MC_CHECK(ic_other == 1, "inclose", "another coroutine ran while an object was being closed");
    MC_CHECK(vk_polls == p0, "inclose", "descriptors were waited for while an object was being closed");
}
struct ico { struct hvfs vfs; int closed, also, cor; };
static struct ico io[3];
static void *ic_q(struct hvfs *v, const void *type) { errno = ENOTSUP; return NULL; }
static void ic_close(struct hvfs *v) {
    struct ico *o = (struct ico*)v; MC_CHECK(!o->closed, "double-close", "object closed twice"); o->closed = 1;
    ic_try(-1); ic_try(0);
    if(o->also >= 0) { MC_CHECK(hclose(o->also) == 0, "nested", "hclose within a close: %s", strerror(errno)); ic_try(vk_ms() + 10); }
    if(o->cor >= 0) { /* lets that coroutine run to its end; whatever else is ready may run meanwhile */
        MC_CHECK(hclose(o->cor) == 0, "nested", "hclose within a close: %s", strerror(errno)); ic_other = 1; ic_try(-1); }
    errno = 0; MC_CHECK(hclose(-1) == -1 && errno == EBADF, "stale", "hclose(-1): %s", strerror(errno));
    ic_try(-1);
}
static coroutine void ic_peer(void) { ic_other = 2; }
static coroutine void ic_vic(int h) { if(h < 0) { msleep(-1); return; } msleep(-1); ic_other = 1; MC_CHECK(hclose(h) == 0, "hclose", "hclose in a canceled coroutine: %s", strerror(errno)); }
static void inclose(void) {
    ic_ran = 0; ic_other = 1; bad.vfs.query = ic_q; bad.vfs.close = ic_close;
    ic_b = bundle(); ic_fd = vk_probe(); MC_CHECK(ic_b >= 0 && chmake(ic_chr) == 0, "setup", "%s", strerror(errno));
    vk_probe_set(ic_fd, mc_pick(2, "descriptor is ready") ? 5 : 0);
    int w = mc_pick(2, "coroutine in the bundle") ? bundle_go(ic_b, ic_vic(-1)) : 0; MC_CHECK(w == 0, "setup", "%s", strerror(errno));
    int n = 1 + mc_pick(3, "objects"), cor = mc_pick(n + 1, "which one has a coroutine");
    for(int i = 0; i < n; ++i) io[i] = (struct ico){{ic_q, ic_close}, 0, -1, -1};
    int top = -1;
    for(int i = n - 1; i >= 0; --i) {
        io[i].also = top; if(cor == i + 1) io[i].cor = go(ic_vic(-1));
        top = hmake(&io[i].vfs); MC_CHECK(top >= 0, "hmake", "%s", strerror(errno));
    }
    int by = mc_pick(2, "closed by a canceled coroutine"), v = -1, p = -1;
    if(by) v = go(ic_vic(top));
    if(mc_pick(2, "another coroutine is ready")) p = go(ic_peer());
    ic_other = 1;
    int rc = hclose(by ? v : top); MC_CHECK(rc == 0, "hclose", "hclose: %s", strerror(errno));
    for(int i = 0; i < n; ++i) MC_CHECK(io[i].closed == 1, "close", "object %d of %d was not closed", i, n);
    /* Afterwards everything works again. */
    errno = 0; MC_CHECK(yield() == 0, "after", "yield after hclose: %s", strerror(errno));
    int64_t t = vk_ms(); MC_CHECK(msleep(t + 5) == 0 && vk_ms() >= t + 5, "after", "msleep after hclose: %s", strerror(errno));
    int g = go(ic_w()); MC_CHECK(g >= 0, "after", "go after hclose: %s", strerror(errno)); yield();
    MC_CHECK(ic_ran == 1, "after", "a coroutine started after hclose does not run");
    hclose(g); if(p >= 0) hclose(p);
    hclose(ic_b); hclose(ic_chr[0]); hclose(ic_chr[1]);
    fdclean(ic_fd); vk_close_raw(ic_fd); mc_step();
}
/* Handles come and go for ever: few open handles need little memory. */
static size_t churn_max;
static void churn_alloc(void *p, size_t n) { if(n > churn_max) churn_max = n; }
static void churn(void) {
    no = nfresh = made = 0; churn_max = 0;
    int style = mc_pick(4, "style"), keep = (int[]){0, 1, 3, 200}[mc_pick(4, "open handles")];
    for(int i = 0; i < keep; ++i) mk();
    vk_alloc_hook = churn_alloc;
    struct obj *o = mk(); int base = no;
    for(int i = 0; i < 12000; ++i) {
        if(style == 0 || (style == 2 && i & 1)) { int h = o->h; o->h = -1; int r = hown(h); MC_CHECK(r >= 0 && r != h, "own", "hown: %d %s", r, strerror(errno)); o->h = r; }
        else if(style < 3) { cl(o); no = base - 1; o = mk(); }
        else if(keep) { struct obj *x = &ob[i % keep]; int h = x->h; x->h = -1; int r = hown(h); MC_CHECK(r >= 0, "own", "hown: %s", strerror(errno)); x->h = r; }
        expect_alive(o, "during churn");
        if(!(i & 1023)) sweep("during churn");
    }
    MC_CHECK(churn_max <= 64 << 10, "grows", "%zu bytes allocated for at most %d open handles", churn_max, keep + 1);
    sweep("after churn"); vk_alloc_hook = NULL;
    finish(); mc_step();
}
struct mc_scn mc_scns[] = {
    {"args", "invalid arguments", args, 0, 0},
    {"seq-4", "sequences of 4 of hmake, hclose, hown from 8 fill levels around table growth", seq, 0, -1, 4 | 8 << 4},
    {"seq-5", "sequences of 5 of hmake, hclose, hown from 8 fill levels around table growth", seq, -1, 0, 5 | 8 << 4},
    {"seq0-6", "sequences of 6 from an empty table", seq, 0, 0, 6 | 2 << 4},
    {"reentrant", "coroutines and bundles closed while others make 0-300 handles and close some", reentrant, 0, 0},
    {"nested", "objects which close other handles when closed", nested, 0, 0},
    {"inclose", "objects whose close tries every blocking call, alone, nested, with a coroutine to close, and from a canceled coroutine", inclose, 0, 0},
    {"churn", "12000 handles issued while 1 to 201 are open", churn, 0, 0},
    {"oom", "memory failures when the table grows", oom, 1, 2},
    {0}
};
