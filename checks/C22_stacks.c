/* C22: registers, stacks and locals across switches. */
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <alloca.h>

const char *mc_property = "C22";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "x86-64, gcc; general-purpose callee-saved registers (not the control words of the floating point unit)",
    "one thread, up to 5 coroutines beside the main one",
    "coroutines in user-supplied blocks get 64 kB and more where they have to run; smaller blocks are tried for being refused", NULL};

/* Loads six callee-saved registers with v[0..5], calls fn(arg), returns a mask
   of those that have changed. */
__attribute__((naked, noinline)) static int regs(const uint64_t *v, void (*fn)(void*), void *arg) {
    __asm__ volatile(
        "push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15\n\t"
        "sub $24, %rsp\n\t"
        "mov %rdi, (%rsp)\n\t"
        "mov %rsi, %rax\n\t"
        "mov (%rdi), %rbx; mov 8(%rdi), %rbp; mov 16(%rdi), %r12; mov 24(%rdi), %r13; mov 32(%rdi), %r14; mov 40(%rdi), %r15\n\t"
        "mov %rdx, %rdi\n\t"
        "call *%rax\n\t"
        "xor %eax, %eax\n\t"
        "mov (%rsp), %rcx\n\t"
        "cmp (%rcx), %rbx; je 1f; or $1, %eax\n\t1:"
        "cmp 8(%rcx), %rbp; je 1f; or $2, %eax\n\t1:"
        "cmp 16(%rcx), %r12; je 1f; or $4, %eax\n\t1:"
        "cmp 24(%rcx), %r13; je 1f; or $8, %eax\n\t1:"
        "cmp 32(%rcx), %r14; je 1f; or $16, %eax\n\t1:"
        "cmp 40(%rcx), %r15; je 1f; or $32, %eax\n\t1:"
        "add $24, %rsp\n\t"
        "pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx\n\t"
        "ret");
}

/* ---- regs: every kind of switch ---- */
enum { YIELD, SLEEP, CHAN, FD, HCLOSE, CHOOSE, GO, WAIT, BGO, NOP };
static int ch[2], probe, running;
static int op[4][4], nops, ended[4];
static uint64_t pattern(int id, int k, int i) { return 0x9e3779b97f4a7c15ULL * (id * 1000 + k * 10 + i + 1); }
static coroutine void child(int id, int block) {
    if(block) {
        uint64_t v[6]; for(int i = 0; i < 6; ++i) v[i] = pattern(id + 10, block, i);
        void slp(void*); int m = regs(v, slp, (void*)(intptr_t)-1);
        MC_CHECK(m == 0, "registers", "registers changed in a cancelled coroutine (mask %x)", m);
    }
}
void slp(void *d) { intptr_t x = (intptr_t)d; msleep(x < 0 ? -1 : now() + x); }
static int opid;
static void doit(void *p) {
    int *a = p, id = a[0], k = a[1], rc, x = 0;
    switch(k) {
    case YIELD: rc = yield(); MC_CHECK(rc == 0, "yield", "yield: %s", strerror(errno)); break;
    case SLEEP: rc = msleep(now() + 1 + id); MC_CHECK(rc == 0, "msleep", "msleep: %s", strerror(errno)); break;
    case CHAN: /* meets another one or times out */
        rc = id & 1 ? chsend(ch[0], &id, sizeof id, now() + 2) : chrecv(ch[1], &x, sizeof x, now() + 2);
        MC_CHECK(rc == 0 || errno == ETIMEDOUT, "errno", "channel operation: %s", strerror(errno)); break;
    case FD: errno = 0; rc = fdin(probe, now() + 1); MC_CHECK(rc == -1 && (errno == ETIMEDOUT || errno == EBUSY), "errno", "fdin: %d %s", rc, strerror(errno)); if(errno == EBUSY) yield(); break;
    case HCLOSE: { int h = go(child(id, 1)); rc = hclose(h); MC_CHECK(h >= 0 && rc == 0, "hclose", "hclose"); break; }
    case CHOOSE: { struct chclause c[1] = {{CHRECV, ch[0], &x, sizeof x}}; errno = 0; rc = choose(c, 1, now() + 1); MC_CHECK(rc == 0 || errno == ETIMEDOUT, "errno", "choose: %d %s", rc, strerror(errno)); break; }
    case GO: { int h = go(child(id, 0)); MC_CHECK(h >= 0, "go", "go"); hclose(h); break; }
    case WAIT: { int b = bundle(); bundle_go(b, child(id, 0)); bundle_go(b, child(id, 2)); errno = 0; rc = bundle_wait(b, now() + 1); MC_CHECK(rc == -1 && errno == ETIMEDOUT, "errno", "bundle_wait: %d %s", rc, strerror(errno)); hclose(b); break; }
    case BGO: { static char st[4][65536]; int b = bundle(); bundle_go_mem(b, child(id, 3), st[id], sizeof st[id]); hclose(b); break; }
    }
}
static void program(int id) {
    volatile uint64_t loc[64]; for(int i = 0; i < 64; ++i) loc[i] = pattern(id, 99, i);
    for(int k = 0; k < nops; ++k) {
        uint64_t v[6]; for(int i = 0; i < 6; ++i) v[i] = pattern(id, k, i);
        int a[2] = {id, op[id][k]};
        int m = regs(v, doit, a);
        mc_step();
        MC_CHECK(m == 0, "registers", "registers changed across operation %d of coroutine %d (mask %x)", op[id][k], id, m);
        for(int i = 0; i < 64; ++i) MC_CHECK(loc[i] == pattern(id, 99, i), "locals", "local variables of coroutine %d changed across operation %d", id, op[id][k]);
        MC_CHECK(a[0] == id && a[1] == op[id][k], "locals", "local variables changed");
    }
    ended[id] = 1;
}
static coroutine void prog(int id) {
    MC_CHECK(((uintptr_t)__builtin_frame_address(0) & 15) == 0, "alignment", "the stack of a coroutine is not aligned");
    program(id);
}
static void registers(void) {
    int n = mc_arg & 15, nh = mc_arg >> 4; nops = nh;
    memset(ended, 0, sizeof ended);
    for(int i = 0; i <= n; ++i) for(int k = 0; k < nops; ++k) op[i][k] = mc_pick(i == 0 && n > 1 ? 3 : NOP, "operation");
    MC_CHECK(chmake(ch) == 0, "setup", "chmake"); probe = vk_probe(); vk_probe_set(probe, 0);
    static char mem[131072];
    int h[4]; int umem = mc_pick(2, "user stack");
    for(int i = 1; i <= n; ++i) {
        h[i] = i == 1 && umem ? go_mem(prog(1), mem, sizeof mem) : go(prog(i));
        MC_CHECK(h[i] >= 0, "go", "go: %s", strerror(errno));
    }
    program(0);
    msleep(now() + 100);
    for(int i = 0; i <= n; ++i) MC_CHECK(ended[i], "stuck", "coroutine %d has not ended", i);
    for(int i = 1; i <= n; ++i) hclose(h[i]);
    fdclean(probe); vk_close_raw(probe); hclose(ch[0]); hclose(ch[1]);
    mc_obs(n); uint64_t s = 0; for(int i = 0; i <= n; ++i) for(int k = 0; k < nops; ++k) s = mc_mix(s, op[i][k]); mc_state(s);
}

/* ---- stacks: lifetimes ---- */
#define NC 5
#define BLK 65536
static struct { int used, h, kind, big, quit, gone; uintptr_t lo, hi; char *blk; } co[NC];
static char *blocks[3]; static int blkused[3]; static int bnd, seqno;
static int verify_bad;
static coroutine void resident(int id, int big, int sn) {
    size_t sz = big ? 200000 : 20000;
    volatile char *p = alloca(sz);
    MC_CHECK(((uintptr_t)__builtin_frame_address(0) & 15) == 0, "alignment", "the stack of a coroutine is not aligned");
    co[id].lo = (uintptr_t)p; co[id].hi = (uintptr_t)__builtin_frame_address(0);
    for(size_t i = 0; i < sz; i += 512) p[i] = (char)(sn * 37 + i / 512);
    p[sz - 1] = (char)sn;
    int my = sn;
    while(1) {
        int rc = co[id].quit ? -1 : yield();
        for(size_t i = 0; i < sz; i += 512) if(p[i] != (char)(sn * 37 + i / 512)) { verify_bad = 1 + id; break; }
        if(p[sz - 1] != (char)sn || my != sn) verify_bad = 1 + id;
        if(rc) break;
    }
    co[id].gone = 1;
}
static void overlap(void) {
    for(int i = 0; i < NC; ++i) if(co[i].used && !co[i].gone)
        for(int j = 0; j < i; ++j) if(co[j].used && !co[j].gone)
            MC_CHECK(co[i].hi < co[j].lo || co[j].hi < co[i].lo, "overlap", "stacks of two living coroutines overlap");
    for(int i = 0; i < NC; ++i) if(co[i].used && co[i].blk)
        MC_CHECK(co[i].lo >= (uintptr_t)co[i].blk && co[i].hi <= (uintptr_t)co[i].blk + BLK, "outside", "the stack is outside of the block supplied");
}
#define CAN 64
static void canaries(void) {
    for(int b = 0; b < 3; ++b) for(int i = 0; i < CAN; ++i)
        MC_CHECK(blocks[b][-1 - i] == (char)0xC7 && blocks[b][BLK + i] == (char)0xC7, "outside", "memory outside of the supplied block was overwritten");
}
static void lifetimes(void) {
    static char arena[3][BLK + 4096];
    memset(co, 0, sizeof co); memset(blkused, 0, sizeof blkused); seqno = 1; verify_bad = 0;
    int depth = mc_arg;
    int warm = (int[]){0, 1, 64, 66}[mc_pick(4, "cached stacks")];
    int off = mc_pick(2, "unaligned blocks") ? 5 : 0;
    for(int b = 0; b < 3; ++b) { blocks[b] = arena[b] + 1024 + off * (b + 1); memset(blocks[b] - CAN, 0xC7, CAN); memset(blocks[b] + BLK, 0xC7, CAN); }
    int w[70]; for(int i = 0; i < warm; ++i) w[i] = go(child(0, 4));
    for(int i = 0; i < warm; ++i) hclose(w[i]);
    bnd = bundle(); int inb = 0;
    for(int d = 0; d < depth; ++d) {
        int k = mc_pick(5 + NC, "op");
        mc_step();
        if(k < 4) {
            int id = -1; for(int i = 0; i < NC; ++i) if(!co[i].used) { id = i; break; }
            if(id < 0) { mc_trivial(); break; }
            int b = -1; if(k & 1) { for(int i = 0; i < 3; ++i) if(!blkused[i]) { b = i; break; } if(b < 0) { mc_trivial(); break; } }
            if((k & 2) && inb >= 2) { mc_trivial(); break; }
            memset(&co[id], 0, sizeof co[id]); co[id].used = 1; co[id].kind = k; co[id].blk = b >= 0 ? blocks[b] : NULL; co[id].big = b < 0; co[id].h = -1;
            if(b >= 0) blkused[b] = 1 + id;
            int sn = seqno++;
            mc_log("create %d%s%s", id, k & 1 ? " in a block" : "", k & 2 ? " in the bundle" : "");
            int rc = k == 0 ? go(resident(id, 1, sn)) : k == 1 ? go_mem(resident(id, 0, sn), blocks[b], BLK) : k == 2 ? bundle_go(bnd, resident(id, 1, sn)) : bundle_go_mem(bnd, resident(id, 0, sn), blocks[b], BLK);
            MC_CHECK(rc >= 0, "go", "go: %s", strerror(errno));
            if(k < 2) co[id].h = rc; else ++inb;
        }
        else if(k == 4) { /* close the bundle */
            if(!inb) { mc_trivial(); break; }
            mc_log("close the bundle");
            MC_CHECK(hclose(bnd) == 0, "hclose", "hclose"); bnd = bundle(); inb = 0;
            for(int i = 0; i < NC; ++i) if(co[i].used && co[i].kind >= 2) { MC_CHECK(co[i].gone, "close", "a coroutine of the bundle lives on"); co[i].used = 0; for(int b = 0; b < 3; ++b) if(blkused[b] == 1 + i) blkused[b] = 0; }
        }
        else {
            int id = k - 5; if(!co[id].used || (co[id].kind >= 2 && co[id].gone)) { mc_trivial(); break; }
            mc_log("end %d", id);
            if(co[id].kind >= 2 || (co[id].kind == 0 && d % 2)) { co[id].quit = 1; yield(); yield(); MC_CHECK(co[id].gone, "quit", "the coroutine did not end"); }
            if(co[id].kind < 2) { MC_CHECK(hclose(co[id].h) == 0 && co[id].gone, "hclose", "hclose"); }
            else --inb;
            co[id].used = 0; for(int b = 0; b < 3; ++b) if(blkused[b] == 1 + id) blkused[b] = 0;
        }
        yield(); yield();
        MC_CHECK(!verify_bad, "contents", "the stack of coroutine %d was overwritten", verify_bad - 1);
        overlap(); canaries();
    }
    MC_CHECK(hclose(bnd) == 0, "hclose", "hclose");
    for(int i = 0; i < NC; ++i) if(co[i].used && co[i].kind < 2) MC_CHECK(hclose(co[i].h) == 0 && co[i].gone, "hclose", "hclose");
    MC_CHECK(!verify_bad, "contents", "the stack of coroutine %d was overwritten", verify_bad - 1);
    canaries();
    mc_obs(seqno);
    uint64_t s = 0; for(int i = 0; i < NC; ++i) s = mc_mix(s, co[i].used * 8 + co[i].kind); mc_state(s);
}

/* ---- blocks of every size ---- */
static int sran, salign; static uintptr_t saddr;
static coroutine void small(void) { sran = 1; saddr = (uintptr_t)__builtin_frame_address(0); salign = saddr & 15; yield(); ++sran; }
static void sizes(void) {
    static char arena[400000];
    int inb = mc_pick(2, "bundle_go_mem"), range = mc_pick(3, "range"), off = mc_pick(16, "alignment");
    size_t hdr = (inb ? 0 : sizeof(struct bundle_storage)) + sizeof(sigjmp_buf);
    size_t a = range == 0 ? mc_pick(20, "size") * 16 + mc_pick(16, "size") : range == 1 ? 65536 + mc_pick(33, "size") : (size_t[]){70000, 99999, 131072, 262144, 262147}[mc_pick(5, "size")];
    if(range == 0 && a >= hdr) { mc_trivial(); return; }
    char *p = arena + 65536 + off;
    memset(arena + 65536 - 4096, 0x5A, 4096 + off); memset(p, 0x5A, a); memset(p + a, 0x5A, 4096);
    int b = inb ? bundle() : -1;
    sran = 0; errno = 0;
    now(); hclose(bundle());
    long mem0 = vk_outstanding();
    int rc = inb ? bundle_go_mem(b, small(), p, a) : go_mem(small(), p, a);
    int e = errno;
    mc_log("  block of %zu: %d %s", a, rc, rc < 0 ? strerror(e) : "");
    if(range == 0) {
        MC_CHECK(rc == -1 && !sran, "too-small", "a block of %zu bytes was accepted", a);
        MC_CHECK(e == ENOMEM || e == EINVAL, "errno", "block of %zu bytes: %s", a, strerror(e));
        MC_CHECK(vk_outstanding() == mem0, "leak", "memory is left");
    } else {
        MC_CHECK(rc >= 0 && sran, "go", "a block of %zu bytes: %s", a, strerror(e));
        MC_CHECK(salign == 0, "alignment", "the stack is not aligned");
        MC_CHECK(saddr >= (uintptr_t)p && saddr < (uintptr_t)p + a, "outside", "the stack is outside of the block");
        yield(); MC_CHECK(sran == 2, "run", "the coroutine did not end");
        if(!inb) MC_CHECK(hclose(rc) == 0, "hclose", "hclose");
    }
    if(inb) MC_CHECK(hclose(b) == 0, "hclose", "hclose");
    for(int i = 0; i < 4096; ++i) { MC_CHECK(p[a + i] == 0x5A, "outside", "byte %d after the block was overwritten", i); MC_CHECK(p[-1 - i] == 0x5A, "outside", "byte %d before the block was overwritten", i); }
    mc_step(); mc_obs(a); mc_state(mc_mix(a, off));
}

/* ---- the documented 256 kB, the guard page ---- */
static int pfd[2] = {-1, -1};
static int readable(const void *p) { char c; int rc = write(pfd[1], p, 1) == 1; if(rc && read(pfd[0], &c, 1) != 1) mc_broken("pipe"); return rc; }
static int dfail; static long guard;
static coroutine void deep(int sz) {
    volatile char *p = alloca(sz);
    for(int i = 0; i < sz; i += 256) p[i] = (char)(i / 256);
    yield();
    for(int i = 0; i < sz; i += 256) if(p[i] != (char)(i / 256)) dfail = 1;
#if !defined VARIANT_NOGUARD
    /* Find the guard page below. */
    uintptr_t top = (uintptr_t)__builtin_frame_address(0), q = (uintptr_t)p & ~4095UL;
    guard = 0; while(q > top - 300000) { if(!readable((void*)q)) { guard = top - q - 4096; break; } q -= 4096; }
#endif
    yield();
}
static void depth(void) {
    vk.real_stacks = 1;
    if(pfd[0] < 0 && pipe(pfd)) mc_broken("pipe");
    int n = 1 + mc_pick(3, "coroutines"), rounds = 1 + mc_pick(3, "rounds"), sz = (int[]){1000, 200000, 258000}[mc_pick(3, "use")];
    for(int r = 0; r < rounds; ++r) {
        int h[3]; dfail = 0;
        for(int i = 0; i < n; ++i) { h[i] = go(deep(sz)); MC_CHECK(h[i] >= 0, "go", "go: %s", strerror(errno)); }
        for(int i = 0; i < 3; ++i) { guard = -1; yield(); MC_CHECK(!dfail, "contents", "the stack was overwritten"); if(guard != -1) MC_CHECK(guard > 256 * 1024 - 8192 && guard < 256 * 1024 + 8192, "guard", "the guard page is %ld bytes below the top", guard); }
        for(int i = 0; i < n; ++i) hclose(h[i]);
    }
    mc_obs(sz); mc_step(); mc_state(sz + n);
}

/* ---- compiled code around the constructs ---- */
static volatile int vi = 3; static volatile double vd = 1.25;
static coroutine void clobber(double a, int b, int how) {
    volatile double x[16]; for(int i = 0; i < 16; ++i) x[i] = a * i + b;
    if(how & 1) yield();
    if(how & 2) msleep(now() + 1);
    double s = 0; for(int i = 0; i < 16; ++i) s += x[i] * vd;
    if(s == 12345) vi = 0;
}
#define BODY(SW) \
    double s = vd, t = vd * 2; long double g = vd; long a = vi, b = vi * 7, c = vi * 11, d = 13, e = 17; float f = (float)vd; \
    double arr[8]; for(int i = 0; i < 8; ++i) arr[i] = i * vd; \
    for(int i = 0; i < 3; ++i) { \
        s += arr[i] * t; a += b * c; f *= 1.5f; g = g * 3 + s; \
        SW \
        b ^= a + i; c += d; d = d * 3 + e; e += a; s -= f; t = t * 0.5 + s; g -= t; \
    } \
    r[0] = s + (double)g; r[1] = t; r[2] = a; r[3] = b; r[4] = c; r[5] = d; r[6] = e; r[7] = f; for(int i = 0; i < 8; ++i) r[8 + i] = arr[i];
#define OPT(o) __attribute__((noinline, optimize(o)))
#define VARIANTS(NAME, SW) \
    static OPT("O0") void NAME##0(double *r, int how) { BODY(SW) } \
    static OPT("O1") void NAME##1(double *r, int how) { BODY(SW) } \
    static OPT("O2") void NAME##2(double *r, int how) { BODY(SW) } \
    static OPT("O3") void NAME##3(double *r, int how) { BODY(SW) } \
    static OPT("Os") void NAME##4(double *r, int how) { BODY(SW) } \
    static OPT("O2,omit-frame-pointer") void NAME##5(double *r, int how) { BODY(SW) } \
    static void (*const NAME[])(double*, int) = {NAME##0, NAME##1, NAME##2, NAME##3, NAME##4, NAME##5};
VARIANTS(p_ref, ;)
VARIANTS(p_go, { int h = go(clobber(s, (int)a, how)); hclose(h); })
VARIANTS(p_yield, { yield(); })
VARIANTS(p_sleep, { msleep(now() + 1); })
VARIANTS(p_bundle, { int h = bundle(); bundle_go(h, clobber(t, (int)c, how)); bundle_wait(h, now() + 5); hclose(h); })
static char pm[6][65536];
VARIANTS(p_mem, { int h = go_mem(clobber(s, (int)a, how), pm[0], sizeof pm[0]); hclose(h); })
static coroutine void busy(int n) { for(int i = 0; i < n; ++i) { double r[16]; p_yield[i % 6](r, 0); } }
static void code(void) {
    void (*const *const kinds[])(double*, int) = {p_ref, p_go, p_yield, p_sleep, p_bundle, p_mem};
    int k = mc_pick(6, "construct"), o = mc_pick(6, "optimization"), how = mc_pick(4, "coroutine"), bg = mc_pick(3, "others");
    vi = 3; vd = 1.25;
    double ref[16], r[16]; p_ref[0](ref, how);
    int h[2]; for(int i = 0; i < bg; ++i) h[i] = go(busy(6));
    kinds[k][o](r, how);
    for(int i = 0; i < 16; ++i) MC_CHECK(r[i] == ref[i], "compiled", "variables of compiled code changed: construct %d, variable %d: %g instead of %g", k, i, r[i], ref[i]);
    for(int i = 0; i < bg; ++i) hclose(h[i]);
    mc_step(); mc_obs(k); mc_state(k * 8 + o);
}

/* ---- variables of the creator used by the coroutine while both are alive ---- */
struct sv { int in, out, n; long sum; char pad[40]; };
static long seen[4]; static int sfin;
static coroutine void writes(int *fin, struct sv *v, int *arr, int how) { if(how & 1) yield(); if(how & 2) msleep(now() + 2); v->out = 17; arr[3] = 19; *fin = 1; if(how & 4) { yield(); v->sum = 23; arr[5] = 29; *fin = 2; } }
static coroutine void reads(const int *in, const struct sv *v, const int *arr, int how) { if(how & 1) yield(); if(how & 2) msleep(now() + 2); seen[0] = *in; seen[1] = v->in; seen[2] = arr[2]; seen[3] = v->n; sfin = 1; }
static char sm[65536];
#define START(c, f) (c == 0 ? go(f) : c == 1 ? go_mem(f, sm, sizeof sm) : c == 2 ? bundle_go(b, f) : bundle_go_mem(b, f, sm, sizeof sm))
/* The creator looks whether the coroutine has done something. */
#define LOOKS \
    int fin = 0, arr[8] = {0}; struct sv v; memset(&v, 0, sizeof v); int b = c >= 2 ? bundle() : -1, want = how & 4 ? 2 : 1; \
    int h = START(c, writes(&fin, &v, arr, how)); int i = 0; for(; fin < want && i < 50; ++i) { if(wait == 0) msleep(now() + 1); else if(wait == 1) yield(); else { if(b >= 0) bundle_wait(b, now() + 1); else msleep(now() + 1); } } \
    r[0] = fin; r[1] = v.out; r[2] = arr[3]; r[3] = v.sum; r[4] = arr[5]; r[5] = 0; hclose(b >= 0 ? b : h);
/* The creator writes something that the coroutine looks at later. */
#define TELLS \
    int in = 1, arr[8] = {0}; struct sv v; memset(&v, 0, sizeof v); int b = c >= 2 ? bundle() : -1; \
    int h = START(c, reads(&in, &v, arr, how)); in = 31; v.in = 37; arr[2] = 41; v.n = 43; if(wait == 0) msleep(now() + 5); else if(wait == 1) for(int i = 0; i < 20 && !sfin; ++i) msleep(now()); else if(b >= 0) bundle_wait(b, -1); else msleep(now() + 4); \
    r[5] = 1; hclose(b >= 0 ? b : h);
#define SVARIANTS(NAME, BODY_) \
    static OPT("O0") void NAME##0(long *r, int how, int c, int wait) { BODY_ } static OPT("O1") void NAME##1(long *r, int how, int c, int wait) { BODY_ } static OPT("O2") void NAME##2(long *r, int how, int c, int wait) { BODY_ } \
    static OPT("O3") void NAME##3(long *r, int how, int c, int wait) { BODY_ } static OPT("Os") void NAME##4(long *r, int how, int c, int wait) { BODY_ } static OPT("O2,omit-frame-pointer") void NAME##5(long *r, int how, int c, int wait) { BODY_ } \
    static void (*const NAME[])(long*, int, int, int) = {NAME##0, NAME##1, NAME##2, NAME##3, NAME##4, NAME##5};
SVARIANTS(looks, LOOKS)
SVARIANTS(tells, TELLS)
static void shared(void) {
    int kind = mc_pick(2, "direction"), o = mc_pick(6, "optimization"), how = mc_pick(8, "coroutine"), c = mc_pick(4, "construct"), wait = mc_pick(3, "waiting"); long r[6] = {0}; sfin = 0; memset(seen, 0, sizeof seen);
    if(wait == 1 && (how & 2 || kind)) how |= 1; if(wait == 1 && !kind) how &= ~2; if(kind && !(how & 3)) how |= 1; /* reads and yields would go round without time passing */
    (kind ? tells : looks)[o](r, how, c, wait);
    if(kind == 0) { MC_CHECK(r[0] == (how & 4 ? 2 : 1) && r[1] == 17 && r[2] == 19 && (!(how & 4) || (r[3] == 23 && r[4] == 29)), "shared", "the creator does not see what the coroutine stores in its variables: %ld %ld %ld %ld %ld", r[0], r[1], r[2], r[3], r[4]); }
    else { MC_CHECK(sfin, "shared", "the coroutine has not run"); MC_CHECK(seen[0] == 31 && seen[1] == 37 && seen[2] == 41 && seen[3] == 43, "shared", "the coroutine does not see what its creator stores: %ld %ld %ld %ld", seen[0], seen[1], seen[2], seen[3]); }
    mc_step(); mc_obs(how); mc_state(mc_mix(kind * 8 + o, c * 4 + wait));
}

struct mc_scn mc_scns[] = {
    {"regs-1", "main and one coroutine, 3 operations each of 9 kinds", registers, -1, 1, 1 | 3 << 4},
    {"regs-1-2", "main and one coroutine, 2 operations each of 9 kinds", registers, 0, 2, 1 | 2 << 4},
    {"regs-2", "main and two coroutines, 2 operations each", registers, 0, 1, 2 | 2 << 4},
    {"lifetimes-4", "all sequences of 4 of creating (4 ways), ending, closing", lifetimes, 0, -1, 4},
    {"lifetimes-6", "all sequences of 6", lifetimes, -1, 0, 6},
    {"sizes", "blocks of every size below the minimum and sizes around 64 kB, every alignment", sizes, 0, 0},
    {"depth", "use of the documented 256 kB, guard page", depth, 0, 0},
    {"shared", "variables of the creator shared with the coroutine, in compiled code, 6 optimization levels", shared, 0, 0},
    {"code", "compiled code with live variables around each construct, 6 optimization levels", code, 0, 1},
    {NULL}};
