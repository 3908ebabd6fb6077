/* C21: threads are independent.
   Two or three threads run under a controlled scheduler that hands a baton
   over at every call of the library and at every system call and allocation
   within. What each observes must be what it observes alone. In addition
   every memory access of the library is monitored: an address touched by two
   threads without synchronization is reported whatever the schedule was. */
// mc: variant=threads
#include "mc.h"
#include "vk.h"
#include "libdill.h"
#include "libdillimpl.h"
#include <pthread.h>
#include <semaphore.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <stdarg.h>

const char *mc_property = "C21";
const char *mc_level = "model_checking";
const char *mc_assumptions[] = {
    "two or three threads; a switch may happen at calls of the library and at every system call and allocation within them",
    "between those points memory is monitored instead: without unsynchronized accesses to the same address all interleavings are equivalent",
    "unsynchronized writes of one and the same constant (lazily cached values) are not reported unless the behaviour differs",
    "libc and OpenSSL are thread safe", NULL};

/* ---- monitor of memory accesses ---- */
#define NT 3
static int cur_t = -1;                 /* running thread, -1: not monitored */
static uint32_t vc[NT][NT];
struct ent { uintptr_t key; uint32_t gen; uint8_t w[NT], r[NT], wr, multi; uint32_t wc[NT], rc[NT]; uint8_t val[8]; };
#define SHB 17
static struct ent *sh; static uint32_t gen; static int monitoring; static long naccess;
static uintptr_t stklo[NT], stkhi[NT];
static uintptr_t pend; static int pendn;
static struct ent *shadow(uintptr_t k) {
    unsigned i = (k * 0x9e3779b97f4a7c15ULL) >> (64 - SHB);
    for(int n = 0; n < 4096; ++n, i = (i + 1) & ((1 << SHB) - 1)) {
        struct ent *e = &sh[i];
        if(e->gen == gen && e->key == k) return e;
        if(e->gen != gen) { memset(e, 0, sizeof *e); e->gen = gen; e->key = k; return e; }
    }
    mc_broken("shadow memory full");
}
static void race(uintptr_t a, int u, const char *what) {
    int t = cur_t; cur_t = -1;
    mc_fail("data-race", "%s: thread %d and thread %d use the same memory (%p) without synchronization", what, u, t, (void*)a);
}
static void flush(void) {
    uintptr_t a = pend; int n = pendn; pendn = 0;
    while(n > 0) {
        struct ent *e = shadow(a >> 3); int o = a & 7, k = 8 - o < n ? 8 - o : n;
        uint8_t m = ((1 << k) - 1) << o;
        for(int i = 0; i < k; ++i) {
            uint8_t v = *(volatile uint8_t*)(a + i), b = 1 << (o + i);
            if(!(e->wr & b)) { e->wr |= b; e->val[o + i] = v; }
            else if(e->val[o + i] != v) { e->multi |= b; e->val[o + i] = v; }
        }
        e->w[cur_t] |= m; e->wc[cur_t] = vc[cur_t][cur_t];
        for(int u = 0; u < NT; ++u) if(u != cur_t) {
            if((e->w[u] & m & e->multi) && e->wc[u] > vc[cur_t][u]) race(a, u, "two writes");
            if((e->r[u] & m & e->multi) && e->rc[u] > vc[cur_t][u]) race(a, u, "a read and a write");
        }
        a += k; n -= k;
    }
}
static inline int own(uintptr_t a) { return a >= stklo[cur_t] && a < stkhi[cur_t]; }
__attribute__((no_sanitize("address"))) static void rd(uintptr_t a, int n) {
    if(!monitoring || cur_t < 0 || own(a)) return;
    if(pendn) flush();
    ++naccess;
    while(n > 0) {
        struct ent *e = shadow(a >> 3); int o = a & 7, k = 8 - o < n ? 8 - o : n;
        uint8_t m = ((1 << k) - 1) << o;
        e->r[cur_t] |= m; e->rc[cur_t] = vc[cur_t][cur_t];
        for(int u = 0; u < NT; ++u) if(u != cur_t && (e->w[u] & m & e->multi) && e->wc[u] > vc[cur_t][u]) race(a, u, "a write and a read");
        a += k; n -= k;
    }
}
static void wr(uintptr_t a, int n) {
    if(!monitoring || cur_t < 0 || own(a)) return;
    if(pendn) flush();
    ++naccess; pend = a; pendn = n;
}
#define ACC(n) void __tsan_read##n(void *p) { rd((uintptr_t)p, n); } void __tsan_write##n(void *p) { wr((uintptr_t)p, n); } \
    void __tsan_unaligned_read##n(void *p) { rd((uintptr_t)p, n); } void __tsan_unaligned_write##n(void *p) { wr((uintptr_t)p, n); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { rd((uintptr_t)p, n); }
void __tsan_write_range(void *p, unsigned long n) { wr((uintptr_t)p, n); }
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
static void acqrel(void *o, int how);
#define ATOMIC(b, T) \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int m) { return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int m) { return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int m) { return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int m) { return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int m) { T r = __atomic_exchange_n(p, v, 5); acqrel((void*)p, 3); return r; } \
    T __tsan_atomic##b##_load(const volatile T *p, int m) { T r = __atomic_load_n(p, 5); if(m) acqrel((void*)p, 1); return r; } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int m) { if(m) acqrel((void*)p, 2); __atomic_store_n(p, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int f) { acqrel((void*)p, 3); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int m, int f) { acqrel((void*)p, 3); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int m, int f) { acqrel((void*)p, 3); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
/* Synchronization objects. */
#define NSYNC 64
static struct { void *o; uint32_t c[NT]; int held; } syn[NSYNC]; static int nsyn;
static int syncof(void *o) {
    for(int i = 0; i < nsyn; ++i) if(syn[i].o == o) return i;
    if(nsyn == NSYNC) mc_broken("too many synchronization objects");
    syn[nsyn].o = o; memset(syn[nsyn].c, 0, sizeof syn[nsyn].c); syn[nsyn].held = 0; return nsyn++;
}
static void acqrel(void *o, int how) {
    if(!monitoring || cur_t < 0) return;
    if(pendn) flush();
    int i = syncof(o);
    if(how & 1) for(int u = 0; u < NT; ++u) if(syn[i].c[u] > vc[cur_t][u]) vc[cur_t][u] = syn[i].c[u];
    if(how & 2) { for(int u = 0; u < NT; ++u) if(vc[cur_t][u] > syn[i].c[u]) syn[i].c[u] = vc[cur_t][u]; vc[cur_t][cur_t]++; }
}
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static void waitfor(int i);
void *ts_memcpy(void *d, const void *s, size_t n) { rd((uintptr_t)s, n); void *r = memcpy(d, s, n); wr((uintptr_t)d, n); return r; }
void *ts_memmove(void *d, const void *s, size_t n) { rd((uintptr_t)s, n); void *r = memmove(d, s, n); wr((uintptr_t)d, n); return r; }
void *ts_memset(void *d, int c, size_t n) { void *r = memset(d, c, n); wr((uintptr_t)d, n); return r; }
int ts_pthread_mutex_lock(pthread_mutex_t *m) { if(cur_t >= 0) { int i = syncof(m); waitfor(i); syn[i].held = 1; acqrel(m, 1); return 0; } return pthread_mutex_lock(m); }
int ts_pthread_mutex_unlock(pthread_mutex_t *m) { if(cur_t >= 0) { acqrel(m, 2); syn[syncof(m)].held = 0; return 0; } return pthread_mutex_unlock(m); }
/* Once: the flag lives in the object as libc's does, so that a reset of the library's variables resets it. */
int ts_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if(cur_t < 0) return pthread_once(o, fn);
    int i = syncof(o); waitfor(i);
    if(*o != 2) { syn[i].held = 1; fn(); *o = 2; acqrel(o, 2); syn[i].held = 0; }
    else acqrel(o, 1);
    return 0;
}
static void forget(void *p, size_t n) {
    if(!monitoring) return;
    if(pendn) flush();
    uintptr_t a = (uintptr_t)p & ~7UL, b = (uintptr_t)p + n;
    if(n > 65536) { /* stacks: walk the table */
        for(int i = 0; i < 1 << SHB; ++i) if(sh[i].gen == gen && sh[i].key >= a >> 3 && sh[i].key <= b >> 3) { uintptr_t k = sh[i].key; memset(&sh[i], 0, sizeof sh[i]); sh[i].gen = gen; sh[i].key = k; }
        return;
    }
    for(; a < b; a += 8) {
        struct ent *e = NULL; uintptr_t k = a >> 3; unsigned i = (k * 0x9e3779b97f4a7c15ULL) >> (64 - SHB);
        for(int j = 0; j < 4096; ++j, i = (i + 1) & ((1 << SHB) - 1)) { if(sh[i].gen != gen) break; if(sh[i].key == k) { e = &sh[i]; break; } }
        if(e) { memset(e, 0, sizeof *e); e->gen = gen; e->key = k; }
    }
}

/* ---- threads ---- */
static struct th {
    pthread_t th; sem_t sem; int alive, blocked, dtor, ended; int64_t next; uint8_t *stk;
    int nops, op[4]; char log[2048]; int len;
} ths[NT];
static int nth, nswitch; static sem_t mainsem;
static pthread_key_t mykey; static int keymade;
static void say(const char *fmt, ...) {
    struct th *t = &ths[cur_t]; va_list ap; va_start(ap, fmt);
    t->len += vsnprintf(t->log + t->len, sizeof t->log - t->len, fmt, ap); va_end(ap);
    if(t->len >= sizeof t->log) mc_broken("log full");
}
#define STK (1 << 20)
static void hand_to(int i) {
    int me = cur_t, e = errno;
    if(pendn) flush();
    ++nswitch; mc_log("      ---- switch to thread %d", i);
    cur_t = i; sem_post(&ths[i].sem);
    while(sem_wait(&ths[me].sem)) ;
    errno = e;
}
static void yielding(const char *what) {
    if(pendn) flush();
    if(cur_t < 0 || nth < 2) return;
    int cand[NT], n = 0;
    for(int i = 0; i < nth; ++i) if(i != cur_t && ths[i].alive) cand[n++] = i;
    if(!n) return;
    int c = mc_choose(n + 1, what);
    if(c) hand_to(cand[c - 1]);
}
/* All threads blocked: time goes on to the earliest of their timeouts. */
static int64_t blocking(int64_t next) {
    if(cur_t < 0 || nth < 2) return next;
    int me = cur_t;
    ths[me].blocked = 1; ths[me].next = next;
    for(int i = 0; i < nth; ++i) if(i != me && ths[i].alive && !ths[i].blocked) { hand_to(i); ths[me].blocked = 0; return -1; }
    int m = me;
    for(int i = 0; i < nth; ++i) if(ths[i].alive && ths[i].next < ths[m].next) m = i;
    if(m != me) { hand_to(m); ths[me].blocked = 0; return -1; }
    for(int i = 0; i < nth; ++i) ths[i].blocked = 0;
    return next;
}
static void waitfor(int s) {
    int guard = 0;
    while(syn[s].held) {
        int i; for(i = 0; i < nth; ++i) if(i != cur_t && ths[i].alive) break;
        if(i == nth || ++guard > 1000) mc_fail("deadlock", "a lock is never released");
        hand_to((cur_t + 1) % nth == cur_t || !ths[(cur_t + 1) % nth].alive ? i : (cur_t + 1) % nth);
    }
}
static void ended(void *p) {
    struct th *t = p;
    if(t->dtor++ == 0) { pthread_setspecific(mykey, p); return; } /* after the library's destructor */
    if(pendn) flush();
    t->alive = 0;
    int i; for(i = 0; i < nth; ++i) if(ths[i].alive) break;
    cur_t = i < nth ? i : -1;
    sem_post(i < nth ? &ths[i].sem : &mainsem);
}
static void run_op(int kind, int k);
static void *threadfn(void *p) {
    struct th *t = p;
    while(sem_wait(&t->sem)) ;
    pthread_setspecific(mykey, p);
    for(int i = 0; i < t->nops; ++i) {
        yielding("between calls");
        mc_step();
        say("[%d]", t->op[i]);
        run_op(t->op[i], i);
    }
    yielding("end of the thread");
    return NULL;
}
static int lastfree;
static void run(int n) {
    vk_advance_us((1000000 - vk_us() % 1000000) % 1000000);
    nth = n; nswitch = 0; nsyn = 0; memset(vc, 0, sizeof vc);
    for(int i = 0; i < NT; ++i) for(int j = 0; j < NT; ++j) vc[i][j] = i == j;
    if(!sh) sh = calloc(1 << SHB, sizeof *sh);
    ++gen; pendn = 0;
    for(int i = 0; i < n; ++i) {
        struct th *t = &ths[i];
        if(!t->stk) t->stk = aligned_alloc(4096, STK);
        stklo[i] = (uintptr_t)t->stk; stkhi[i] = stklo[i] + STK;
        sem_init(&t->sem, 0, 0); t->alive = 1; t->blocked = t->dtor = 0; t->len = 0; t->log[0] = 0;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t->stk, STK);
        if(pthread_create(&t->th, &at, threadfn, t)) mc_broken("pthread_create");
        pthread_attr_destroy(&at);
    }
    sem_init(&mainsem, 0, 0);
    vk_yield = yielding; vk_block = blocking; vk_alloc_hook = forget;
    monitoring = n > 1; int first = n > 1 ? mc_choose(n, "first thread") : 0;
    cur_t = first; sem_post(&ths[first].sem);
    while(sem_wait(&mainsem)) ;
    monitoring = 0; cur_t = -1; vk_yield = NULL; vk_block = NULL; vk_alloc_hook = NULL;
    for(int i = 0; i < n; ++i) { pthread_join(ths[i].th, NULL); sem_destroy(&ths[i].sem); }
    sem_destroy(&mainsem);
}

/* ---- what the threads do ---- */
static int64_t opbase[NT];
static int rel(void) { return now() - opbase[cur_t]; }
enum { GO, CHAN, SLEEP, FD, HND, BUNDLE, IPC, WS, DNS, NOW, TCP, CANCEL, MEM, CACHE, NOPS };
struct hnd { struct hvfs vfs; int closed; };
static const int hnd_type;
static void *hquery_(struct hvfs *v, const void *id) { if(id == &hnd_type) return v; errno = ENOTSUP; return NULL; }
static void hclose_(struct hvfs *v) { ((struct hnd*)v)->closed++; }
static coroutine void w_yield(int id) { for(int i = 0; i < 2; ++i) { say("y%d", id); if(yield()) { say("c%d", errno == ECANCELED); return; } } }
static coroutine void w_send(int ch, int v, int64_t at) { if(at >= 0) msleep(now() + at); int rc = chsend(ch, &v, sizeof v, now() + 50); say("s%d", rc); }
static coroutine void w_sleep(int id, int ms) { int rc = msleep(now() + ms); say("z%d:%d@%d", id, rc, rel()); }
static void fire(void *p) { vk_probe_set((int)(intptr_t)p, POLLIN); }
static coroutine void w_echo(int s) { char b[4]; int rc = brecv(s, b, 3, now() + 50); say("e%d", rc); rc = bsend(s, b, 3, now() + 50); say("e%d", rc); }
static coroutine void w_conn(int port) { struct ipaddr a; ipaddr_local(&a, "127.0.0.1", port, 0); int s = tcp_connect(&a, now() + 50); say("k%d", s); if(s >= 0) { w_echo(s); hclose(s); } }
static void run_op(int kind, int k) {
    int rc; opbase[cur_t] = now();
    switch(kind) {
    case GO: { int a = go(w_yield(1)), b = go(w_yield(2)); say("h%d,%d", a, b); yield(); say("m"); yield(); yield(); hclose(a); hclose(b); break; }
    case CHAN: { int ch[2]; rc = chmake(ch); say("c%d,%d,%d", rc, ch[0], ch[1]); int a = go(w_send(ch[0], 7, 1)), b = go(w_send(ch[0], 8, -1)), v;
        for(int i = 0; i < 3; ++i) { errno = 0; rc = chrecv(ch[1], &v, sizeof v, now() + 3); say("r%d:%d:%d@%d", rc, rc ? 0 : v, rc ? errno : 0, rel()); }
        hclose(a); hclose(b); hclose(ch[0]); hclose(ch[1]); break; }
    case SLEEP: { int a = go(w_sleep(1, 3)), b = go(w_sleep(2, 1)); msleep(now() + 2); say("m@%d", rel()); msleep(now() + 2); hclose(a); hclose(b); break; }
    case FD: { int p = vk_probe(); vk_probe_set(p, 0); vk_at(vk_us() + 2000, fire, (void*)(intptr_t)p);
        errno = 0; rc = fdin(p, now() + 1); say("f%d:%d", rc, errno); rc = fdin(p, now() + 5); say("f%d@%d", rc, rel()); fdclean(p); vk_close_raw(p); break; }
    case HND: { struct hnd o[3]; int h[3]; for(int i = 0; i < 3; ++i) { o[i] = (struct hnd){{hquery_, hclose_}}; h[i] = hmake(&o[i].vfs); say("h%d", h[i]); yielding("between calls"); }
        say("q%d", hquery(h[1], &hnd_type) == &o[1]); rc = hown(h[1]); say("o%d", rc); hclose(h[0]); yielding("between calls"); hclose(rc); hclose(h[2]); say("x%d%d%d", o[0].closed, o[1].closed, o[2].closed);
        errno = 0; rc = hclose(h[0]); say("e%d:%d", rc, errno); break; }
    case BUNDLE: { int b = bundle(); say("b%d", b); bundle_go(b, w_sleep(1, 1)); bundle_go(b, w_yield(2)); bundle_go(b, w_sleep(3, 10)); errno = 0; rc = bundle_wait(b, now() + 4); say("w%d:%d@%d", rc, errno, rel()); hclose(b); break; }
    case IPC: { int s[2]; rc = ipc_pair(s); say("p%d,%d,%d", rc, s[0], s[1]); int e = go(w_echo(s[1])); char b[4] = "abc", c[4]; bsend(s[0], b, 3, now() + 50); rc = brecv(s[0], c, 3, now() + 50); say("r%d:%d", rc, rc ? 0 : memcmp(b, c, 3)); hclose(e); hclose(s[0]); hclose(s[1]); break; }
    case WS: { int s[2]; ipc_pair(s); int a = ws_attach_client(s[0], WS_NOHTTP | WS_BINARY, NULL, NULL, -1), b = ws_attach_server(s[1], WS_NOHTTP | WS_BINARY, NULL, 0, NULL, 0, -1); say("w%d,%d", a, b);
        rc = msend(a, "hello", 5, now() + 50); char c[8]; ssize_t n = mrecv(b, c, sizeof c, now() + 50); say("m%d,%d,%d", rc, (int)n, n == 5 ? memcmp(c, "hello", 5) : 1); hclose(a); hclose(b); break; }
    case DNS: { struct ipaddr a; char s[IPADDR_MAXSTRLEN]; errno = 0; rc = ipaddr_remote(&a, "one.test", 80, IPADDR_IPV4, now() + 500); say("d%d:%d:%s", rc, rc ? errno : 0, rc ? "" : ipaddr_str(&a, s)); break; }
    case NOW: { int64_t a = now(); yielding("between calls"); int64_t b = now(); say("n%d", b >= a && b == vk_ms()); break; }
    case TCP: { struct ipaddr a; int port = 100 + cur_t * 10; rc = ipaddr_local(&a, "127.0.0.1", port, 0); int l = tcp_listen(&a, 5); say("l%d,%d", rc, l); int c = go(w_conn(port)); int s = tcp_accept(l, NULL, now() + 50); say("a%d", s);
        char b[4]; bsend(s, "xyz", 3, now() + 50); rc = brecv(s, b, 3, now() + 50); say("r%d:%d", rc, rc ? 0 : memcmp(b, "xyz", 3)); hclose(c); hclose(s); hclose(l); break; }
    case CANCEL: { int ch[2]; chmake(ch); int a = go(w_send(ch[0], 1, -1)), b = go(w_sleep(4, -1 - (int)now())); yield(); hclose(a); hclose(b); hclose(ch[0]); hclose(ch[1]); break; }
    case MEM: { static char m[NT][65536]; static struct chstorage cm[NT]; int ch[2]; rc = chmake_mem(&cm[cur_t], ch); say("c%d", rc); int a = go_mem(w_send(ch[0], 5, -1), m[cur_t], sizeof m[cur_t]), v = 0; rc = chrecv(ch[1], &v, sizeof v, -1); say("r%d:%d", rc, v); hclose(a); hclose(ch[0]); hclose(ch[1]); break; }
    case CACHE: { int h[6]; for(int i = 0; i < 6; ++i) h[i] = go(w_yield(i)); for(int i = 0; i < 6; ++i) hclose(h[i]); break; }
    }
}
static const char *files(const char *path) {
    if(strstr(path, "hosts")) return "10.0.0.1 one.test\n10.0.0.2 two.test\n";
    if(strstr(path, "resolv.conf")) return "nameserver 9.9.9.9\nlookup file bind\n";
    return NULL;
}
static void checkend(long mem0, int dns, int rnd) {
    (void)dns; (void)rnd;
    MC_CHECK(vk_outstanding() == mem0, "thread-leak", "%ld blocks of memory are left after the threads ended", vk_outstanding() - mem0);
}
static void compare(void) {
    int n = mc_arg & 15, nops = mc_arg >> 4 & 15, few = mc_arg >> 8;
    static const int subset[] = {GO, CHAN, FD, HND, IPC, DNS};
    vk_file = files; vk_memleak_ok = 1;
    if(!keymade) {
        /* The library's key comes first. */
        now(); pthread_key_create(&mykey, ended); keymade = 1; vk_reset_statics(); }
    int ops[NT][4]; uint64_t s = 0;
    for(int i = 0; i < n; ++i) for(int k = 0; k < nops; ++k) {
        ops[i][k] = few ? subset[mc_pick(sizeof subset / sizeof *subset, "operation")] : mc_pick(NOPS, "operation"); s = mc_mix(s, ops[i][k]); }
    /* Threads are alike: only ordered pairs. */
    for(int k = 0; n > 1 && k < nops; ++k) { if(ops[0][k] < ops[1][k]) break; if(ops[0][k] > ops[1][k]) { mc_trivial(); return; } }
    char *alone[NT]; long m1[NT]; int fd1[NT];
    for(int i = 0; i < n; ++i) {
        vk_reset_statics();
        struct th *t = &ths[0]; t->nops = nops; memcpy(t->op, ops[i], sizeof t->op);
        long m0 = vk_outstanding(); int f0 = vk_all_fds();
        run(1);
        alone[i] = strdup(ths[0].log); m1[i] = vk_outstanding() - m0; fd1[i] = vk_all_fds() - f0;
        mc_log("thread %d alone: %s (keeps %ld blocks, %d descriptors)", i, alone[i], m1[i], fd1[i]);
        int uses_dns = 0, uses_rnd = 0; for(int k = 0; k < nops; ++k) { uses_dns |= ops[i][k] == DNS; uses_rnd |= ops[i][k] == WS; }
        /* Only what is cached for the whole process may stay. */
        MC_CHECK(m1[i] == 0 || uses_dns, "thread-leak", "%ld blocks of memory are left after the thread ended", m1[i]);
        MC_CHECK(fd1[i] == 0 || (uses_rnd && fd1[i] == 1), "thread-leak", "%d descriptors are left after the thread ended", fd1[i]);
    }
    vk_reset_statics();
    long m0 = vk_outstanding(), m = 0; int f0 = vk_all_fds(), f = 0;
    for(int i = 0; i < n; ++i) { ths[i].nops = nops; memcpy(ths[i].op, ops[i], sizeof ths[i].op); if(m1[i] > m) m = m1[i]; if(fd1[i] > f) f = fd1[i]; }
    run(n);
    for(int i = 0; i < n; ++i) {
        mc_log("thread %d together: %s", i, ths[i].log);
        MC_CHECK(!strcmp(ths[i].log, alone[i]), "interference", "thread %d observed %s, alone it observes %s", i, ths[i].log, alone[i]);
        free(alone[i]);
    }
    MC_CHECK(vk_outstanding() - m0 <= m, "thread-leak", "%ld blocks of memory are left after the threads ended, %ld with one thread", vk_outstanding() - m0, m);
    MC_CHECK(vk_all_fds() - f0 <= f, "thread-leak", "%d descriptors are left after the threads ended, %d with one thread", vk_all_fds() - f0, f);
    mc_obs(nswitch); mc_obs(naccess != 0); mc_state(mc_mix(s, nswitch));
}

struct mc_scn mc_scns[] = {
    {"pairs-1", "every pair of 14 operations in two threads, every switch in the bound", compare, 1, 2, 2 | 1 << 4},
    {"pairs-1-few", "every pair of 6 operations, two switches", compare, 2, 3, 2 | 1 << 4 | 1 << 8},
    {"pairs-2", "two operations each", compare, 0, 1, 2 | 2 << 4},
    {"three", "three threads", compare, 0, 1, 3 | 1 << 4},
    {NULL}};
