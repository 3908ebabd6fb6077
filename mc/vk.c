#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <poll.h>
#include <ifaddrs.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/time.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/resource.h>
#include <setjmp.h>
#include <dlfcn.h>

struct vk_cfg vk;
int (*vk_on_idle)(void);
int vk_polls, vk_blocking_polls;
int (*vk_remote_connect)(const struct sockaddr*, int64_t*, struct vstream*);
void (*vk_remote_dgram)(const struct sockaddr*, const struct sockaddr*,
    const void*, size_t);
const char *(*vk_file)(const char*);
void *(*vk_ifaddrs)(void);
int (*vk_random_hook)(uint8_t *buf, size_t len);
uint8_t vk_random_seed;
int vk_sigpipes, vk_fdleak_ok, vk_memleak_ok;
int vk_rw_points;

/* ------------------------------------------------------------------ */
/* Files.                                                               */

enum {F_NONE, F_EPOLL, F_STREAM, F_LISTEN, F_DGRAM, F_PROBE, F_RANDOM, F_PLAIN,
    F_RAWSOCK};

#define MAXCAP 131072
struct dgram { struct dgram *next; struct sockaddr_storage from; size_t len;
    uint8_t data[]; };
struct ep { int used; int fd; struct vfile *file; uint32_t events;
    epoll_data_t data; };
struct vstream {
    uint8_t *rx; int cap; int head, len;
    int fin;            /* peer will send no more */
    int rst;            /* 1: reset pending, 2: reported */
    int wrshut;         /* we will send no more */
    int closed;         /* our descriptor is gone */
    int abort_;         /* closed abortively */
    int linger0;
    int connecting;     /* connect in progress */
    int soerr;
    struct vstream *peer;
    struct { int pos; struct vfile *f; } fds[16]; int nfds;
    int endless;        /* refilled whenever it is read */
    int rxcount;        /* bytes consumed so far */
    int rxtotal;        /* bytes ever delivered to rx */
};
struct vfile {
    int type; int refs; int id;
    int nonblock;
    int family, socktype;
    int bits;                       /* F_PROBE */
    struct ep eps[VK_NFD];          /* F_EPOLL */
    struct vstream *s;              /* F_STREAM */
    struct sockaddr_storage local, remote; socklen_t locallen, remotelen;
    int bound;
    struct vstream *backlog[16]; struct sockaddr_storage bladdr[16]; int nbl;
    int listening; int maxbl;
    struct dgram *dq; int dgerr;
    int connected;
    struct vfile *nextall;
    size_t roff;
};
static struct vfile *fdt[VK_NFD];
static int fileseq;
static int nextport;

/* All memory of the virtual kernel comes from this arena, reset after each
   execution. */
static uint8_t *arena; static size_t apos;
#define ARENA (64u << 20)
static void *aalloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if(!arena) {
        arena = mmap(NULL, ARENA, PROT_READ|PROT_WRITE,
            MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if(arena == MAP_FAILED) abort();
    }
    if(apos + n > ARENA) mc_broken("arena exhausted");
    void *p = arena + apos; apos += n;
    memset(p, 0, n);
    return p;
}

/* ------------------------------------------------------------------ */
/* Time.                                                                */

static int64_t us;
struct vevent { int64_t t; void (*fn)(void*); void *arg; int used; int seq; };
static struct vevent events[256];
static int evseq;

int64_t vk_us(void) { return us; }
static int64_t coarse(void) {
    int64_t ms = us / 1000;
    int g = vk.coarse > 0 ? vk.coarse : 1;
    return ms - ms % g;
}
int64_t vk_ms(void) { return coarse(); }
void vk_at(int64_t t, void (*fn)(void*), void *arg) {
    for(int i = 0; i < 256; ++i)
        if(!events[i].used) {
            events[i] = (struct vevent){t, fn, arg, 1, evseq++}; return; }
    mc_broken("too many events");
}
static struct vevent *first_event(void) {
    struct vevent *b = NULL;
    for(int i = 0; i < 256; ++i)
        if(events[i].used && (!b || events[i].t < b->t ||
              (events[i].t == b->t && events[i].seq < b->seq))) b = &events[i];
    return b;
}
static int run_due(void) {
    int n = 0;
    struct vevent *e;
    while((e = first_event()) && e->t <= us) {
        e->used = 0; e->fn(e->arg); ++n; }
    return n;
}
void vk_advance_us(int64_t d) { us += d; run_due(); }
unsigned long long (*vk_tsc)(void); /* the CPU's counter; 3 GHz if not set */
unsigned long long vk_rdtsc(void) { return vk_tsc ? vk_tsc() : (unsigned long long)us * 3000ULL; }
int64_t vk_wall_us; /* wall clock minus monotonic clock */

int vk_clock_gettime(clockid_t id, struct timespec *ts) {
    int64_t t = us;
    if(id == CLOCK_MONOTONIC_COARSE || id == CLOCK_REALTIME_COARSE)
        t = coarse() * 1000;
    if(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) t += vk_wall_us;
    ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
}
int vk_gettimeofday(struct timeval *tv, void *tz) {
    int64_t t = us + vk_wall_us;
    tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
time_t vk_time(time_t *p) {
    time_t t = (us + vk_wall_us) / 1000000; if(p) *p = t; return t;
}
clock_t vk_clock(void) { return us; }
int vk_usleep(useconds_t u) { vk_advance_us(u); return 0; }
int vk_nanosleep(const struct timespec *a, struct timespec *b) {
    vk_advance_us(a->tv_sec * 1000000LL + a->tv_nsec / 1000); return 0;
}

/* ------------------------------------------------------------------ */
/* Faults.                                                              */

int vk_fault_count; const char *vk_last_fault; static int faults_on;
void vk_faults_on(int on) { faults_on = on; }
void (*vk_yield)(const char *what);
void (*vk_alloc_hook)(void *p, size_t n);
int64_t (*vk_block)(int64_t next);
static int fault(const char *what) {
    if(vk_yield) vk_yield(what);
    if(!vk.faults || !faults_on) return 0;
    if(vk.faults == 2 && !strstr(what, "alloc") && !strstr(what, "memalign") && !strstr(what, "mprotect")) return 0;
    if(mc_choose(2, what)) {
        vk_fault_count++; vk_last_fault = what;
        mc_log("      FAULT injected: %s fails", what);
        return 1;
    }
    return 0;
}

/* ------------------------------------------------------------------ */
/* Heap.                                                                */

#define MT (1 << 14)
static struct { void *p; size_t n; } mt[MT];
static long nout; long vk_nalloc;
static void mt_add(void *p, size_t n) {
    if(!p) return;
    if(vk_alloc_hook) vk_alloc_hook(p, n);
    unsigned i = ((uintptr_t)p >> 4) * 2654435761u % MT;
    for(int k = 0; k < MT; ++k, i = (i + 1) % MT)
        if(!mt[i].p || mt[i].p == (void*)1) {
            mt[i].p = p; mt[i].n = n; nout++; vk_nalloc++; return; }
    mc_broken("allocation table full");
}
static size_t mt_del(void *p) {
    unsigned i = ((uintptr_t)p >> 4) * 2654435761u % MT;
    for(int k = 0; k < MT; ++k, i = (i + 1) % MT) {
        if(mt[i].p == p) { mt[i].p = (void*)1; nout--; return mt[i].n; }
        if(!mt[i].p) break;
    }
    mc_fail("bad-free", "free() or realloc() of a pointer that is not an allocated block");
}
long vk_outstanding(void) { return nout; }
long vk_live(void);

/* Coroutine stacks: a pool of reusable blocks. */
#define NSTK 256
static struct { uint8_t *p; int used; size_t sz; } stk[NSTK]; static int nstk;
long vk_live(void) {
    long n = 0;
    for(int i = 0; i < MT; ++i) if(mt[i].p && mt[i].p != (void*)1) n += mt[i].n;
    for(int i = 0; i < nstk; ++i) if(stk[i].used) n += stk[i].sz;
    return n;
}
static int stk_find(void *p) {
    for(int i = 0; i < nstk; ++i) if(stk[i].p == p) return i;
    return -1;
}
void *vk_malloc(size_t n) {
    if(fault("malloc")) { errno = ENOMEM; return NULL; }
    void *p = malloc(n ? n : 1);
    /* Fresh memory has arbitrary content. */
    if(p) memset(p, 0xA5, n);
    mt_add(p, n); return p;
}
void *vk_calloc(size_t a, size_t b) {
    if(fault("calloc")) { errno = ENOMEM; return NULL; }
    void *p = calloc(a, b); mt_add(p, a * b); return p;
}
void *vk_realloc(void *q, size_t n) {
    if(fault("realloc")) { errno = ENOMEM; return NULL; }
    /* Always move, so that stale pointers are noticed. */
    void *p = malloc(n ? n : 1);
    if(!p) return NULL;
    memset(p, 0xA5, n);
    if(q) {
        size_t o = mt_del(q);
        memcpy(p, q, o < n ? o : n);
        free(q);
    }
    mt_add(p, n); return p;
}
void *vk_reallocarray(void *q, size_t a, size_t b) { return vk_realloc(q, a * b); }
char *vk_strdup(const char *s) {
    char *p = vk_malloc(strlen(s) + 1); if(p) strcpy(p, s); return p;
}
char *vk_strndup(const char *s, size_t n) {
    size_t k = strnlen(s, n);
    char *p = vk_malloc(k + 1); if(p) { memcpy(p, s, k); p[k] = 0; } return p;
}
void vk_free(void *p) {
    if(!p) return;
    if(vk_yield) vk_yield("free");
    int i = stk_find(p);
    if(i >= 0) {
        if(!stk[i].used) mc_fail("bad-free", "coroutine stack freed twice");
        stk[i].used = 0; nout--; return;
    }
    mt_del(p); free(p);
}
int vk_posix_memalign(void **pp, size_t al, size_t n) {
    if(fault("posix_memalign")) return ENOMEM;
    if(!vk.real_stacks && al >= 4096 && n >= 65536) {
        for(int i = 0; i < nstk; ++i)
            if(!stk[i].used && stk[i].sz >= n) {
                stk[i].used = 1; nout++; vk_nalloc++; *pp = stk[i].p;
                if(vk_alloc_hook) vk_alloc_hook(stk[i].p, n);
                return 0; }
        if(nstk < NSTK) {
            uint8_t *p = mmap(NULL, n + 65536, PROT_READ|PROT_WRITE,
                MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
            if(p == MAP_FAILED) return ENOMEM;
            stk[nstk].p = p; stk[nstk].used = 1; stk[nstk].sz = n; nstk++;
            nout++; vk_nalloc++; *pp = p;
            return 0;
        }
    }
    void *p; int rc = posix_memalign(&p, al, n);
    if(rc) return rc;
    *pp = p; mt_add(p, n); return 0;
}
void *vk_aligned_alloc(size_t al, size_t n) {
    void *p; if(vk_posix_memalign(&p, al, n)) return NULL; return p;
}
void *vk_memalign(size_t al, size_t n) { return vk_aligned_alloc(al, n); }
int vk_mprotect(void *p, size_t n, int prot) {
    if(prot == PROT_NONE && fault("mprotect")) { errno = ENOMEM; return -1; }
    for(int i = 0; i < nstk; ++i)
        if((uint8_t*)p >= stk[i].p && (uint8_t*)p < stk[i].p + stk[i].sz)
            return 0;
    return mprotect(p, n, prot);
}

/* ------------------------------------------------------------------ */
/* Descriptors.                                                         */

static struct vfile *getf(int fd) {
    if(fd < 0 || fd >= VK_NFD || !fdt[fd]) { errno = EBADF; return NULL; }
    return fdt[fd];
}
static struct vfile *newfile(int type) {
    struct vfile *f = aalloc(sizeof *f);
    f->type = type; f->id = ++fileseq; f->refs = 0;
    return f;
}
static int newfd(struct vfile *f) {
    int max = vk.maxfds ? vk.maxfds : VK_NFD;
    for(int i = 3; i < max; ++i)
        if(!fdt[i]) { fdt[i] = f; f->refs++; return i; }
    errno = EMFILE; return -1;
}
static struct vstream *newstream(void) {
    struct vstream *s = aalloc(sizeof *s);
    s->cap = vk.cap ? vk.cap : 65536;
    return s;
}
static void link_streams(struct vstream *a, struct vstream *b) {
    a->peer = b; b->peer = a;
}
static void unref(struct vfile *f);
static void stream_gone(struct vstream *s) {
    if(s->closed) return;
    s->closed = 1;
    while(s->nfds) unref(s->fds[--s->nfds].f); /* descriptors in flight */
    struct vstream *p = s->peer;
    if(!p) return;
    if(s->connecting) { return; }
    /* Unread data, or abortive close of a connection that is not yet shut
       down from both sides: the peer sees a reset. */
    int graceful = s->wrshut && s->fin;
    if(s->len || (s->linger0 && !graceful)) {
        s->abort_ = 1;
        if(!p->closed && !p->rst) p->rst = 1;
    }
    p->fin = 1;
}
static void unref(struct vfile *f) {
    if(--f->refs > 0) return;
    /* Last reference: epoll forgets it. */
    for(int i = 0; i < VK_NFD; ++i)
        if(fdt[i] && fdt[i]->type == F_EPOLL)
            for(int k = 0; k < VK_NFD; ++k)
                if(fdt[i]->eps[k].used && fdt[i]->eps[k].file == f)
                    fdt[i]->eps[k].used = 0;
    if(f->type == F_STREAM && f->s) stream_gone(f->s);
    if(f->type == F_LISTEN)
        for(int i = 0; i < f->nbl; ++i) {
            struct vstream *s = f->backlog[i];
            if(s->peer && !s->peer->rst) s->peer->rst = 1;
            s->closed = 1;
        }
    f->type = F_NONE;
}
int vk_close(int fd) {
    struct vfile *f = getf(fd);
    if(!f) {
        mc_log("      close(%d): EBADF", fd);
        mc_fail("close-bad-fd", "close() of descriptor %d, which is not open", fd);
    }
    fdt[fd] = NULL;
    unref(f);
    return 0;
}
void vk_close_raw(int fd) { if(getf(fd)) vk_close(fd); }
int vk_open_fds(void) {
    int n = 0;
    for(int i = 0; i < VK_NFD; ++i)
        if(fdt[i] && fdt[i]->type != F_RANDOM && fdt[i]->type != F_EPOLL) ++n;
    return n;
}
int vk_all_fds(void) {
    int n = 0;
    for(int i = 0; i < VK_NFD; ++i) if(fdt[i]) ++n;
    return n;
}
int vk_is_open(int fd) { return fd >= 0 && fd < VK_NFD && fdt[fd] != NULL; }
int vk_file_id(int fd) { return vk_is_open(fd) ? fdt[fd]->id : -1; }
int vk_nonblock(int fd) { return vk_is_open(fd) && fdt[fd]->nonblock; }
int vk_dup(int fd) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(fault("dup")) { errno = EMFILE; return -1; }
    return newfd(f);
}
int vk_dup2(int a, int b) { mc_broken("dup2"); }
int vk_dup3(int a, int b, int c) { mc_broken("dup3"); }
int vk_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if(cmd == F_SETFL) { f->nonblock = !!(arg & O_NONBLOCK); return 0; }
    if(cmd == F_GETFD || cmd == F_SETFD) return 0;
    if(cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return vk_dup(fd);
    errno = EINVAL; return -1;
}
int vk_fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    return vk_fcntl(fd, cmd, arg);
}
int vk_getrlimit(int res, struct rlimit *rl) {
    rl->rlim_cur = rl->rlim_max = vk.maxfds ? vk.maxfds : VK_NFD; return 0;
}
int vk_getrlimit64(int res, struct rlimit *rl) { return vk_getrlimit(res, rl); }

int vk_probe(void) {
    struct vfile *f = newfile(F_PROBE);
    return newfd(f);
}
int vk_unpollable(void) { return newfd(newfile(F_PLAIN)); }
void vk_probe_set(int fd, int bits) {
    if(fd >= 0 && fd < VK_NFD && fdt[fd] && fdt[fd]->type == F_PROBE)
        fdt[fd]->bits = bits;
}
int vk_probe_get(int fd) { return vk_is_open(fd) ? fdt[fd]->bits : 0; }

/* ------------------------------------------------------------------ */
/* Readiness.                                                           */

static int readiness(struct vfile *f) {
    switch(f->type) {
    case F_PROBE: return f->bits;
    case F_STREAM: {
        struct vstream *s = f->s;
        if(!s) return POLLOUT | POLLHUP;
        if(s->connecting) return 0;
        int r = 0;
        if(s->soerr || s->rst == 1) r |= POLLERR | POLLIN | POLLOUT | POLLHUP;
        if(s->len || s->fin) r |= POLLIN;
        if(s->fin && s->wrshut) r |= POLLHUP;
        struct vstream *p = s->peer;
        if(!p || p->closed || s->rst || s->wrshut || p->len < p->cap)
            r |= POLLOUT;
        return r;
    }
    case F_LISTEN: return f->nbl ? POLLIN : 0;
    case F_DGRAM: return POLLOUT | (f->dq ? POLLIN : 0) | (f->dgerr ? POLLIN | POLLERR : 0);
    case F_RANDOM: return POLLIN;
    }
    return 0;
}
static uint32_t p2e(int b) {
    return ((b & POLLIN) ? EPOLLIN : 0) | ((b & POLLOUT) ? EPOLLOUT : 0) |
        ((b & POLLERR) ? EPOLLERR : 0) | ((b & POLLHUP) ? EPOLLHUP : 0);
}
int vk_epoll_create(int n) {
    if(fault("epoll_create")) { errno = EMFILE; return -1; }
    return newfd(newfile(F_EPOLL));
}
int vk_epoll_create1(int fl) { return vk_epoll_create(1); }
int vk_eventfd(unsigned a, int b) { mc_broken("eventfd"); }
int vk_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev) {
    struct vfile *e = getf(efd), *f = getf(fd);
    if(!e || !f) return -1;
    if(f->type == F_PLAIN) { errno = EPERM; return -1; }
    int i, fr = -1, at = -1;
    for(i = 0; i < VK_NFD; ++i) {
        if(e->eps[i].used && e->eps[i].fd == fd && e->eps[i].file == f) at = i;
        if(!e->eps[i].used && fr < 0) fr = i;
    }
    switch(op) {
    case EPOLL_CTL_ADD:
        if(at >= 0) { errno = EEXIST; return -1; }
        if(fault("epoll_ctl ADD")) { errno = ENOSPC; return -1; }
        e->eps[fr].used = 1; e->eps[fr].fd = fd; e->eps[fr].file = f;
        e->eps[fr].events = ev->events; e->eps[fr].data = ev->data;
        return 0;
    case EPOLL_CTL_MOD:
        if(at < 0) { errno = ENOENT; return -1; }
        e->eps[at].events = ev->events; e->eps[at].data = ev->data;
        return 0;
    case EPOLL_CTL_DEL:
        if(at < 0) { errno = ENOENT; return -1; }
        e->eps[at].used = 0;
        return 0;
    }
    errno = EINVAL; return -1;
}
static int polls_at_same_time; static int64_t last_poll_us;
/* Blocks until ready() reports something, the timeout, or EINTR. */
static int kwait(int timeout, int (*ready)(void*), void *arg) {
    vk_polls++;
    if(vk_yield) vk_yield("poll");
    if(timeout != 0) vk_blocking_polls++;
    if(us == last_poll_us) {
        if(++polls_at_same_time > 20000)
            mc_fail("livelock", "20000 kernel polls without any progress of time");
    }
    else { polls_at_same_time = 0; last_poll_us = us; }
    if(vk.eintr && timeout != 0 && mc_choose(2, "EINTR")) {
        mc_log("      poll: EINTR"); errno = EINTR; return -1; }
    int64_t until = timeout < 0 ? INT64_MAX : us + timeout * 1000LL;
    int64_t spins = 0;
    while(1) {
        run_due();
        int n = ready(arg);
        if(n > 0) return n;
        if(us >= until) return 0;
        struct vevent *e = first_event();
        int64_t next = until;
        if(e && e->t < next) next = e->t;
        if(vk_block) {
            int64_t t = vk_block(next);
            if(t == -1) continue; /* another thread ran */
            next = t;
        }
        if(next == INT64_MAX) {
            if(vk_on_idle && vk_on_idle()) {
                if(++spins > 100000) mc_broken("idle hook livelock");
                continue; }
            mc_fail("deadlock", "every coroutine is blocked for ever and no event is outstanding");
        }
        if(next == until && vk.late && mc_choose(2, "late wakeup")) next += 7000;
        us = next;
    }
}
struct epw { struct vfile *e; struct epoll_event *evs; int max; };
static int ep_ready(void *arg) {
    struct epw *w = arg;
    struct { uint32_t ev; epoll_data_t d; int fd; } r[VK_NFD]; int n = 0;
    for(int fd = 0; fd < VK_NFD; ++fd)
        for(int i = 0; i < VK_NFD; ++i) {
            struct ep *p = &w->e->eps[i];
            if(!p->used || p->fd != fd) continue;
            uint32_t ev = p2e(readiness(p->file)) &
                (p->events | EPOLLERR | EPOLLHUP);
            if(ev) { r[n].ev = ev; r[n].d = p->data; r[n].fd = fd; ++n; }
        }
    if(!n) return 0;
    int rot = 0, cnt = n;
    if(n > 1 && vk.ev_order) rot = mc_choose(n, "event order");
    if(n > 1 && vk.ev_limit && mc_choose(2, "one event only")) cnt = 1;
    if(cnt > w->max) cnt = w->max;
    for(int i = 0; i < cnt; ++i) {
        int k = (i + rot) % n;
        w->evs[i].events = r[k].ev; w->evs[i].data = r[k].d;
        mc_log("      event fd=%d %s%s%s%s", r[k].fd,
            r[k].ev & EPOLLIN ? "IN " : "", r[k].ev & EPOLLOUT ? "OUT " : "",
            r[k].ev & EPOLLERR ? "ERR " : "", r[k].ev & EPOLLHUP ? "HUP" : "");
    }
    return cnt;
}
int vk_epoll_wait(int efd, struct epoll_event *evs, int max, int timeout) {
    struct vfile *e = getf(efd);
    if(!e) return -1;
    mc_log("      epoll_wait(timeout=%d) at %lld us", timeout, (long long)us);
    struct epw w = {e, evs, max};
    return kwait(timeout, ep_ready, &w);
}
int vk_epoll_pwait(int efd, struct epoll_event *evs, int max, int timeout,
      const void *m) { return vk_epoll_wait(efd, evs, max, timeout); }
struct pw { struct pollfd *p; nfds_t n; };
static int p_ready(void *arg) {
    struct pw *w = arg; int n = 0;
    for(nfds_t i = 0; i < w->n; ++i) {
        struct pollfd *p = &w->p[i];
        p->revents = 0;
        if(p->fd < 0) continue;
        if(p->fd >= VK_NFD || !fdt[p->fd]) { p->revents = POLLNVAL; ++n; continue; }
        struct vfile *f = fdt[p->fd];
        int b = f->type == F_PLAIN ? (POLLIN | POLLOUT) : readiness(f);
        p->revents = b & (p->events | POLLERR | POLLHUP);
        if(p->revents) ++n;
    }
    return n;
}
int vk_poll(struct pollfd *p, nfds_t n, int timeout) {
    mc_log("      poll(n=%d, timeout=%d) at %lld us", (int)n, timeout, (long long)us);
    struct pw w = {p, n};
    int rc = kwait(timeout, p_ready, &w);
    if(rc > 0) for(nfds_t i = 0; i < n; ++i) if(p[i].revents)
        mc_log("      event fd=%d revents=%x", p[i].fd, p[i].revents);
    return rc;
}
int vk___poll_chk(struct pollfd *p, nfds_t n, int t, size_t l) { return vk_poll(p, n, t); }
int vk_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const void *m) {
    return vk_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
}

/* ------------------------------------------------------------------ */
/* Streams.                                                             */

static int rw_on(void) {
    if(vk.rw_choice_max && vk_rw_points >= vk.rw_choice_max) return 0;
    vk_rw_points++; return 1;
}
static void put(struct vstream *s, const uint8_t *b, int n) {
    if(!s->rx) s->rx = aalloc(s->cap);
    for(int i = 0; i < n; ++i)
        s->rx[(s->head + s->len + i) % s->cap] = b[i];
    s->len += n; s->rxtotal += n;
}
static int get(struct vstream *s, uint8_t *b, int n) {
    if(n > s->len) n = s->len;
    for(int i = 0; i < n; ++i) if(b) b[i] = s->rx[(s->head + i) % s->cap];
    if(n) { s->head = (s->head + n) % s->cap; s->len -= n; }
    s->rxcount += n;
    return n;
}
static int shorten(int n, const char *what) {
    if(n <= 1 || !vk.short_rw || !rw_on()) return n;
    int opts = n == 2 ? 2 : n == 3 ? 3 : 4;
    switch(mc_choose(opts, what)) {
    case 1: return 1;
    case 2: return n - 1;
    case 3: return n / 2;
    }
    return n;
}
static ssize_t st_send(struct vfile *f, const uint8_t *b, size_t n, int flags) {
    struct vstream *s = f->s;
    if(vk.us_per_rw) vk_advance_us(vk.us_per_rw);
    if(!s || s->connecting) { errno = s ? EAGAIN : ENOTCONN; return -1; }
    if(s->soerr) { errno = s->soerr; s->soerr = 0; return -1; }
    if(s->rst == 1) { s->rst = 2; errno = ECONNRESET; return -1; }
    struct vstream *p = s->peer;
    if(s->wrshut || s->rst || !p || p->closed) {
        if(!(flags & MSG_NOSIGNAL)) {
            vk_sigpipes++;
            mc_fail("sigpipe", "write to a closed connection without MSG_NOSIGNAL raises SIGPIPE");
        }
        errno = EPIPE; return -1;
    }
    if(vk.rw_err && mc_choose(2, "send: ECONNRESET")) {
        s->rst = 2; errno = ECONNRESET; return -1; }
    int room = p->cap - p->len;
    int k = (int)n < room ? (int)n : room;
    if(n && !k) {
        if(!f->nonblock) mc_fail("blocks", "a blocking send on fd stops the whole thread");
        errno = EAGAIN; return -1; }
    if(vk.eagain && n && rw_on() && mc_choose(2, "send: EAGAIN")) { errno = EAGAIN; return -1; }
    k = shorten(k, "send length");
    put(p, b, k);
    return k;
}
static ssize_t st_recv(struct vfile *f, uint8_t *b, size_t n, int flags) {
    struct vstream *s = f->s;
    if(!s) { errno = ENOTCONN; return -1; }
    if(vk.us_per_rw) vk_advance_us(vk.us_per_rw);
    if(s->endless && !s->fin && !s->rst) while(s->len < s->cap) put(s, (uint8_t*)"................", s->cap - s->len < 16 ? s->cap - s->len : 16);
    if(s->connecting) { errno = EAGAIN; return -1; }
    if(s->soerr) { errno = s->soerr; s->soerr = 0; return -1; }
    if(vk.rw_err && mc_choose(2, "recv: ECONNRESET")) {
        s->rst = 2; errno = ECONNRESET; return -1; }
    if(!s->len) {
        if(s->rst == 1) { s->rst = 2; errno = ECONNRESET; return -1; }
        if(s->fin || s->rst) return 0;
        if(!f->nonblock) mc_fail("blocks", "a blocking recv on fd stops the whole thread");
        errno = EAGAIN; return -1;
    }
    if(n == 0) return 0;
    if(vk.eagain && rw_on() && mc_choose(2, "recv: EAGAIN")) { errno = EAGAIN; return -1; }
    int k = (int)n < s->len ? (int)n : s->len;
    /* Ancillary data is a barrier. */
    for(int i = 0; i < s->nfds; ++i)
        if(s->fds[i].pos > s->rxcount && s->fds[i].pos < s->rxcount + k)
            k = s->fds[i].pos - s->rxcount;
    k = shorten(k, "recv length");
    return get(s, b, k);
}

size_t vs_read(struct vstream *s, void *buf, size_t len) { return get(s, buf, (int)len); }
size_t vs_avail(struct vstream *s) { return s->len; }
size_t vs_write(struct vstream *s, const void *buf, size_t len) {
    struct vstream *p = s->peer;
    if(p->closed) return 0;
    int room = p->cap - p->len;
    int k = (int)len < room ? (int)len : room;
    put(p, buf, k); return k;
}
void vs_shut(struct vstream *s) { s->wrshut = 1; s->peer->fin = 1; }
void vs_endless(struct vstream *s, int on) { s->peer->endless = on; if(on && !s->peer->len) put(s->peer, (uint8_t*)".", 1); }
void vs_rst(struct vstream *s) { if(!s->peer->rst) s->peer->rst = 1; s->peer->fin = 1; s->closed = 1; }
int vs_eof(struct vstream *s) { return s->fin; }
int vs_closed(struct vstream *s) { return s->peer->closed; }
int vs_got_rst(struct vstream *s) { return s->rst != 0; }
int vs_passed_fds(struct vstream *s) { return s->nfds; }
void vs_pass(struct vstream *s, const int *fds, int n) {
    struct vstream *p = s->peer;
    if(p->closed || p->cap == p->len) mc_broken("vs_pass: no room");
    for(int i = 0; i < n && p->nfds < 16; ++i) {
        struct vfile *f = fdt[fds[i]];
        f->refs++; p->fds[p->nfds].pos = p->rxtotal; p->fds[p->nfds++].f = f;
    }
    put(p, (uint8_t*)"\xcc", 1);
}
struct vstream *vs_peer(struct vstream *s) { return s->peer; }
struct vstream *vk_stream_of(int fd) {
    return vk_is_open(fd) && fdt[fd]->type == F_STREAM ? fdt[fd]->s : NULL;
}
int vk_stream_fd(int family, struct vstream **remote) {
    struct vfile *f = newfile(F_STREAM);
    f->family = family; f->socktype = SOCK_STREAM; f->connected = 1;
    f->s = newstream();
    struct vstream *r = newstream();
    link_streams(f->s, r);
    f->local.ss_family = family; f->locallen = sizeof(struct sockaddr_in);
    *remote = r;
    return newfd(f);
}

/* ------------------------------------------------------------------ */
/* Sockets.                                                             */

static int sa_port(const struct sockaddr *sa) {
    if(sa->sa_family == AF_INET) return ntohs(((struct sockaddr_in*)sa)->sin_port);
    if(sa->sa_family == AF_INET6) return ntohs(((struct sockaddr_in6*)sa)->sin6_port);
    return 0;
}
static void sa_setport(struct sockaddr *sa, int port) {
    if(sa->sa_family == AF_INET) ((struct sockaddr_in*)sa)->sin_port = htons(port);
    if(sa->sa_family == AF_INET6) ((struct sockaddr_in6*)sa)->sin6_port = htons(port);
}
static int sa_any(const struct sockaddr *sa) {
    if(sa->sa_family == AF_INET) return ((struct sockaddr_in*)sa)->sin_addr.s_addr == 0;
    if(sa->sa_family == AF_INET6) {
        static const struct in6_addr z;
        return !memcmp(&((struct sockaddr_in6*)sa)->sin6_addr, &z, sizeof z);
    }
    return 0;
}
static int sa_match(const struct sockaddr *bound, const struct sockaddr *to) {
    if(bound->sa_family != to->sa_family) return 0;
    if(bound->sa_family == AF_UNIX)
        return !strcmp(((struct sockaddr_un*)bound)->sun_path,
            ((struct sockaddr_un*)to)->sun_path);
    if(sa_port(bound) != sa_port(to)) return 0;
    if(sa_any(bound)) return 1;
    if(bound->sa_family == AF_INET)
        return ((struct sockaddr_in*)bound)->sin_addr.s_addr ==
            ((struct sockaddr_in*)to)->sin_addr.s_addr;
    return !memcmp(&((struct sockaddr_in6*)bound)->sin6_addr,
        &((struct sockaddr_in6*)to)->sin6_addr, 16);
}
int vk_socket(int fam, int type, int proto) {
    if(fault("socket")) { errno = EMFILE; return -1; }
    int t = type & 0xf;
    struct vfile *f = newfile(t == SOCK_DGRAM ? F_DGRAM : F_RAWSOCK);
    f->family = fam; f->socktype = t;
    if(type & SOCK_NONBLOCK) f->nonblock = 1;
    f->local.ss_family = fam;
    f->locallen = fam == AF_INET6 ? sizeof(struct sockaddr_in6) :
        fam == AF_UNIX ? sizeof(sa_family_t) : sizeof(struct sockaddr_in);
    return newfd(f);
}
int vk_socketpair(int fam, int type, int proto, int sv[2]) {
    if(fault("socketpair")) { errno = EMFILE; return -1; }
    struct vstream *r;
    int a = vk_stream_fd(fam, &r);
    if(a < 0) return -1;
    struct vfile *f = newfile(F_STREAM);
    f->family = fam; f->socktype = SOCK_STREAM; f->connected = 1; f->s = r;
    f->local.ss_family = fam; f->locallen = sizeof(sa_family_t);
    int b = newfd(f);
    if(b < 0) { vk_close(a); errno = EMFILE; return -1; }
    sv[0] = a; sv[1] = b;
    return 0;
}
static struct vfile *find_bound(const struct sockaddr *sa, int type) {
    for(int i = 0; i < VK_NFD; ++i) {
        struct vfile *f = fdt[i];
        if(f && f->bound && f->socktype == type &&
              sa_match((struct sockaddr*)&f->local, sa)) return f;
    }
    return NULL;
}
int vk_bind(int fd, const struct sockaddr *sa, socklen_t len) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(fault("bind")) { errno = EADDRINUSE; return -1; }
    if(sa->sa_family != f->family || len > sizeof f->local) { errno = EINVAL; return -1; }
    if((f->family == AF_INET && len < sizeof(struct sockaddr_in)) ||
          (f->family == AF_INET6 && len < sizeof(struct sockaddr_in6))) {
        errno = EINVAL; return -1; }
    if(f->bound) { errno = EINVAL; return -1; }
    memset(&f->local, 0, sizeof f->local);
    memcpy(&f->local, sa, len); f->locallen = len;
    if(f->family != AF_UNIX && sa_port(sa) == 0)
        sa_setport((struct sockaddr*)&f->local, nextport++);
    else {
        struct vfile *o = find_bound(sa, f->socktype);
        if(o && o != f) { errno = EADDRINUSE; return -1; }
    }
    f->bound = 1;
    return 0;
}
int vk_listen(int fd, int bl) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(fault("listen")) { errno = EADDRINUSE; return -1; }
    if(f->type != F_RAWSOCK && f->type != F_LISTEN) { errno = EOPNOTSUPP; return -1; }
    f->type = F_LISTEN; f->listening = 1; f->maxbl = bl > 16 ? 16 : bl;
    if(!f->bound) { sa_setport((struct sockaddr*)&f->local, nextport++); f->bound = 1; }
    return 0;
}
struct conn { struct vstream *s; int err; };
static void conn_done(void *arg) {
    struct conn *c = arg;
    c->s->connecting = 0;
    if(c->err) { c->s->soerr = c->err; c->s->fin = 1; }
}
int vk_connect(int fd, const struct sockaddr *sa, socklen_t len) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(fault("connect")) { errno = ENOBUFS; return -1; }
    if(sa->sa_family != f->family) { errno = EAFNOSUPPORT; return -1; }
    if((f->family == AF_INET && len < sizeof(struct sockaddr_in)) ||
          (f->family == AF_INET6 && len < sizeof(struct sockaddr_in6))) {
        errno = EINVAL; return -1; }
    if(f->type == F_DGRAM) {
        memcpy(&f->remote, sa, len); f->remotelen = len; f->connected = 1;
        if(!f->bound) { sa_setport((struct sockaddr*)&f->local, nextport++); f->bound = 1; }
        return 0;
    }
    if(f->type == F_STREAM) {
        if(f->s && f->s->connecting) { errno = EALREADY; return -1; }
        errno = EISCONN; return -1; }
    struct vstream *a = newstream(), *b = newstream();
    link_streams(a, b);
    int64_t delay = 0; int err = 0;
    struct vfile *l = find_bound(sa, SOCK_STREAM);
    if(l && l->type == F_LISTEN) {
        if(l->nbl >= l->maxbl) {
            if(f->family == AF_UNIX) { errno = EAGAIN; return -1; }
            err = ECONNREFUSED;
        }
        else {
            l->bladdr[l->nbl] = f->local;
            l->backlog[l->nbl++] = b;
        }
    }
    else if(vk_remote_connect) {
        int rc = vk_remote_connect(sa, &delay, b);
        if(rc < 0) err = -rc;
        if(rc == VK_BLACKHOLE) delay = -1;
    }
    else err = f->family == AF_UNIX ? ENOENT : ECONNREFUSED;
    if(f->family == AF_UNIX && err) { errno = err; return -1; }
    f->type = F_STREAM; f->s = a; f->connected = 1;
    memcpy(&f->remote, sa, len); f->remotelen = len;
    if(!f->bound) { sa_setport((struct sockaddr*)&f->local, nextport++); }
    if(f->family == AF_UNIX) return 0;
    int mode = 0;
    if(delay == 0 && vk.connect_async) mode = mc_choose(2, "connect: in progress");
    if(delay == 0 && !mode) {
        if(err) { f->type = F_RAWSOCK; f->s = NULL; errno = err; return -1; }
        return 0;
    }
    a->connecting = 1;
    if(delay >= 0) {
        struct conn *c = aalloc(sizeof *c);
        c->s = a; c->err = err;
        vk_at(us + delay, conn_done, c);
    }
    if(!f->nonblock) mc_fail("blocks", "a blocking connect stops the whole thread");
    errno = EINPROGRESS; return -1;
}
int vk_accept(int fd, struct sockaddr *sa, socklen_t *len) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(f->type != F_LISTEN) { errno = EINVAL; return -1; }
    if(!f->nbl) {
        if(!f->nonblock) mc_fail("blocks", "a blocking accept stops the whole thread");
        errno = EAGAIN; return -1; }
    if(fault("accept")) { errno = EMFILE; return -1; }
    /* The client has gone, or another process has taken it. */
    int gone = vk.eagain ? mc_choose(3, "accept: ECONNABORTED, EAGAIN") : 0;
    if(gone) {
        struct vstream *s = f->backlog[0];
        memmove(f->backlog, f->backlog + 1, sizeof(*f->backlog) * (f->nbl - 1));
        memmove(f->bladdr, f->bladdr + 1, sizeof(*f->bladdr) * (f->nbl - 1));
        f->nbl--;
        s->closed = 1; if(s->peer && !s->peer->rst) s->peer->rst = 1;
        errno = gone == 1 ? ECONNABORTED : EAGAIN; return -1;
    }
    struct vfile *n = newfile(F_STREAM);
    n->family = f->family; n->socktype = SOCK_STREAM; n->connected = 1;
    n->local = f->local; n->locallen = f->locallen;
    n->s = f->backlog[0]; n->remote = f->bladdr[0];
    n->remotelen = f->family == AF_INET6 ? sizeof(struct sockaddr_in6) :
        f->family == AF_UNIX ? sizeof(sa_family_t) : sizeof(struct sockaddr_in);
    int nfd = newfd(n);
    if(nfd < 0) return -1;
    memmove(f->backlog, f->backlog + 1, sizeof(*f->backlog) * (f->nbl - 1));
    memmove(f->bladdr, f->bladdr + 1, sizeof(*f->bladdr) * (f->nbl - 1));
    f->nbl--;
    if(sa && len) {
        socklen_t k = *len < n->remotelen ? *len : n->remotelen;
        memcpy(sa, &n->remote, k); *len = n->remotelen; }
    return nfd;
}
int vk_accept4(int fd, struct sockaddr *sa, socklen_t *len, int fl) {
    int n = vk_accept(fd, sa, len);
    if(n >= 0 && (fl & SOCK_NONBLOCK)) fdt[n]->nonblock = 1;
    return n;
}
static struct vstream *client_of(struct vfile *f, const struct sockaddr_storage *from) {
    if(f->nbl >= f->maxbl) return NULL;
    struct vstream *a = newstream(), *b = newstream();
    link_streams(a, b);
    if(from) f->bladdr[f->nbl] = *from;
    else {
        memset(&f->bladdr[f->nbl], 0, sizeof f->bladdr[0]);
        f->bladdr[f->nbl].ss_family = f->family;
        if(f->family == AF_INET) {
            struct sockaddr_in *in = (struct sockaddr_in*)&f->bladdr[f->nbl];
            in->sin_addr.s_addr = htonl(0x0a000001); in->sin_port = htons(40000 + f->nbl);
        }
    }
    f->backlog[f->nbl++] = b;
    return a;
}
struct vstream *vk_remote_client(int port, const char *path) {
    for(int i = 0; i < VK_NFD; ++i) {
        struct vfile *f = fdt[i];
        if(!f || f->type != F_LISTEN) continue;
        if(path ? (f->family != AF_UNIX ||
              strcmp(((struct sockaddr_un*)&f->local)->sun_path, path)) :
              sa_port((struct sockaddr*)&f->local) != port) continue;
        return client_of(f, NULL);
    }
    return NULL;
}
struct vstream *vk_remote_client_from(const struct sockaddr *to, const char *path,
      const struct sockaddr_storage *from) {
    for(int i = 0; i < VK_NFD; ++i) {
        struct vfile *f = fdt[i];
        if(!f || f->type != F_LISTEN) continue;
        if(path ? (f->family != AF_UNIX ||
              strcmp(((struct sockaddr_un*)&f->local)->sun_path, path)) :
              !sa_match((struct sockaddr*)&f->local, to)) continue;
        return client_of(f, from);
    }
    return NULL;
}
int vk_shutdown(int fd, int how) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(f->type != F_STREAM || !f->s) { errno = ENOTCONN; return -1; }
    struct vstream *s = f->s;
    if(s->rst) { errno = ENOTCONN; return -1; }
    if(how == SHUT_WR || how == SHUT_RDWR) {
        s->wrshut = 1; if(s->peer) s->peer->fin = 1; }
    if(how == SHUT_RD || how == SHUT_RDWR) s->fin = 1;
    return 0;
}
int vk_getsockopt(int fd, int lvl, int opt, void *val, socklen_t *len) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(f->type == F_PROBE || f->type == F_PLAIN || f->type == F_EPOLL) {
        errno = ENOTSOCK; return -1; }
    int v = 0;
    if(lvl == SOL_SOCKET && opt == SO_ERROR) {
        if(f->type == F_STREAM && f->s) {
            v = f->s->soerr; f->s->soerr = 0;
            if(!v && f->s->rst == 1) { v = ECONNRESET; f->s->rst = 2; }
        }
    }
    else if(lvl == SOL_SOCKET && opt == SO_TYPE) v = f->socktype;
    else if(lvl == SOL_SOCKET && opt == SO_ACCEPTCONN) v = f->type == F_LISTEN;
    else if(lvl == SOL_SOCKET && opt == SO_DOMAIN) v = f->family;
    else { errno = ENOPROTOOPT; return -1; }
    if(*len < sizeof v) { errno = EINVAL; return -1; }
    memcpy(val, &v, sizeof v); *len = sizeof v;
    return 0;
}
int vk_setsockopt(int fd, int lvl, int opt, const void *val, socklen_t len) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(f->type == F_PROBE || f->type == F_PLAIN || f->type == F_EPOLL) {
        errno = ENOTSOCK; return -1; }
    if(lvl == SOL_SOCKET && opt == SO_LINGER && len == sizeof(struct linger)) {
        const struct linger *l = val;
        if(f->type == F_STREAM && f->s)
            f->s->linger0 = f->family != AF_UNIX && l->l_onoff && l->l_linger == 0;
    }
    return 0;
}
static int givename(struct sockaddr_storage *ss, socklen_t n,
      struct sockaddr *sa, socklen_t *len) {
    memcpy(sa, ss, *len < n ? *len : n); *len = n; return 0;
}
int vk_getsockname(int fd, struct sockaddr *sa, socklen_t *len) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(f->type == F_PROBE || f->type == F_PLAIN || f->type == F_EPOLL) {
        errno = ENOTSOCK; return -1; }
    return givename(&f->local, f->locallen, sa, len);
}
int vk_getpeername(int fd, struct sockaddr *sa, socklen_t *len) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(!f->connected) { errno = ENOTCONN; return -1; }
    return givename(&f->remote, f->remotelen, sa, len);
}

/* ------------------------------------------------------------------ */
/* Datagrams.                                                           */

int vk_inject_dgram(const struct sockaddr *from, const struct sockaddr *to,
      const void *buf, size_t len) {
    for(int i = 0; i < VK_NFD; ++i) {
        struct vfile *f = fdt[i];
        if(!f || f->type != F_DGRAM || !f->bound ||
              !sa_match((struct sockaddr*)&f->local, to)) continue;
        if(f->connected && !sa_match((struct sockaddr*)&f->remote, from)) continue;
        struct dgram *d = aalloc(sizeof *d + len), **pp = &f->dq;
        memcpy(&d->from, from, from->sa_family == AF_INET6 ?
            sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in));
        d->len = len; memcpy(d->data, buf, len);
        while(*pp) pp = &(*pp)->next;
        *pp = d;
        return 1;
    }
    return 0;
}
int vk_dgram_error(const struct sockaddr *to, int err) {
    for(int i = 0; i < VK_NFD; ++i) {
        struct vfile *f = fdt[i];
        if(!f || f->type != F_DGRAM || !f->bound || !f->connected ||
              !sa_match((struct sockaddr*)&f->local, to)) continue;
        f->dgerr = err;
        return 1;
    }
    return 0;
}
static ssize_t dg_send(struct vfile *f, const uint8_t *b, size_t n,
      const struct sockaddr *to, socklen_t tolen) {
    if(!to) {
        if(!f->connected) { errno = EDESTADDRREQ; return -1; }
        to = (struct sockaddr*)&f->remote;
    }
    else if(to->sa_family != f->family) { errno = EAFNOSUPPORT; return -1; }
    else if((to->sa_family == AF_INET && tolen < sizeof(struct sockaddr_in)) ||
          (to->sa_family == AF_INET6 && tolen < sizeof(struct sockaddr_in6))) {
        errno = EINVAL; return -1; }
    if(n > 65507) { errno = EMSGSIZE; return -1; }
    if(f->dgerr) { errno = f->dgerr; f->dgerr = 0; return -1; }
    if(vk.eagain && mc_choose(2, "sendto: EAGAIN")) { errno = EAGAIN; return -1; }
    if(!f->bound) { sa_setport((struct sockaddr*)&f->local, nextport++); f->bound = 1; }
    if(!vk_inject_dgram((struct sockaddr*)&f->local, to, b, n) && vk_remote_dgram)
        vk_remote_dgram((struct sockaddr*)&f->local, to, b, n);
    return n;
}
static ssize_t dg_recv(struct vfile *f, const struct iovec *iov, size_t niov,
      struct sockaddr *from, socklen_t *fromlen, int *flags) {
    if(f->dgerr) { errno = f->dgerr; f->dgerr = 0; return -1; }
    if(!f->dq) {
        if(!f->nonblock) mc_fail("blocks", "a blocking recv on a datagram socket stops the whole thread");
        errno = EAGAIN; return -1; }
    if(vk.eagain && mc_choose(2, "recvfrom: EAGAIN")) { errno = EAGAIN; return -1; }
    struct dgram *d = f->dq;
    f->dq = d->next;
    size_t off = 0;
    for(size_t i = 0; i < niov && off < d->len; ++i) {
        size_t k = d->len - off < iov[i].iov_len ? d->len - off : iov[i].iov_len;
        if(k) memcpy(iov[i].iov_base, d->data + off, k);
        off += k;
    }
    if(flags) *flags = off < d->len ? MSG_TRUNC : 0;
    if(from && fromlen) {
        socklen_t n = d->from.ss_family == AF_INET6 ?
            sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
        memcpy(from, &d->from, *fromlen < n ? *fromlen : n); *fromlen = n;
    }
    return off;
}

/* ------------------------------------------------------------------ */
/* Reading and writing.                                                 */

ssize_t vk_sendmsg(int fd, const struct msghdr *m, int flags) {
    if(vk_yield) vk_yield("transfer");
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(m->msg_iovlen > 1024) { errno = EMSGSIZE; return -1; }
    size_t n = 0;
    for(size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    uint8_t *b = malloc(n ? n : 1); size_t off = 0;
    for(size_t i = 0; i < m->msg_iovlen; ++i) {
        if(m->msg_iov[i].iov_len)
            memcpy(b + off, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
        off += m->msg_iov[i].iov_len;
    }
    ssize_t rc;
    int e;
    switch(f->type) {
    case F_STREAM: {
        struct vstream *p = f->s ? f->s->peer : NULL;
        int at = p ? p->rxtotal : 0;
        if(m->msg_control && m->msg_controllen)
            for(struct cmsghdr *c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR((struct msghdr*)m, c)) {
                if(c->cmsg_len < CMSG_LEN(0) || (uint8_t*)c + c->cmsg_len > (uint8_t*)m->msg_control + m->msg_controllen) { free(b); errno = EINVAL; return -1; }
                if(c->cmsg_level != SOL_SOCKET || c->cmsg_type != SCM_RIGHTS) continue;
                int k = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
                for(int i = 0; i < k; ++i) {
                    int x; memcpy(&x, CMSG_DATA(c) + i * sizeof(int), sizeof x);
                    if(!vk_is_open(x)) { free(b); errno = EBADF; return -1; }
                }
            }
        rc = st_send(f, b, n, flags);
        if(rc > 0 && p && m->msg_control && m->msg_controllen)
            for(struct cmsghdr *c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR((struct msghdr*)m, c))
                if(c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
                    int k = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
                    for(int i = 0; i < k; ++i) {
                        int x; memcpy(&x, CMSG_DATA(c) + i * sizeof(int), sizeof x);
                        struct vfile *pf = getf(x);
                        if(!pf) { free(b); errno = EBADF; return -1; }
                        if(p->nfds < 16) {
                            pf->refs++; p->fds[p->nfds].pos = at;
                            p->fds[p->nfds++].f = pf; }
                    }
                }
        break;
    }
    case F_DGRAM: rc = dg_send(f, b, n, m->msg_name, m->msg_namelen); break;
    case F_LISTEN: case F_RAWSOCK: errno = ENOTCONN; rc = -1; break;
    default: errno = ENOTSOCK; rc = -1;
    }
    e = errno; free(b); errno = e;
    mc_log("      sendmsg(fd=%d, %zu) = %zd%s%s", fd, n, rc, rc < 0 ? " " : "",
        rc < 0 ? strerror(errno) : "");
    return rc;
}
ssize_t vk_recvmsg(int fd, struct msghdr *m, int flags) {
    if(vk_yield) vk_yield("transfer");
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(m->msg_iovlen > 1024) { errno = EMSGSIZE; return -1; }
    size_t n = 0;
    for(size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    ssize_t rc;
    if(f->type == F_DGRAM) {
        rc = dg_recv(f, m->msg_iov, m->msg_iovlen, m->msg_name, &m->msg_namelen,
            &m->msg_flags);
    }
    else if(f->type == F_STREAM) {
        uint8_t *b = malloc(n ? n : 1);
        rc = st_recv(f, b, n, flags);
        int e = errno;
        size_t off = 0;
        if(rc > 0) for(size_t i = 0; i < m->msg_iovlen && off < (size_t)rc; ++i) {
            size_t k = rc - off < m->msg_iov[i].iov_len ? rc - off : m->msg_iov[i].iov_len;
            if(k) memcpy(m->msg_iov[i].iov_base, b + off, k);
            off += k;
        }
        free(b);
        size_t cl = m->msg_controllen;
        if(rc >= 0) { m->msg_flags = 0; m->msg_controllen = 0; } /* untouched on error */
        int pos = f->s->nfds ? f->s->fds[0].pos : 0, got = 0;
        while(rc > 0 && f->s->nfds && f->s->fds[0].pos == pos && pos < f->s->rxcount) {
            struct vfile *pf = f->s->fds[0].f;
            memmove(f->s->fds, f->s->fds + 1, sizeof f->s->fds[0] * (f->s->nfds - 1));
            f->s->nfds--;
            int nfd = -1;
            if(m->msg_control && cl >= CMSG_LEN((got + 1) * sizeof(int))) {
                nfd = newfd(pf); /* takes a reference of its own */
            }
            if(nfd >= 0) {
                struct cmsghdr *c = m->msg_control;
                c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS;
                memcpy(CMSG_DATA(c) + got++ * sizeof(int), &nfd, sizeof nfd);
                c->cmsg_len = CMSG_LEN(got * sizeof(int));
                m->msg_controllen = cl < CMSG_SPACE(got * sizeof(int)) ? cl : CMSG_SPACE(got * sizeof(int));
            }
            else m->msg_flags |= MSG_CTRUNC;
            unref(pf);
        }
        errno = e;
    }
    else { errno = f->type == F_LISTEN || f->type == F_RAWSOCK ? ENOTCONN : ENOTSOCK; rc = -1; }
    mc_log("      recvmsg(fd=%d, %zu) = %zd%s%s", fd, n, rc, rc < 0 ? " " : "",
        rc < 0 ? strerror(errno) : "");
    return rc;
}
ssize_t vk_send(int fd, const void *b, size_t n, int flags) {
    struct iovec v = {(void*)b, n}; struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1};
    return vk_sendmsg(fd, &m, flags);
}
ssize_t vk_sendto(int fd, const void *b, size_t n, int flags,
      const struct sockaddr *sa, socklen_t len) {
    struct iovec v = {(void*)b, n};
    struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_name = (void*)sa,
        .msg_namelen = len};
    return vk_sendmsg(fd, &m, flags);
}
ssize_t vk_recv(int fd, void *b, size_t n, int flags) {
    struct iovec v = {b, n}; struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1};
    return vk_recvmsg(fd, &m, flags);
}
ssize_t vk___recv_chk(int fd, void *b, size_t n, size_t s, int fl) { return vk_recv(fd, b, n, fl); }
ssize_t vk_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *sa,
      socklen_t *len) {
    struct iovec v = {b, n};
    struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_name = sa,
        .msg_namelen = len ? *len : 0};
    ssize_t rc = vk_recvmsg(fd, &m, flags);
    if(len) *len = m.msg_namelen;
    return rc;
}
ssize_t vk___recvfrom_chk(int fd, void *b, size_t n, size_t s, int fl,
    struct sockaddr *sa, socklen_t *l) { return vk_recvfrom(fd, b, n, fl, sa, l); }
ssize_t vk_write(int fd, const void *b, size_t n) { return vk_send(fd, b, n, 0); }
ssize_t vk_writev(int fd, const struct iovec *v, int k) {
    struct msghdr m = {.msg_iov = (void*)v, .msg_iovlen = k};
    return vk_sendmsg(fd, &m, 0);
}
ssize_t vk_read(int fd, void *b, size_t n) {
    struct vfile *f = getf(fd);
    if(!f) return -1;
    if(f->type == F_RANDOM) {
        if(vk_random_hook) { vk_random_hook(b, n); return n; }
        for(size_t i = 0; i < n; ++i)
            ((uint8_t*)b)[i] = (uint8_t)(vk_random_seed * 31 + 17 + f->roff++ * 59);
        return n;
    }
    return vk_recv(fd, b, n, 0);
}
ssize_t vk___read_chk(int fd, void *b, size_t n, size_t s) { return vk_read(fd, b, n); }
ssize_t vk_readv(int fd, const struct iovec *v, int k) {
    struct msghdr m = {.msg_iov = (void*)v, .msg_iovlen = k};
    return vk_recvmsg(fd, &m, 0);
}
int vk_open(const char *path, int flags, ...) {
    if(strstr(path, "random")) {
        if(fault("open")) { errno = EMFILE; return -1; }
        struct vfile *f = newfile(F_RANDOM); return newfd(f);
    }
    errno = ENOENT; return -1;
}
int vk_open64(const char *path, int flags, ...) { return vk_open(path, flags); }
int vk___open_2(const char *path, int flags) { return vk_open(path, flags); }
int vk___open64_2(const char *path, int flags) { return vk_open(path, flags); }
FILE *vk_fopen(const char *path, const char *mode) {
    const char *s = vk_file ? vk_file(path) : NULL;
    if(!s) { errno = ENOENT; return NULL; }
    if(fault("fopen")) { errno = EMFILE; return NULL; }
    return fmemopen((void*)s, strlen(s), "r");
}
FILE *vk_fopen64(const char *path, const char *mode) { return vk_fopen(path, mode); }
const char *vk_hostname = "box";
int vk_gethostname(char *p, size_t n) {
    if(strlen(vk_hostname) + 1 > n) { errno = ENAMETOOLONG; return -1; }
    strcpy(p, vk_hostname); return 0;
}
long vk_random(void) { static long x; return x = 12345; }
int vk_rand(void) { return 12345; }
int vk_unlink(const char *p) { return 0; }
int vk_getifaddrs(struct ifaddrs **p) {
    if(!vk_ifaddrs) { errno = ENOSYS; return -1; }
    if(fault("getifaddrs")) { errno = EMFILE; return -1; }
    *p = vk_ifaddrs();
    nout++;
    return 0;
}
void vk_freeifaddrs(struct ifaddrs *p) { nout--; }

/* ------------------------------------------------------------------ */

/* Variables of the library as they were before the first execution. */
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
__attribute__((no_sanitize("address"))) static void cpy(char *d, const char *s, size_t n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
void vk_reset_statics(void) {
    static char *img;
    size_t a = __start_libdata ? __stop_libdata - __start_libdata : 0;
    size_t b = __start_libbss ? __stop_libbss - __start_libbss : 0;
    if(!img) {
        img = malloc(a + b + 1);
        cpy(img, __start_libdata, a); cpy(img + a, __start_libbss, b);
        return;
    }
    cpy(__start_libdata, img, a); cpy(__start_libbss, img + a, b);
}
void mc_env_reset(void) {
    vk_reset_statics();
    for(int i = 0; i < MT; ++i) if(mt[i].p && mt[i].p != (void*)1) free(mt[i].p);
    memset(fdt, 0, sizeof fdt);
    memset(events, 0, sizeof events);
    apos = 0; fileseq = 0; nextport = 50000; evseq = 0;
    us = VK_T0;
    memset(mt, 0, sizeof mt);
    for(int i = 0; i < nstk; ++i) stk[i].used = 0;
    nout = 0; vk_nalloc = 0;
    memset(&vk, 0, sizeof vk);
    vk.coarse = 1;
    vk_on_idle = NULL; vk_polls = vk_blocking_polls = 0;
    vk_remote_connect = NULL; vk_remote_dgram = NULL; vk_file = NULL;
    vk_hostname = "box"; vk_ifaddrs = NULL; vk_random_hook = NULL; vk_random_seed = 0;
    vk_fault_count = 0; vk_last_fault = NULL; faults_on = 0;
    vk_tsc = NULL; vk_wall_us = 1700000000000000LL;
    vk_sigpipes = 0; vk_fdleak_ok = vk_memleak_ok = 0; vk_rw_points = 0;
    polls_at_same_time = 0; last_poll_us = 0;
    vk_yield = NULL; vk_alloc_hook = NULL; vk_block = NULL;
}
void mc_env_check(void) {
    if(!vk_memleak_ok && nout != 0) {
        size_t sz = 0;
        for(int i = 0; i < MT; ++i)
            if(mt[i].p && mt[i].p != (void*)1) { sz = mt[i].n; break; }
        mc_fail("leak-memory", "%ld heap block(s) still allocated after the context was shut down (first: %zu bytes)", nout, sz);
    }
    if(!vk_fdleak_ok)
        for(int i = 0; i < VK_NFD; ++i)
            if(fdt[i] && fdt[i]->type != F_RANDOM)
                mc_fail("leak-fd", "descriptor %d still open after everything was closed", i);
    if(vk.no_leak_check) return;
}

/* The sanitizer's own version warns about jumps between stacks, on whatever
   stack is the current one. */
static void (*real_siglongjmp)(sigjmp_buf, int);
static void __attribute__((constructor)) find_siglongjmp(void) {
    real_siglongjmp = (void(*)(sigjmp_buf, int))dlsym(dlopen("libc.so.6", RTLD_NOW | RTLD_NOLOAD), "siglongjmp");
}
void __attribute__((noreturn)) vk_siglongjmp(sigjmp_buf b, int v) { real_siglongjmp(b, v); abort(); }

/* Without threads, the library's state is released when the process ends,
   with each execution here. */
static void (*atexits[8])(void); static int natexits;
int vk_atexit(void (*fn)(void)) { if(natexits < 8) atexits[natexits++] = fn; return 0; }
void vk_exit(void) { while(natexits) atexits[--natexits](); }
