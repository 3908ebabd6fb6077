#include "mock.h"
#include <stdlib.h>
#define CONT(p, t, f) ((t*)((char*)(p) - offsetof(t, f)))

/* A list handed down must be well formed: it is what every socket may rely on. */
static void listok(struct dill_iolist *first, struct dill_iolist *last) {
    int n = 0;
    MC_CHECK(first && last, "list-passed", "a NULL list was passed to the underlying socket");
    for(struct dill_iolist *i = first; ; i = i->iol_next) {
        MC_CHECK(++n < 10000, "list-passed", "a cyclic list was passed to the underlying socket");
        if(i == last) { MC_CHECK(!i->iol_next, "list-passed", "a list whose last item is not the end was passed to the underlying socket"); break; }
        MC_CHECK(i->iol_next, "list-passed", "a list that does not contain its last item was passed to the underlying socket");
    }
}
static int waituntil(int64_t at, int64_t deadline) {
    /* at: INT64_MAX for never. 0 when the time has come, else errno. */
    while(1) {
        int64_t nw = now();
        if(at <= nw) return 0;
        if(deadline >= 0 && deadline <= nw) return ETIMEDOUT;
        int64_t t = deadline >= 0 && deadline < at ? deadline : at;
        if(msleep(t == INT64_MAX ? -1 : t) < 0) return errno;
    }
}
static void *mb_query(struct dill_hvfs *v, const void *type) {
    struct mb *m = CONT(v, struct mb, hv);
    if(type == dill_bsock_type) return &m->bv;
    errno = ENOTSUP; return NULL;
}
static void mb_close(struct dill_hvfs *v) {
    struct mb *m = CONT(v, struct mb, hv);
    m->closed++;
    MC_CHECK(m->closed == 1, "closed-twice", "the underlying socket has been closed %d times", m->closed);
}
static int mb_sendl(struct dill_bsock_vfs *v, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
    struct mb *m = CONT(v, struct mb, bv);
    MC_CHECK(!m->closed, "use-after-close", "bsendl on the closed underlying socket");
    m->nsend++; m->last_deadline = deadline;
    listok(first, last);
    if(m->outerr) { errno = m->outerr; return -1; }
    for(struct dill_iolist *i = first; i; i = i->iol_next) {
        MC_CHECK(i->iol_base || !i->iol_len, "null-sent", "a NULL buffer of %zu bytes is sent", i->iol_len);
        for(size_t k = 0; k < i->iol_len; ++k) {
            if(m->nout == m->outlimit) {
                int e = m->outend;
                if(!e) e = waituntil(INT64_MAX, deadline);
                if(!m->forgive || (e != ETIMEDOUT && e != ECANCELED)) m->outerr = ECONNRESET;
                errno = e; return -1;
            }
            if(m->slow & 2) { int e = waituntil(m->rate0 + (int64_t)(m->nout - m->rout + 1) * m->rate, deadline); if(e) { m->outerr = ECONNRESET; errno = e; return -1; } }
            if(m->nout >= MB_BUF) mc_broken("mb: output buffer full");
            m->out[m->nout++] = ((uint8_t*)i->iol_base)[k];
        }
    }
    if(m->on_out) m->on_out(m);
    return 0;
}
static int mb_recvl(struct dill_bsock_vfs *v, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
    struct mb *m = CONT(v, struct mb, bv);
    MC_CHECK(!m->closed, "use-after-close", "brecvl on the closed underlying socket");
    m->nrecv++; m->last_deadline = deadline;
    listok(first, last);
    if(m->inerr) { errno = m->inerr; return -1; }
    for(struct dill_iolist *i = first; i; i = i->iol_next) {
        for(size_t k = 0; k < i->iol_len; ) {
            size_t have = m->nin; int64_t at = INT64_MAX;
            for(int a = 0; a < m->narr; ++a) if(m->arr[a].at > now() && m->arr[a].upto <= have) { have = m->arr[a].upto; at = m->arr[a].at; }
            if(m->slow & 1 && m->pos < have) {
                size_t can = m->rin + (now() - m->rate0) / m->rate;
                if(can < have) { have = can; at = m->rate0 + (int64_t)(m->pos - m->rin + 1) * m->rate; }
            }
            if(m->pos < have) {
                size_t n = have - m->pos; if(n > i->iol_len - k) n = i->iol_len - k;
                if(i->iol_base) memcpy((uint8_t*)i->iol_base + k, m->in + m->pos, n);
                k += n; m->pos += n; continue;
            }
            int e;
            if(m->pos < m->nin) e = waituntil(at, deadline);
            else if(m->inend && m->inend_at <= now()) e = m->inend;
            else e = waituntil(m->inend ? m->inend_at : INT64_MAX, deadline);
            if(!e) continue;
            if(!m->forgive || (e != ETIMEDOUT && e != ECANCELED)) m->inerr = e == EPIPE ? EPIPE : ECONNRESET;
            errno = e; return -1;
        }
    }
    return 0;
}
/* arr[a] = {upto, at}: bytes from offset upto on arrive no sooner than at. */
int mb_open(struct mb *m) {
    memset(m, 0, offsetof(struct mb, in)); m->nin = m->pos = 0;
    memset(m->arr, 0, sizeof m->arr); m->narr = 0; m->inend = 0; m->inend_at = 0; m->inerr = 0;
    m->nout = 0; m->outlimit = (size_t)-1; m->outend = m->outerr = 0; m->nsend = m->nrecv = m->closed = 0; m->last_deadline = 0; m->on_out = NULL; m->done = 0; m->slow = m->forgive = 0; m->rate = m->rate0 = 0; m->rin = m->rout = 0;
    m->hv.query = mb_query; m->hv.close = mb_close;
    m->bv.bsendl = mb_sendl; m->bv.brecvl = mb_recvl;
    m->h = dill_hmake(&m->hv);
    if(m->h < 0) mc_broken("mb_open: %s", strerror(errno));
    return m->h;
}

static void *mm_query(struct dill_hvfs *v, const void *type) {
    struct mm *m = CONT(v, struct mm, hv);
    if(type == dill_msock_type) return &m->mv;
    errno = ENOTSUP; return NULL;
}
static void mm_close(struct dill_hvfs *v) {
    struct mm *m = CONT(v, struct mm, hv);
    m->closed++;
    MC_CHECK(m->closed == 1, "closed-twice", "the underlying socket has been closed %d times", m->closed);
}
static int mm_sendl(struct dill_msock_vfs *v, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
    struct mm *m = CONT(v, struct mm, mv);
    MC_CHECK(!m->closed, "use-after-close", "msendl on the closed underlying socket");
    m->nsend++; m->last_deadline = deadline;
    listok(first, last);
    if(m->outerr) { errno = m->outerr; return -1; }
    if(m->nout == m->outlimit) {
        int e = m->outend; if(!e) e = waituntil(INT64_MAX, deadline);
        m->outerr = ECONNRESET; errno = e; return -1;
    }
    if(m->nout >= MM_MSGS) mc_broken("mm: too many messages");
    size_t n = 0;
    for(struct dill_iolist *i = first; i; i = i->iol_next) for(size_t k = 0; k < i->iol_len; ++k) {
        MC_CHECK(i->iol_base, "null-sent", "a NULL buffer is sent");
        if(n >= MM_BUF) mc_broken("mm: message too long");
        m->out[m->nout].b[n++] = ((uint8_t*)i->iol_base)[k];
    }
    m->out[m->nout++].n = n;
    return 0;
}
static ssize_t mm_recvl(struct dill_msock_vfs *v, struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
    struct mm *m = CONT(v, struct mm, mv);
    MC_CHECK(!m->closed, "use-after-close", "mrecvl on the closed underlying socket");
    m->nrecv++; m->last_deadline = deadline;
    if(first || last) listok(first, last);
    if(m->inerr) { errno = m->inerr; return -1; }
    int e;
    if(m->pos < m->nin) e = waituntil(m->in[m->pos].at, deadline);
    else { e = waituntil(m->inend ? m->inend_at : INT64_MAX, deadline); if(!e) e = m->inend; }
    if(e) { m->inerr = e == EPIPE ? EPIPE : ECONNRESET; errno = e; return -1; }
    size_t n = m->in[m->pos].n, k = 0;
    uint8_t *b = m->in[m->pos++].b;
    if(!first) return n;
    for(struct dill_iolist *i = first; i && k < n; i = i->iol_next) {
        size_t c = i->iol_len < n - k ? i->iol_len : n - k;
        if(i->iol_base) memcpy(i->iol_base, b + k, c);
        k += c;
    }
    if(k < n) { m->inerr = ECONNRESET; errno = EMSGSIZE; return -1; }
    return n;
}
int mm_open(struct mm *m) {
    memset(m, 0, sizeof *m);
    m->outlimit = -1;
    m->hv.query = mm_query; m->hv.close = mm_close;
    m->mv.msendl = mm_sendl; m->mv.mrecvl = mm_recvl;
    m->h = dill_hmake(&m->hv);
    if(m->h < 0) mc_broken("mm_open: %s", strerror(errno));
    return m->h;
}
