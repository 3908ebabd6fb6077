/* Mock sockets: the protocol under test is attached to them, so that the exact
   bytes it writes and reads are seen, and errors and delays can be placed
   anywhere. Everything is in static memory, reset by mb_open/mm_open. */
#ifndef MOCK_H
#define MOCK_H
#include "libdillimpl.h"
#include "mc.h"

#define MB_BUF (1 << 18)
struct mb {                        /* bytestream */
    struct dill_hvfs hv;
    struct dill_bsock_vfs bv;
    uint8_t in[MB_BUF]; size_t nin, pos;       /* script and position */
    struct {size_t upto; int64_t at;} arr[16]; int narr; /* arrival times (absolute ms); others are there at once */
    int inend;                     /* after the script: 0 hang, else errno */
    int64_t inend_at;
    int inerr;
    uint8_t out[MB_BUF]; size_t nout;
    size_t outlimit;               /* bytes accepted, then ... */
    int outend;                    /* ... 0: hang, else errno */
    int outerr;
    int nsend, nrecv;              /* calls */
    int closed;                    /* times the handle was closed */
    int h;
    int64_t last_deadline;
    void (*on_out)(struct mb *m);  /* called after each successful send */
    int done;
    int slow; int64_t rate, rate0; size_t rin, rout; int forgive; /* forgive: goes on after a timeout or cancellation; slow: 1: one byte of input every rate ms, 2: of output */
};
/* Creates the handle of a mock bytestream. */
int mb_open(struct mb *m);
static inline void mb_feed(struct mb *m, const void *p, size_t n) { if(m->nin + n > MB_BUF) mc_broken("mb_feed"); memcpy(m->in + m->nin, p, n); m->nin += n; }
static inline void mb_str(struct mb *m, const char *s) { mb_feed(m, s, strlen(s)); }

#define MM_MSGS 16
#define MM_BUF 4096
struct mm {                        /* messages */
    struct dill_hvfs hv;
    struct dill_msock_vfs mv;
    struct {uint8_t b[MM_BUF]; size_t n; int64_t at;} in[MM_MSGS]; int nin, pos;
    int inend; int64_t inend_at; int inerr;
    struct {uint8_t b[MM_BUF]; size_t n;} out[MM_MSGS]; int nout;
    int outlimit, outend, outerr;
    int nsend, nrecv, closed, h;
    int64_t last_deadline;
};
int mm_open(struct mm *m);
static inline void mm_feed(struct mm *m, const void *p, size_t n, int64_t at) { if(m->nin >= MM_MSGS || n > MM_BUF) mc_broken("mm_feed"); memcpy(m->in[m->nin].b, p, n); m->in[m->nin].n = n; m->in[m->nin++].at = at; }
#endif
