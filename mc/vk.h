/* Virtual kernel: the environment of the library under test. Every system
   call, the heap and the clocks of the library's objects are rerouted here.
   What a real kernel may answer freely is a choice of the explorer. */
#ifndef VK_H
#define VK_H
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include <sys/socket.h>

#define VK_NFD 64
#define VK_T0 100000000LL      /* us: initial value of the virtual clock */

/* ---- configuration, reset before each execution ---- */
struct vk_cfg {
    int short_rw;      /* reads and writes may be short (choice) */
    int eagain;        /* reads/writes may answer EAGAIN first (choice) */
    int ev_order;      /* order of reported events (choice) */
    int ev_limit;      /* only the first event may be reported (choice) */
    int eintr;         /* epoll_wait/poll may return EINTR (choice) */
    int late;          /* timed wakeups may be late (choice) */
    int coarse;        /* granularity of the coarse clock, ms */
    int rw_err;        /* reads/writes may fail with ECONNRESET (choice) */
    int faults;        /* 1: resource-acquiring calls may fail (choice), 2: only memory */
    int connect_async; /* how connect completes (choice) */
    int cap;           /* capacity of one direction of a stream, bytes */
    int maxfds;        /* RLIMIT_NOFILE */
    int real_stacks;   /* coroutine stacks come from the real allocator */
    int no_leak_check;
    int us_per_rw;     /* time spent in each read or write, us */
    int rw_choice_max; /* at most this many read/write choice points, 0: any */
};
extern struct vk_cfg vk;

/* ---- time ---- */
int64_t vk_us(void);                 /* true virtual time */
int64_t vk_ms(void);                 /* coarse clock as the library sees it */
void vk_advance_us(int64_t us);
extern unsigned long long (*vk_tsc)(void); /* the CPU's counter; 3 GHz if not set */
extern int64_t vk_wall_us;           /* wall clock minus monotonic clock */
void vk_at(int64_t us, void (*fn)(void*), void *arg); /* external event */
extern int (*vk_on_idle)(void);      /* would block for ever: 1 if progress */
extern int vk_polls;                 /* number of kernel polls so far */
extern int vk_blocking_polls;

/* ---- files ---- */
struct vstream;
int vk_probe(void);                         /* fd with settable readiness */
void vk_probe_set(int fd, int pollbits);    /* POLLIN|POLLOUT|POLLERR|POLLHUP */
int vk_probe_get(int fd);
int vk_open_fds(void);                      /* number of open descriptors */
int vk_all_fds(void);                       /* the library's own included */
int vk_is_open(int fd);
void vk_close_raw(int fd);
int vk_file_id(int fd);                     /* identity of the open file */
int vk_unpollable(void);                    /* a regular file */
int vk_nonblock(int fd);

/* Raw streams. vk_stream_pair gives the library side fd and the remote end. */
int vk_stream_fd(int family, struct vstream **remote);
size_t vs_read(struct vstream *s, void *buf, size_t len); /* what the library wrote */
size_t vs_avail(struct vstream *s);
size_t vs_write(struct vstream *s, const void *buf, size_t len);
void vs_shut(struct vstream *s);            /* FIN towards the library */
void vs_endless(struct vstream *s, int on); /* the remote end never stops sending */
void vs_rst(struct vstream *s);             /* RST towards the library */
int vs_eof(struct vstream *s);              /* library half-closed or closed */
int vs_closed(struct vstream *s);           /* library closed the descriptor */
int vs_got_rst(struct vstream *s);          /* ... abortively */
int vs_passed_fds(struct vstream *s);
void vs_pass(struct vstream *s, const int *fds, int n); /* one byte with descriptors towards the library */
struct vstream *vk_stream_of(int fd);
struct vstream *vs_peer(struct vstream *s);

/* Remote hosts for connect(): called for each connect to an address nobody in
   the virtual kernel listens on. Returns 0 to accept (remote end is filled
   in), -errno to refuse, delay_us until the outcome is known, or
   VK_BLACKHOLE. */
#define VK_BLACKHOLE 1
extern int (*vk_remote_connect)(const struct sockaddr *sa, int64_t *delay_us,
    struct vstream *remote);
/* A remote client connecting to a listener of the library. 0 if refused. */
struct vstream *vk_remote_client(int port, const char *path);
struct vstream *vk_remote_client_from(const struct sockaddr *to, const char *path,
    const struct sockaddr_storage *from);
/* Datagrams: what leaves to addresses outside goes through this hook. */
extern void (*vk_remote_dgram)(const struct sockaddr *from,
    const struct sockaddr *to, const void *buf, size_t len);
int vk_inject_dgram(const struct sockaddr *from, const struct sockaddr *to,
    const void *buf, size_t len);

int vk_dgram_error(const struct sockaddr *to, int err); /* ICMP */
extern const char *vk_hostname;

/* ---- memory ---- */
long vk_live(void);                  /* their size */
long vk_outstanding(void);           /* heap blocks not yet freed */
extern long vk_nalloc;
extern int vk_fault_count;           /* faults injected so far */
extern const char *vk_last_fault;
extern int vk_sigpipes;
extern int vk_fdleak_ok, vk_memleak_ok;
extern int vk_rw_points;
/* Only faults in this window are injected. */
void vk_faults_on(int on);
/* Several threads (C21): called at system calls, at allocations, before time
   is advanced to next (returns the time to advance to, -1 if others ran). */
extern void (*vk_yield)(const char *what);
extern void (*vk_alloc_hook)(void *p, size_t n);
extern int64_t (*vk_block)(int64_t next);
void vk_reset_statics(void);         /* the library's variables */
/* File contents for fopen(). */
extern const char *(*vk_file)(const char *path);
extern void *(*vk_ifaddrs)(void);
extern uint8_t vk_random_seed;
extern int (*vk_random_hook)(uint8_t *buf, size_t len);
#endif
