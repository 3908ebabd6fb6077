/* Stateless, exhaustive, deviation-bounded explorer.

   An execution is a deterministic function of a sequence of choices. The
   explorer enumerates every choice sequence (below a bound on the number of
   deviations) by depth-first search with replay. Each execution runs in a
   fresh thread (so libdill's thread-local context is created and destroyed
   by it) inside one of several worker processes. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>

/* Choice among n alternatives. Alternative 0 is the default environment
   answer; any other alternative costs one deviation. */
int mc_choose(int n, const char *what);
/* Choice among n alternatives, all of them free: always fully enumerated. */
int mc_pick(int n, const char *what);
/* Deviations still allowed on this path. */
int mc_budget(void);

/* Report a violation. Does not return. */
void mc_fail(const char *key, const char *fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
#define MC_CHECK(cond, key, ...) \
    do { if(!(cond)) mc_fail(key, __VA_ARGS__); } while(0)
/* An error of the harness itself (not a violation). */
void mc_broken(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));

/* One transition of the reference model / one API operation. */
void mc_step(void);
/* Record a state of the reference model. */
void mc_state(uint64_t h);
/* Record the observable outcome of the execution (accumulated). */
void mc_obs(uint64_t v);
/* Mark the execution as trivial (does not exercise the property). */
void mc_trivial(void);
/* Trace line (kept only while replaying). */
void mc_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern int mc_verbose;
extern int mc_thorough;

static inline uint64_t mc_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
static inline uint64_t mc_hash(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = p;
    while(n--) h = (h ^ *b++) * 0x100000001b3ULL;
    return mc_mix(h, 0x55);
}

struct mc_scn {
    const char *name;
    const char *what;         /* one line: alphabet and bounds */
    void (*fn)(void);         /* runs in a fresh thread */
    int bound_q, bound_t;     /* deviation bound in each tier; -1: skip */
    int arg;                  /* scenario parameter, see mc_arg */
    void (*post)(void);       /* runs after the thread has gone */
    int nofork;
};
extern int mc_arg;
extern const char *mc_scn_name;
/* Supplied by each check. */
extern const char *mc_property;
extern const char *mc_level;
extern const char *mc_assumptions[];   /* NULL terminated */
extern struct mc_scn mc_scns[];        /* terminated by name == NULL */
/* Called before each execution and after it (in the worker's main thread). */
void mc_env_reset(void);
void mc_env_check(void);
#endif
