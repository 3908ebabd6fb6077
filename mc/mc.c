#define _GNU_SOURCE
#include "mc.h"
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <pthread.h>
void vk_exit(void);
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

#define MAXCH 600
#define MAXWORKERS 16
#define POOLMAX (1 << 19)
#define HASHBITS 23
#define STACKSZ (512 * 1024)

struct item { uint16_t n; uint16_t cost; uint8_t ch[MAXCH]; };

enum { RS_RUN = 0, RS_OK = 1, RS_FAIL = 2, RS_BROKEN = 3 };
struct trace {
    int prefixn;               /* choices that are imposed */
    int n;                     /* choice points met so far */
    uint8_t ch[MAXCH];
    uint8_t ar[MAXCH];
    uint8_t free_[MAXCH];
    uint16_t costbefore[MAXCH];
    int cost;
    int result;
    int trivial;
    uint64_t obs;
    uint64_t steps;
    char key[256];
    char msg[2048];
};
struct slot {
    volatile pid_t pid;
    volatile uint64_t execs;
    volatile int busy;         /* holds an item of the pool */
    struct trace t;
};
struct shm {
    pthread_mutex_t lock;
    volatile int npool;
    volatile int active;       /* items being executed */
    volatile int stop;
    volatile uint64_t execs, steps, trivial, points, pruned, known;
    volatile uint64_t nstates, nobs;
    volatile int hashfull, poolfull, maxpoints, maxcost, maxarity;
    volatile uint64_t det_checked;
    struct slot slots[MAXWORKERS];
    uint64_t states[1 << HASHBITS] __attribute__((aligned(4096)));
    uint64_t outcomes[1 << HASHBITS] __attribute__((aligned(4096)));
    int nsamples;
    char samples[8][1024];
    char log[1 << 20];
    volatile int loglen;
    struct item pool[POOLMAX];
};
static struct shm *S;
static struct trace *T;        /* current trace */
static int bound;
static struct mc_scn *cur;
int mc_verbose = 0;
int mc_thorough = 0;
int mc_arg = 0;
const char *mc_scn_name = "";
static int hashing = 1;
static pid_t mainpid;

static double now_s(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

/* ------------------------------------------------------------------ */
/* API for harnesses.                                                   */

static int choice(int n, const char *what, int free_) {
    if(n <= 0 || n > 255) mc_broken("choice with arity %d (%s)", n, what);
    if(n == 1) return 0;
    int i = T->n;
    if(i >= MAXCH) mc_broken("too many choice points (%s)", what);
    int c = 0;
    if(i < T->prefixn) {
        c = T->ch[i];
        if(c >= n)
            mc_broken("replay diverged at point %d (%s): choice %d of %d",
                i, what, c, n);
    }
    T->ch[i] = c; T->ar[i] = n; T->free_[i] = free_;
    T->costbefore[i] = T->cost;
    T->n = i + 1;
    if(c && !free_) T->cost++;
    T->obs = mc_mix(T->obs, (uint64_t)n * 1000 + c);
    if(mc_verbose) mc_log("    [choice %d: %s = %d of %d]", i, what, c, n);
    return c;
}
int mc_choose(int n, const char *what) {
    /* Without budget there is nothing to choose from; keep the point out of
       the trace unless it is part of an imposed prefix. */
    return choice(n, what, 0);
}
int mc_pick(int n, const char *what) { return choice(n, what, 1); }
int mc_budget(void) { return bound - T->cost; }

void mc_log(const char *fmt, ...) {
    if(!mc_verbose) return;
    va_list ap; va_start(ap, fmt);
    char b[512];
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    if(n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if(S->loglen + n < (int)sizeof S->log) {
        memcpy(S->log + S->loglen, b, n); S->loglen += n; }
}

static void finish(int result) __attribute__((noreturn));
static void finish(int result) {
    T->result = result;
    _exit(result == RS_FAIL ? 77 : 78);
}
void mc_fail(const char *key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    snprintf(T->key, sizeof T->key, "%s", key);
    vsnprintf(T->msg, sizeof T->msg, fmt, ap);
    va_end(ap);
    mc_log("FAIL %s: %s", T->key, T->msg);
    finish(RS_FAIL);
}
void mc_broken(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    snprintf(T->key, sizeof T->key, "harness-error");
    vsnprintf(T->msg, sizeof T->msg, fmt, ap);
    va_end(ap);
    mc_log("HARNESS ERROR: %s", T->msg);
    finish(RS_BROKEN);
}
static int hs_add(uint64_t *tab, volatile uint64_t *count, uint64_t h) {
    if(!h) h = 1;
    uint64_t i = (h * 0x9e3779b97f4a7c15ULL) >> (64 - HASHBITS);
    for(int k = 0; k < 256; ++k) {
        uint64_t v = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
        if(v == h) return 0;
        if(!v) {
            uint64_t z = 0;
            if(__atomic_compare_exchange_n(&tab[i], &z, h, 0,
                  __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(count, 1, __ATOMIC_RELAXED); return 1; }
            if(z == h) return 0;
        }
        i = (i + 1) & ((1 << HASHBITS) - 1);
    }
    S->hashfull = 1;
    return 0;
}
void mc_step(void) { T->steps++; }
void mc_state(uint64_t h) {
    T->obs = mc_mix(T->obs, h);
    if(hashing) hs_add(S->states, &S->nstates,
        mc_mix(h, mc_hash(cur->name, strlen(cur->name), 7)));
}
void mc_obs(uint64_t v) { T->obs = mc_mix(T->obs, v); }
void mc_trivial(void) { T->trivial = 1; }

/* ------------------------------------------------------------------ */
/* One execution.                                                       */

static uint8_t *thrstack;
static void *thr(void *arg) { cur->fn(); return NULL; }

static void execute(void) {
    if(!thrstack) {
        thrstack = mmap(NULL, STACKSZ, PROT_READ|PROT_WRITE,
            MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
        if(thrstack == MAP_FAILED) abort();
    }
    T->n = 0; T->cost = 0; T->result = RS_RUN; T->trivial = 0;
    T->obs = 0x1234; T->steps = 0; T->key[0] = T->msg[0] = 0;
    mc_env_reset();
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, thrstack, STACKSZ);
    pthread_t th;
    errno = 0;
    if(pthread_create(&th, &at, thr, NULL)) mc_broken("pthread_create");
    pthread_attr_destroy(&at);
    pthread_join(th, NULL);
    vk_exit();
    mc_env_check();
    if(cur->post) cur->post();
    if(T->n < T->prefixn)
        mc_broken("replay diverged: only %d of %d choices used",
            T->n, T->prefixn);
    T->result = RS_OK;
}

static void push(const struct item *it) {
    if(S->npool >= POOLMAX) { S->poolfull = 1; return; }
    struct item *d = &S->pool[S->npool++];
    d->n = it->n; d->cost = it->cost;
    memcpy(d->ch, it->ch, it->n);
}
/* Pushes the alternatives of a finished execution. Called with lock held. */
static void expand(struct trace *t) {
    struct item it;
    for(int i = t->prefixn; i < t->n; ++i) {
        for(int a = t->ar[i] - 1; a >= 1; --a) {
            int c = t->costbefore[i] + (t->free_[i] ? 0 : 1);
            if(c > bound) { S->pruned++; continue; }
            it.n = i + 1; it.cost = c;
            memcpy(it.ch, t->ch, i);
            it.ch[i] = a;
            push(&it);
        }
    }
}
static void lock(void) {
    int rc = pthread_mutex_lock(&S->lock);
    if(rc == EOWNERDEAD) pthread_mutex_consistent(&S->lock);
}
static void unlock(void) { pthread_mutex_unlock(&S->lock); }
static void account(struct trace *t) {
    S->execs++; S->steps += t->steps; S->points += t->n;
    if(t->trivial) S->trivial++;
    if(t->n > S->maxpoints) S->maxpoints = t->n;
    if(t->cost > S->maxcost) S->maxcost = t->cost;
    expand(t);
}
static int tracestr(struct trace *t, char *b, int sz) {
    int k = 0; b[0] = 0;
    for(int i = 0; i < t->n && k < sz - 8; ++i)
        k += snprintf(b + k, sz - k, "%s%d", i ? " " : "", t->ch[i]);
    return k;
}

static void worker(int w) {
    struct slot *sl = &S->slots[w];
    T = &sl->t;
    uint64_t mine = 0;
    while(1) {
        lock();
        if(S->stop) { unlock(); _exit(0); }
        if(S->npool == 0) {
            int done = S->active == 0;
            unlock();
            if(done) _exit(0);
            usleep(200);
            continue;
        }
        struct item *it = &S->pool[--S->npool];
        T->prefixn = it->n;
        memcpy(T->ch, it->ch, it->n);
        S->active++; sl->busy = 1;
        unlock();
        execute();
        uint64_t obs = T->obs;
        ++mine;
        /* Replay some executions to prove that they are deterministic. */
        if(mine <= 20 || mine % 4096 == 0) {
            int pn = T->prefixn;
            hashing = 0;
            T->prefixn = T->n;
            execute();
            hashing = 1;
            T->prefixn = pn;
            if(T->obs != obs) mc_broken("execution is not deterministic");
            __atomic_fetch_add(&S->det_checked, 1, __ATOMIC_RELAXED);
        }
        hs_add(S->outcomes, &S->nobs, mc_mix(obs, 77));
        lock();
        account(T);
        if(S->nsamples < 8 && (S->execs == 1 || S->execs == 17 ||
              S->execs == 1000 || S->execs == 50000)) {
            char b[700]; tracestr(T, b, sizeof b);
            snprintf(S->samples[S->nsamples++], 1024,
                "%s: choices [%s], %llu model transitions", cur->name, b,
                (unsigned long long)T->steps);
        }
        S->active--; sl->busy = 0; sl->execs++;
        unlock();
    }
}

/* ------------------------------------------------------------------ */
/* Replay of one choice sequence in a child of its own.                 */

static char errpath[256];
static int replay(const uint8_t *ch, int n, int secs, struct trace *out,
      int verbose) {
    struct slot *sl = &S->slots[MAXWORKERS - 1];
    memset(&sl->t, 0, sizeof sl->t);
    S->loglen = 0;
    fflush(NULL);
    pid_t pid = fork();
    if(pid == 0) {
        int fd = open(errpath, O_CREAT|O_TRUNC|O_WRONLY, 0644);
        if(fd >= 0) { dup2(fd, 2); close(fd); }
        T = &sl->t;
        T->prefixn = n;
        memcpy(T->ch, ch, n);
        mc_verbose = verbose;
        hashing = 0;
        execute();
        _exit(0);
    }
    double t0 = now_s();
    int st = 0, hung = 0;
    while(waitpid(pid, &st, WNOHANG) == 0) {
        if(now_s() - t0 > secs) {
            kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = 1; break; }
        usleep(500);
    }
    *out = sl->t;
    if(hung) {
        strcpy(out->key, "hang");
        snprintf(out->msg, sizeof out->msg,
            "execution did not finish within %d s", secs);
        return RS_FAIL;
    }
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return RS_OK;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 78) return RS_BROKEN;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 77) return RS_FAIL;
    /* Crash. Take the first informative line of stderr. */
    char line[512] = "", b[512];
    FILE *f = fopen(errpath, "r");
    if(f) {
        while(fgets(b, sizeof b, f)) {
            b[strcspn(b, "\n")] = 0;
            if(strstr(b, "SUMMARY:") || strstr(b, "Assert failed") ||
                  (!line[0] && strstr(b, "ERROR:")))
                snprintf(line, sizeof line, "%s", b);
            if(strstr(b, "SUMMARY:")) break;
        }
        fclose(f);
    }
    snprintf(out->key, sizeof out->key, "crash");
    snprintf(out->msg, sizeof out->msg, "process died (%s %d) %s",
        WIFSIGNALED(st) ? "signal" : "status",
        WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), line);
    return RS_FAIL;
}

/* ------------------------------------------------------------------ */
/* Known findings.                                                      */

struct known { char scn[64]; char key[256]; char text[512]; int hits; };
static struct known knowns[64];
static int nknowns;
static void load_known(const char *path) {
    FILE *f = fopen(path, "r");
    if(!f) return;
    char b[1024];
    while(fgets(b, sizeof b, f)) {
        b[strcspn(b, "\n")] = 0;
        char p[32], s[64], k[256]; int off = 0;
        if(sscanf(b, "known: property=%31s scenario=%63s key=%255s :: %n",
              p, s, k, &off) == 3 && off > 0 && !strcmp(p, mc_property) &&
              nknowns < 64) {
            struct known *q = &knowns[nknowns++];
            strcpy(q->scn, s); strcpy(q->key, k);
            snprintf(q->text, sizeof q->text, "%s", b + off);
        }
    }
    fclose(f);
}
static struct known *match_known(const char *scn, const struct trace *t) {
    for(int i = 0; i < nknowns; ++i)
        if(!strcmp(knowns[i].scn, scn) && !strcmp(knowns[i].key, t->key))
            return &knowns[i];
    return NULL;
}

/* ------------------------------------------------------------------ */
/* Driver.                                                              */

static int nworkers = 8;
static char outdir[256] = "build";
static char stats[65536];
static int nstats;
static uint64_t tot_execs, tot_steps, tot_states, tot_obs, tot_trivial,
    tot_points, tot_det, tot_known, tot_pruned;
static char allsamples[24][1100];
static int nall;
static int anycapped;

static void spawn(int w) {
    fflush(NULL);
    S->slots[w].busy = 0;
    pid_t pid = fork();
    if(pid == 0) {
        char p[300];
        snprintf(p, sizeof p, "%s/%s.w%d.err", outdir, mc_property, w);
        int fd = open(p, O_CREAT|O_TRUNC|O_WRONLY, 0644);
        if(fd >= 0) { dup2(fd, 2); close(fd); }
        worker(w);
    }
    S->slots[w].pid = pid;
}
static void killall_workers(void) {
    for(int w = 0; w < nworkers; ++w)
        if(S->slots[w].pid > 0) {
            kill(S->slots[w].pid, SIGKILL);
            waitpid(S->slots[w].pid, NULL, 0);
            S->slots[w].pid = 0;
        }
}
static void write_replay(char *path, size_t sz, struct trace *t) {
    static int seq = 0;
    char d[256];
    snprintf(d, sizeof d, "%s/replays", outdir);
    mkdir(d, 0755);
    snprintf(path, sz, "%s/%s-%s-%d.replay", d, mc_property, cur->name, seq++);
    FILE *f = fopen(path, "w");
    if(!f) return;
    fprintf(f, "property %s\nscenario %s\nthorough %d\nkey %s\nmessage %s\nchoices",
        mc_property, cur->name, mc_thorough, t->key, t->msg);
    for(int i = 0; i < t->n; ++i) fprintf(f, " %d", t->ch[i]);
    fprintf(f, "\n--- trace ---\n");
    fwrite(S->log, 1, S->loglen, f);
    FILE *e = fopen(errpath, "r");
    if(e) {
        fprintf(f, "--- stderr ---\n");
        char b[4096]; size_t k, tot = 0;
        while((k = fread(b, 1, sizeof b, e)) > 0 && tot < 20000) {
            fwrite(b, 1, k, f); tot += k; }
        fclose(e);
    }
    fclose(f);
}

/* Returns 0 held, 1 violation, 2 harness error. */
static int explore(double limit) {
    double t0 = now_s();
    memset((char*)S + offsetof(struct shm, npool), 0,
        offsetof(struct shm, slots) - offsetof(struct shm, npool));
    if(madvise(S->states, sizeof S->states, MADV_REMOVE))
        memset(S->states, 0, sizeof S->states);
    if(madvise(S->outcomes, sizeof S->outcomes, MADV_REMOVE))
        memset(S->outcomes, 0, sizeof S->outcomes);
    memset(S->slots, 0, sizeof S->slots);
    S->nsamples = 0;
    struct item root; root.n = 0; root.cost = 0;
    push(&root);
    for(int w = 0; w < nworkers; ++w) spawn(w);
    int res = 0, capped = 0, alive = nworkers, unconfirmed = 0;
    uint64_t last[MAXWORKERS]; double lastt[MAXWORKERS];
    for(int w = 0; w < nworkers; ++w) { last[w] = 0; lastt[w] = now_s(); }
    struct trace conf;
    while(alive > 0) {
        int st;
        pid_t pid = waitpid(-1, &st, WNOHANG);
        int w = -1, hung = 0;
        if(pid > 0) {
            for(w = 0; w < nworkers; ++w)
                if(S->slots[w].pid == pid) break;
            if(w == nworkers) continue;
            S->slots[w].pid = 0;
            if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !S->slots[w].busy) {
                --alive; continue; }
        }
        else {
            usleep(1000);
            if(limit > 0 && now_s() - t0 > limit && !S->stop) {
                capped = 1; S->stop = 1; }
            for(int i = 0; i < nworkers; ++i) {
                struct slot *sl = &S->slots[i];
                if(!sl->pid) continue;
                if(sl->execs != last[i] || !sl->busy) {
                    last[i] = sl->execs; lastt[i] = now_s(); }
                else if(now_s() - lastt[i] > 20) {
                    kill(sl->pid, SIGKILL);
                    waitpid(sl->pid, NULL, 0);
                    sl->pid = 0; w = i; hung = 1; lastt[i] = now_s();
                    break;
                }
            }
            if(w < 0) continue;
        }
        /* Worker w died or hung in the middle of an execution. */
        struct trace t = S->slots[w].t;
        int n = t.n > t.prefixn ? t.n : t.prefixn;
        int r = replay(t.ch, n, hung ? 60 : 60, &conf, 1);
        if(r == RS_BROKEN || (r == RS_OK && t.result == RS_BROKEN)) {
            fprintf(stderr, "%s/%s: harness error: %s / %s\n", mc_property,
                cur->name, t.msg, conf.msg);
            char path[512]; write_replay(path, sizeof path, &t);
            fprintf(stderr, "  trace: %s\n", path);
            res = 2; break;
        }
        if(r == RS_OK && hung) {
            /* Only slow. Let the exploration go on from here. */
            conf.prefixn = t.prefixn;
            lock(); account(&conf); S->active--; unlock();
            spawn(w);
            continue;
        }
        if(r == RS_OK) {
            /* The failure needs what earlier executions of that worker left
               behind in the process, or memory that nobody has initialized.
               Once is not enough for a verdict. */
            fprintf(stderr, "%s/%s: failure did not replay (%s: %s)\n",
                mc_property, cur->name, t.key, t.msg);
            t.n = n;
            char path[512]; write_replay(path, sizeof path, &t);
            fprintf(stderr, "  trace: %s\n", path);
            if(++unconfirmed < 2) {
                conf.prefixn = t.prefixn;
                lock(); account(&conf); S->active--; unlock();
                spawn(w);
                continue;
            }
            printf("scenario %s: %s: %s (twice, in processes that had run other executions before)\n",
                cur->name, t.key[0] ? t.key : "crash", t.msg);
            printf("VIOLATION property=%s replay=%s\n", mc_property, path);
            fflush(stdout);
            res = 1; break;
        }
        conf.prefixn = t.prefixn;
        struct known *k = match_known(cur->name, &conf);
        if(k) {
            k->hits++;
            lock(); S->known++; account(&conf); S->active--; unlock();
            spawn(w);
            continue;
        }
        char path[512];
        conf.n = conf.n > conf.prefixn ? conf.n : conf.prefixn;
        write_replay(path, sizeof path, &conf);
        printf("scenario %s: %s: %s\n", cur->name, conf.key, conf.msg);
        printf("VIOLATION property=%s replay=%s\n", mc_property, path);
        fflush(stdout);
        res = 1;
        break;
    }
    killall_workers();
    if(res == 0 && unconfirmed) res = 2;
    if(res == 0 && (S->poolfull || S->hashfull)) {
        fprintf(stderr, "%s/%s: %s\n", mc_property, cur->name,
            S->poolfull ? "work pool overflow" : "state table overflow (count is a lower bound)");
        if(S->poolfull) res = 2;
    }
    double dt = now_s() - t0;
    printf("  %-26s bound=%-2d execs=%-9llu states=%-8llu outcomes=%-8llu "
        "steps=%-9llu maxpoints=%-3d %s%.1fs\n", cur->name, bound,
        (unsigned long long)S->execs, (unsigned long long)S->nstates,
        (unsigned long long)S->nobs, (unsigned long long)S->steps,
        S->maxpoints, capped ? "CAPPED " : "", dt);
    fflush(stdout);
    nstats += snprintf(stats + nstats, sizeof stats - nstats,
        "%s\n      {\"scenario\": \"%s\", \"explores\": \"%s\", \"deviation_bound\": %d, \"executions\": %llu, "
        "\"distinct_model_states\": %llu, \"distinct_outcomes\": %llu, \"transitions\": %llu, "
        "\"choice_points\": %llu, \"max_choice_points\": %d, \"max_deviations_reached\": %d, \"beyond_bound\": %llu, "
        "\"known_finding_executions\": %llu, \"replayed_twice\": %llu, \"complete\": %s, \"wall_s\": %.2f}",
        nstats ? "," : "", cur->name, cur->what, bound,
        (unsigned long long)S->execs, (unsigned long long)S->nstates,
        (unsigned long long)S->nobs, (unsigned long long)S->steps,
        (unsigned long long)S->points, S->maxpoints, S->maxcost,
        (unsigned long long)S->pruned, (unsigned long long)S->known,
        (unsigned long long)S->det_checked,
        capped || res ? "false" : "true", dt);
    tot_execs += S->execs; tot_steps += S->steps; tot_states += S->nstates;
    tot_obs += S->nobs; tot_trivial += S->trivial; tot_points += S->points;
    tot_det += S->det_checked; tot_known += S->known; tot_pruned += S->pruned;
    for(int i = 0; i < S->nsamples && i < 2 && nall < 24; ++i)
        snprintf(allsamples[nall++], 1100, "%s", S->samples[i]);
    if(capped) anycapped = 1;
    return res;
}

static int do_replay(const char *path) {
    FILE *f = fopen(path, "r");
    if(!f) { perror(path); return 2; }
    static char b[65536];
    char scn[128] = ""; uint8_t ch[MAXCH]; int n = 0;
    while(fgets(b, sizeof b, f)) {
        if(!strncmp(b, "scenario ", 9)) sscanf(b, "scenario %127s", scn);
        if(!strncmp(b, "thorough ", 9)) mc_thorough = atoi(b + 9);
        if(!strncmp(b, "choices", 7)) {
            char *p = b + 7; int v, k;
            while(n < MAXCH && sscanf(p, "%d%n", &v, &k) == 1) {
                ch[n++] = v; p += k; }
            break;
        }
    }
    fclose(f);
    for(cur = mc_scns; cur->name; ++cur) if(!strcmp(cur->name, scn)) break;
    if(!cur->name) { fprintf(stderr, "no scenario %s\n", scn); return 2; }
    mc_arg = cur->arg; mc_scn_name = cur->name;
    bound = mc_thorough ? cur->bound_t : cur->bound_q;
    struct trace t;
    int r = replay(ch, n, 60, &t, 1);
    fwrite(S->log, 1, S->loglen, stdout);
    if(r == RS_OK) { printf("replay: no violation\n"); return 0; }
    printf("replay: %s: %s\n", t.key, t.msg);
    if(r == RS_BROKEN) return 2;
    printf("VIOLATION property=%s replay=%s\n", mc_property, path);
    return 1;
}

static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for(; *s; ++s) {
        if(*s == '"' || *s == '\\') fputc('\\', f);
        if((unsigned char)*s < 32) fputc(' ', f); else fputc(*s, f);
    }
    fputc('"', f);
}

int main(int argc, char **argv) {
    const char *evidence = NULL, *known = NULL, *rep = NULL, *only = NULL;
    double limit = 0; int boverride = -1;
    for(int i = 1; i < argc; ++i) {
        if(!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if(!strcmp(argv[i], "--evidence")) evidence = argv[++i];
        else if(!strcmp(argv[i], "--known")) known = argv[++i];
        else if(!strcmp(argv[i], "--replay")) rep = argv[++i];
        else if(!strcmp(argv[i], "--only")) only = argv[++i];
        else if(!strcmp(argv[i], "--limit")) limit = atof(argv[++i]);
        else if(!strcmp(argv[i], "--bound")) boverride = atoi(argv[++i]);
        else if(!strcmp(argv[i], "--workers")) nworkers = atoi(argv[++i]);
        else if(!strcmp(argv[i], "--out"))
            snprintf(outdir, sizeof outdir, "%s", argv[++i]);
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
    }
    if(nworkers > MAXWORKERS - 1) nworkers = MAXWORKERS - 1;
    mainpid = getpid();
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    mkdir(outdir, 0755);
    snprintf(errpath, sizeof errpath, "%s/%s.replay.err", outdir, mc_property);
    S = mmap(NULL, sizeof *S, PROT_READ|PROT_WRITE,
        MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if(S == MAP_FAILED) { perror("mmap"); return 2; }
    pthread_mutexattr_t ma;
    pthread_mutexattr_init(&ma);
    pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
    pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST);
    pthread_mutex_init(&S->lock, &ma);
    signal(SIGPIPE, SIG_DFL);
    if(known) load_known(known);
    if(rep) return do_replay(rep);
    double t0 = now_s();
    int res = 0, nscn = 0;
    printf("%s (%s)\n", mc_property, mc_thorough ? "thorough" : "quick");
    double deadline = limit > 0 ? t0 + limit : 0;
    int left = 0;
    for(cur = mc_scns; cur->name; ++cur) ++left;
    for(cur = mc_scns; cur->name; ++cur) {
        --left;
        if(only && strcmp(only, cur->name)) continue;
        bound = mc_thorough ? cur->bound_t : cur->bound_q;
        if(bound < 0) continue;
        if(boverride >= 0) bound = boverride;
        mc_arg = cur->arg; mc_scn_name = cur->name;
        double lim = 0;
        if(deadline > 0) {
            lim = deadline - now_s();
            if(lim < 1) lim = 1;
        }
        ++nscn;
        res = explore(lim);
        if(res) break;
    }
    for(int i = 0; i < nknowns; ++i)
        if(knowns[i].hits)
            printf("KNOWN-FINDING: property=%s %s [%s/%s]\n", mc_property,
                knowns[i].text, knowns[i].scn, knowns[i].key);
    double wall = now_s() - t0;
    printf("  total: %d scenarios, %llu executions, %llu states, "
        "%llu transitions, %.1fs\n", nscn, (unsigned long long)tot_execs,
        (unsigned long long)tot_states, (unsigned long long)tot_steps, wall);
    if(evidence) {
        FILE *f = fopen(evidence, "w");
        if(!f) { perror(evidence); return 2; }
        const char *seed = getenv("VERIF_SEED");
        fprintf(f, "{\n  \"property\": \"%s\",\n  \"tier\": \"%s\",\n"
            "  \"seed\": %d,\n  \"level\": \"%s\",\n  \"coverage\": {\n",
            mc_property, mc_thorough ? "thorough" : "quick",
            seed ? atoi(seed) : 0, mc_level);
        if(!strcmp(mc_level, "fault_enumeration") ||
              !strcmp(mc_level, "exploration"))
            fprintf(f, "    \"evaluations\": %llu,\n    \"distinct_nontrivial\": %llu,\n"
                "    \"rule\": \"one case per complete choice sequence (operations, inputs, environment answers, injected faults), executed on the real code in a fresh context; non-trivial: its observation trace differs from every other one's\",\n",
                (unsigned long long)tot_execs, (unsigned long long)tot_obs);
        else
            fprintf(f, "    \"traces_validated_against_impl\": %llu,\n"
                "    \"distinct_outcomes\": %llu,\n",
                (unsigned long long)tot_execs, (unsigned long long)tot_obs);
        fprintf(f, "    \"states\": %llu,\n    \"transitions\": %llu,\n"
            "    \"choice_points\": %llu,\n"
            "    \"executions_replayed_for_determinism\": %llu,\n"
            "    \"alternatives_beyond_bound\": %llu,\n"
            "    \"exhaustive\": %s,\n    \"samples\": [",
            (unsigned long long)tot_states, (unsigned long long)tot_steps,
            (unsigned long long)tot_points, (unsigned long long)tot_det,
            (unsigned long long)tot_pruned,
            anycapped || res ? "false" : "true");
        for(int i = 0; i < nall; ++i) {
            fprintf(f, "%s\n      ", i ? "," : ""); jstr(f, allsamples[i]); }
        fprintf(f, "],\n    \"scenarios\": [%s\n    ]\n  },\n  \"assumptions\": [",
            stats);
        for(int i = 0; mc_assumptions[i]; ++i) {
            fprintf(f, "%s\n    ", i ? "," : ""); jstr(f, mc_assumptions[i]); }
        fprintf(f, "],\n  \"wall_s\": %.2f,\n  \"violations\": %d\n}\n",
            wall, res == 1);
        fclose(f);
    }
    return res;
}
