/* Scatter/gather lists for the checks: buffers surrounded by canaries, copies
   of the list items for comparison. */
#ifndef IOLGEN_H
#define IOLGEN_H
#include "mc.h"
#include "libdill.h"
#include <stdlib.h>

#define GL_MAX 8
#define GL_GAP 16
struct gl {
    struct dill_iolist it[GL_MAX], cp[GL_MAX];
    uint8_t *base[GL_MAX];
    int n; size_t total;
    uint8_t *mem; size_t msz;
};
static inline uint8_t gl_pat(size_t i) { return (uint8_t)(i * 7 + (i >> 8) * 13 + 1); }
static inline void gl_build(struct gl *g, int n, const int *len, const int *null) {
    g->n = n; g->total = 0;
    size_t sz = GL_GAP;
    for(int i = 0; i < n; ++i) sz += len[i] + GL_GAP;
    g->mem = malloc(sz); g->msz = sz;
    memset(g->mem, 0xEE, sz);
    size_t off = GL_GAP;
    for(int i = 0; i < n; ++i) {
        int nul = null && null[i];
        g->base[i] = nul ? NULL : g->mem + off;
        g->it[i].iol_base = g->base[i];
        g->it[i].iol_len = len[i];
        g->it[i].iol_next = i + 1 < n ? &g->it[i + 1] : NULL;
        g->it[i].iol_rsvd = 0;
        off += len[i] + GL_GAP; g->total += len[i];
    }
    memcpy(g->cp, g->it, sizeof g->it);
}
#define GL_FIRST(g) (&(g)->it[0])
#define GL_LAST(g) (&(g)->it[(g)->n - 1])
/* Shape picked by the explorer: 1..maxn items with lengths from lens[nl]. */
static inline void gl_pick(struct gl *g, int maxn, const int *lens, int nl, int nulls) {
    int len[GL_MAX], nul[GL_MAX];
    int n = 1 + mc_pick(maxn, "items");
    for(int i = 0; i < n; ++i) {
        int k = mc_pick(nulls ? nl * 2 : nl, "item");
        len[i] = lens[k % nl]; nul[i] = k >= nl;
    }
    gl_build(g, n, len, nul);
}
static inline void gl_free(struct gl *g) { free(g->mem); g->mem = NULL; }
static inline const char *gl_str(struct gl *g) {
    static char s[200]; int k = 0;
    for(int i = 0; i < g->n; ++i) k += snprintf(s + k, sizeof s - k, "%s%zu%s", i ? "," : "", g->cp[i].iol_len, g->base[i] ? "" : "(NULL)");
    return s;
}
static inline void gl_fill(struct gl *g, size_t pos) {
    for(int i = 0; i < g->n; ++i) for(size_t k = 0; k < g->cp[i].iol_len; ++k, ++pos) if(g->base[i]) g->base[i][k] = gl_pat(pos);
}
/* The list is what it was and nothing around the buffers was written. */
static inline void gl_check(struct gl *g) {
    for(int i = 0; i < g->n; ++i)
        MC_CHECK(g->it[i].iol_base == g->cp[i].iol_base && g->it[i].iol_len == g->cp[i].iol_len && g->it[i].iol_next == g->cp[i].iol_next && g->it[i].iol_rsvd == 0,
            "list-changed", "item %d of the iolist %s has been modified", i, gl_str(g));
    uint8_t *p = g->mem;
    for(int i = 0; i <= g->n; ++i) {
        for(int k = 0; k < GL_GAP; ++k) MC_CHECK(p[k] == 0xEE, "overrun", "a byte outside of the buffers of %s has been written (near item %d)", gl_str(g), i);
        p += GL_GAP; if(i < g->n) p += g->cp[i].iol_len;
    }
}
/* Concatenation of the buffers equals src[0..n) and the rest is untouched
   (unless loose). */
static inline void gl_expect(struct gl *g, const uint8_t *src, size_t n, int loose) {
    size_t pos = 0;
    for(int i = 0; i < g->n; ++i) for(size_t k = 0; k < g->cp[i].iol_len; ++k, ++pos) {
        if(!g->base[i]) continue;
        if(pos < n) MC_CHECK(g->base[i][k] == src[pos], "data", "byte %zu of list %s is %02x instead of %02x", pos, gl_str(g), g->base[i][k], src[pos]);
        else if(!loose) MC_CHECK(g->base[i][k] == 0xEE, "data", "byte %zu of list %s, behind the %zu received, was written", pos, gl_str(g), n);
    }
}
/* After a failure: every byte is either as expected or untouched, and those
   behind the first n are untouched. */
static inline void gl_partial(struct gl *g, const uint8_t *src, size_t n) {
    size_t pos = 0;
    for(int i = 0; i < g->n; ++i) for(size_t k = 0; k < g->cp[i].iol_len; ++k, ++pos) {
        if(!g->base[i] || g->base[i][k] == 0xEE) continue;
        MC_CHECK(pos < n && g->base[i][k] == src[pos], "data", "byte %zu of list %s is %02x after a failure", pos, gl_str(g), g->base[i][k]);
    }
}
#endif
