/* Allocator seam for the native detectors (linked with ld --wrap).
 * Inactive by default: every request goes straight to the C library.
 * When active it can fail chosen requests, fill fresh and freed memory, surround every block with a guard
 * zone (so that reads and writes next to a block are under the simulator's control and writes are noticed),
 * record the call site of every request, and offer a scheduling point to code that runs without the GIL. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int PyGILState_Check(void);

#define API __attribute__((visibility("default")))
static int g_on;              /* counting / failing / poisoning active */
static long g_count;          /* requests seen since simalloc_begin */
static long g_fail_at;        /* 1-based index of the first failing request, 0 = none */
static int g_fail_mode;       /* 0: only that one, 1: from then on, 2: pseudo-random from then on */
static uint64_t g_rng;
static long g_fired;
static int g_poison;          /* -1: off, otherwise fill byte; -2: pseudo-random fill */
static uint64_t g_prng;
static long g_live;           /* live blocks obtained since begin */
static long g_dropped, g_overrun;
static uintptr_t g_last_site;
static uint64_t *g_sites;     /* call site of every request (low half) and of the function it is in (high half), relative to the library */
static long g_sites_cap;
static void (*g_yield)(void);
#define PAD 64
#define CAP (1 << 16)
static struct ent { unsigned char *p; size_t n; unsigned char g[2]; unsigned epoch; } g_tab[CAP];  /* guarded blocks by user pointer */
#define TOMB ((unsigned char *)1)
static unsigned g_epoch;
static long g_used, g_tombs;

static size_t slot(void *p) { uintptr_t x = (uintptr_t)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15ull; return (x >> 20) & (CAP - 1); }
static struct ent *tab_find(void *p)
{
    if (!g_used) return NULL;
    size_t i = slot(p), n;
    for (n = 0; n < CAP && g_tab[i].p; n++, i = (i + 1) & (CAP - 1))
        if (g_tab[i].p == (unsigned char *)p) return &g_tab[i];
    return NULL;
}
static struct ent *tab_add(void *p)
{
    size_t i = slot(p), n;
    if (g_used + g_tombs > CAP / 4 * 3) return NULL;
    for (n = 0; n < CAP; n++, i = (i + 1) & (CAP - 1))
        if (!g_tab[i].p || g_tab[i].p == TOMB) { g_tab[i].p = p; g_tab[i].epoch = g_epoch; g_used++; return &g_tab[i]; }
    return NULL;
}
static uint64_t xs(uint64_t *s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s; }
static void fill(void *p, size_t n)
{
    if (g_poison == -1) return;
    if (g_poison >= 0) { memset(p, g_poison, n); return; }
    unsigned char *c = p; size_t i;
    for (i = 0; i + 8 <= n; i += 8) { uint64_t v = xs(&g_prng) * 0x2545F4914F6CDD1Dull; memcpy(c + i, &v, 8); }
    for (; i < n; i++) c[i] = (unsigned char)(xs(&g_prng) >> 24);
}
static uint32_t rel(void *a) { return (uint32_t)((uintptr_t)a - (uintptr_t)&g_on); }
/* return address of the function whose frame is up levels above fp (everything is built with frame pointers) */
static void *outer(void **fp, int up)
{
    while (up--) {
        void **q = (void **)fp[0];
        if ((uintptr_t)q & 7 || q <= fp || (uintptr_t)q - (uintptr_t)fp > (1 << 18)) return NULL;
        fp = q;
    }
    return fp[1];
}
static int fails(void *site, void **fp, int up)
{
    if (g_yield && !PyGILState_Check()) g_yield();
    if (g_count < g_sites_cap) g_sites[g_count] = (uint64_t)rel(outer(fp, up)) << 32 | rel(site);
    g_count++;
    if (!g_fail_at || g_count < g_fail_at) return 0;
    int f = g_fail_mode == 0 ? g_count == g_fail_at : g_fail_mode == 1 ? 1 : (g_count == g_fail_at || (xs(&g_rng) >> 33) % 4 == 0);
    if (f) { g_fired++; g_last_site = (uintptr_t)site; }
    return f;
}
static void *guarded(size_t n, int zero)
{
    if (n > (size_t)1 << 40) return NULL;
    unsigned char *q = __real_malloc(n + 2 * PAD);
    if (!q) return NULL;
    fill(q, n + 2 * PAD);
    struct ent *e = tab_add(q + PAD);
    if (!e) { __real_free(q); g_dropped++; return zero ? __real_calloc(1, n) : __real_malloc(n); }
    if (g_poison == -1) memset(q, 0xA5, PAD), memset(q + PAD + n, 0xA5, PAD);
    e->n = n;
    uint64_t h = 0; size_t i;
    for (i = 0; i < PAD; i++) h = h * 1099511628211ull + q[i];
    e->g[0] = (unsigned char)(h >> 17);
    for (h = 0, i = 0; i < PAD; i++) h = h * 1099511628211ull + q[PAD + n + i];
    e->g[1] = (unsigned char)(h >> 17);
    if (zero) memset(q + PAD, 0, n);
    g_live++;
    return q + PAD;
}
static void drop(struct ent *e)
{
    unsigned char *q = e->p - PAD; size_t n = e->n, i; uint64_t h = 0;
    for (i = 0; i < PAD; i++) h = h * 1099511628211ull + q[i];
    int bad = e->g[0] != (unsigned char)(h >> 17);
    for (h = 0, i = 0; i < PAD; i++) h = h * 1099511628211ull + q[PAD + n + i];
    bad |= e->g[1] != (unsigned char)(h >> 17);
    g_overrun += bad;
    if (e->epoch == g_epoch) g_live--;
    e->p = TOMB; g_used--; g_tombs++;
    if (g_on) fill(q, n + 2 * PAD);
    __real_free(q);
    if (!g_used && g_tombs > CAP / 8) { memset(g_tab, 0, sizeof g_tab); g_tombs = 0; }
}
void *__wrap_malloc(size_t n)
{
    if (!g_on) return __real_malloc(n);
    if (fails(__builtin_return_address(0), __builtin_frame_address(0), 1)) return NULL;
    return guarded(n, 0);
}
void *__wrap_calloc(size_t m, size_t n)
{
    if (!g_on) return __real_calloc(m, n);
    if (fails(__builtin_return_address(0), __builtin_frame_address(0), 1)) return NULL;
    if (n && m > ((size_t)1 << 40) / n) return NULL;
    return guarded(m * n, 1);
}
void *__wrap_realloc(void *p, size_t n)
{
    struct ent *e = p ? tab_find(p) : NULL;
    if (!g_on && !e) return __real_realloc(p, n);
    if (g_on && fails(__builtin_return_address(0), __builtin_frame_address(0), 1)) return NULL;
    if (p && !e) return __real_realloc(p, n);
    void *r = g_on ? guarded(n, 0) : __real_malloc(n);
    if (r && e) { memcpy(r, p, e->n < n ? e->n : n); drop(tab_find(p)); }
    return r;
}
void __wrap_free(void *p)
{
    struct ent *e = p ? tab_find(p) : NULL;
    if (e) drop(e); else __real_free(p);
}
/* the GSL library's own requests: same memory, never refused */
void *simgslmem_malloc(size_t n) { return g_on ? guarded(n, 0) : __real_malloc(n); }
void *simgslmem_calloc(size_t m, size_t n) { return !g_on ? __real_calloc(m, n) : n && m > ((size_t)1 << 40) / n ? NULL : guarded(m * n, 1); }
void *simgslmem_realloc(void *p, size_t n)
{
    struct ent *e = p ? tab_find(p) : NULL;
    if (p && !e) return __real_realloc(p, n);
    void *r = simgslmem_malloc(n);
    if (r && e) { memcpy(r, p, e->n < n ? e->n : n); drop(tab_find(p)); }
    return r;
}
void simgslmem_free(void *p) { __wrap_free(p); }
int simalloc_refuse(void *site) { return g_on && fails(site, __builtin_frame_address(0), 2); }
API void simalloc_begin(long fail_at, int mode, int poison, unsigned long seed)
{
    g_count = g_fired = g_live = g_dropped = g_overrun = 0; g_last_site = 0; g_epoch++;
    g_fail_at = fail_at; g_fail_mode = mode; g_poison = poison;
    g_rng = seed * 2654435761u + 88172645463325252ull; g_prng = g_rng ^ 0xABCDEF;
    g_on = 1;
}
API void simalloc_end(void) { g_on = 0; g_sites_cap = 0; g_yield = NULL; }
API void simalloc_sites(uint64_t *buf, long cap) { g_sites = buf; g_sites_cap = cap; }
API void simalloc_yield(void (*f)(void)) { g_yield = f; }
API long simalloc_count(void) { return g_count; }
API long simalloc_fired(void) { return g_fired; }
API long simalloc_live(void) { return g_live; }
API long simalloc_dropped(void) { return g_dropped; }
API long simalloc_overrun(void) { return g_overrun; }
API unsigned long simalloc_site(void) { return g_last_site; }
