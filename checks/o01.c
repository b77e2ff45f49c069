/* O01: what a pool hands out has one owner at a time, all interleavings. */
#include "mcrt.h"
#include "mcp_object_pool.h"
#include "mcp_buffer_pool.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"
#include <string.h>

static mcp_object_pool_t *O;
static mcp_buffer_pool_t *B;
static mcp_memory_pool_t *M;
static int G;                       /* shared size-class pools */
static size_t limit, refused;
static struct { void *p; int owner; } own[24];
static int nown, maxown;

static void *get(void) { return O ? mcp_object_pool_acquire(O) : B ? mcp_buffer_pool_acquire(B) : M ? mcp_memory_pool_alloc(M) : mcp_pool_alloc(200); }
static void put(void *p) { if (O) { if (!mcp_object_pool_release(O, p)) mc_fail("release", "an own object was refused"); } else if (B) mcp_buffer_pool_release(B, p); else if (M) { if (!mcp_memory_pool_free(M, p)) mc_fail("release", "an own block was refused"); } else mcp_pool_free(p); }
static int idx(void *p) { for (int i = 0; i < nown; i++) if (own[i].p == p) return i; own[nown].p = p; own[nown].owner = -1; return nown++; }
static int held;
static void *claim(void) {
    char *p = get();
    if (!p) { refused++; return NULL; }
    int i = idx(p);
    if (own[i].owner >= 0) mc_fail("two-owners", "thread %d received what thread %d holds", mc_self(), own[i].owner);
    own[i].owner = mc_self();
    if (++held > maxown) maxown = held;
    if (limit && (size_t)held > limit) mc_fail("over-limit", "%d outstanding, limit %zu", held, limit);
    memset(p, 0x40 + mc_self(), 32);
    return p;
}
static void unclaim(char *p) {
    if (!p) return;
    for (int k = 0; k < 32; k++) if (p[k] != 0x40 + mc_self()) mc_fail("contents", "byte %d changed while thread %d held it", k, mc_self());
    own[idx(p)].owner = -1; held--;
    memset(p, 0, 32);
    put(p);
}
static void worker(void *a) {
    long n = (long)a;
    void *p = claim();
    void *q = n & 1 ? claim() : NULL;
    unclaim(p);
    if (n & 2) { p = claim(); unclaim(p); }
    unclaim(q);
}
/* a block is passed on and released by another thread */
static void *box;
static int has(void *a) { (void)a; return box != NULL; }
static void giver(void *a) { (void)a; char *p = claim(); if (!p) mc_fail("refused", "nothing handed out"); own[idx(p)].owner = 99; void *q = claim(); box = p; unclaim(q); }
static void taker(void *a) { (void)a; mc_block_until(has, 0); own[idx(box)].owner = mc_self(); memset(box, 0x40 + mc_self(), 32); char *p = box; void *q = claim(); unclaim(p); unclaim(q); p = claim(); unclaim(p); }
static void go(long a, long b, long c) {
    int t[3] = {mc_spawn(worker, (void *)a), mc_spawn(worker, (void *)b), c >= 0 ? mc_spawn(worker, (void *)c) : -1};
    for (int i = 0; i < 3; i++) if (t[i] >= 0) mc_join(t[i]);
}
static void check_obj(size_t use) {
    size_t tot, fr, u, pk;
    mcp_object_pool_get_stats(O, &tot, &fr, &u, &pk);
    if (u != use || tot != fr + u) mc_fail("statistics", "%zu in use and %zu free of %zu, %zu outstanding", u, fr, tot, use);
    if (limit && tot > limit) mc_fail("over-limit", "%zu objects, limit %zu", tot, limit);
    /* peak is what some thread really saw outstanding, counting calls under way */
    if ((int)pk < maxown) mc_fail("statistics", "peak %zu, %d were held at once", pk, maxown);
}
static void s_obj(void) { limit = 3; O = mcp_object_pool_create(32, 1, 3); go(1, 3, 2); check_obj(0); mcp_object_pool_destroy(O); mc_outcome("peak %d refused %zu", maxown, refused); }
static void s_obj_free(void) { limit = 0; O = mcp_object_pool_create(32, 0, 0); go(1, 1, 2); if (refused) mc_fail("refused", "unlimited pool refused"); check_obj(0); mcp_object_pool_destroy(O); mc_outcome("peak %d", maxown); }
static void s_obj_pass(void) { limit = 2; O = mcp_object_pool_create(32, 2, 2); int a = mc_spawn(giver, 0), b = mc_spawn(taker, 0); mc_join(a); mc_join(b); check_obj(0); mcp_object_pool_destroy(O); mc_outcome("refused %zu", refused); }
static void t_stats(void *a) { (void)a; for (int i = 0; i < 2; i++) { size_t tot, fr, u, pk; mcp_object_pool_get_stats(O, &tot, &fr, &u, &pk); /* read one by one, so only bounds hold mid-flight */ if (fr > tot || tot > 3 || u > 4 || pk > 4) mc_fail("statistics", "%zu in use and %zu free of %zu, peak %zu", u, fr, tot, pk); } }
static void s_obj_stats(void) { limit = 3; O = mcp_object_pool_create(32, 1, 3); int s = mc_spawn(t_stats, 0); go(1, 2, -1); mc_join(s); check_obj(0); mcp_object_pool_destroy(O); }
static void s_buf(void) { limit = 0; B = mcp_buffer_pool_create(32, 2); go(1, 3, 2); mcp_buffer_pool_destroy(B); mc_outcome("peak %d refused %zu", maxown, refused); }
static void s_buf_pass(void) { limit = 0; B = mcp_buffer_pool_create(32, 2); int a = mc_spawn(giver, 0), b = mc_spawn(taker, 0); mc_join(a); mc_join(b); mcp_buffer_pool_destroy(B); }
static void s_mem(void) { limit = 3; M = mcp_memory_pool_create(32, 1, 3); go(1, 3, 2); mcp_memory_pool_stats_t s; mcp_memory_pool_get_stats(M, &s); if (s.allocated_blocks || s.total_blocks > 3 || (int)s.peak_usage < maxown) mc_fail("statistics", "%zu allocated, %zu blocks, peak %zu", s.allocated_blocks, s.total_blocks, s.peak_usage); mcp_memory_pool_destroy(M); mc_outcome("peak %d refused %zu", maxown, refused); }
static void s_mem_pass(void) { limit = 2; M = mcp_memory_pool_create(32, 0, 2); int a = mc_spawn(giver, 0), b = mc_spawn(taker, 0); mc_join(a); mc_join(b); mcp_memory_pool_destroy(M); }
static void s_cls(void) { G = 1; mcp_memory_pool_system_init(1, 0, 0); go(1, 3, 2); if (refused) mc_fail("refused", "shared pools refused"); mcp_memory_pool_system_cleanup(); }
/* per-thread caches in front of the shared pools: a block freed by another thread goes to that thread's cache */
static void tc(void *a) { (void)a; mcp_thread_cache_init(); char *p = mcp_thread_cache_alloc(200), *q = mcp_thread_cache_alloc(200); if (!p || !q || p == q) mc_fail("two-owners", "one block twice"); memset(p, mc_self(), 200); memset(q, mc_self() + 9, 200); mcp_thread_cache_free(p, 200); p = mcp_thread_cache_alloc(256); memset(p, mc_self(), 256); for (int i = 0; i < 200; i++) if (q[i] != mc_self() + 9 || p[i] != mc_self()) mc_fail("contents", "a held block changed"); mcp_thread_cache_free(q, 200); mcp_thread_cache_free(p, 0); mcp_thread_cache_cleanup(); }
static void s_tc(void) { mcp_memory_pool_system_init(2, 0, 0); int a = mc_spawn(tc, 0), b = mc_spawn(tc, 0); mc_join(a); mc_join(b); mcp_memory_pool_stats_t s; mcp_pool_get_stats(MCP_POOL_SIZE_SMALL, &s); if (s.allocated_blocks) mc_fail("leak", "%zu blocks still out after both caches were cleaned up", s.allocated_blocks); mcp_memory_pool_system_cleanup(); }
static const mc_scenario S[] = {
    {"objects", 0, s_obj, 2, 3, 0, "object pool of at most 3, three threads taking up to 2"},
    {"objects-unlimited", 0, s_obj_free, 2, 3, 0, "object pool without a limit"},
    {"objects-passed-on", 0, s_obj_pass, 4, 6, 0, "an object is released by another thread"},
    {"objects-statistics", 0, s_obj_stats, 2, 4, 0, "counts are read meanwhile"},
    {"buffers", 0, s_buf, 3, 4, 0, "buffer pool, three threads"},
    {"buffers-passed-on", 0, s_buf_pass, 4, 6, 0, "a buffer is released by another thread"},
    {"blocks", 0, s_mem, 3, 4, 0, "memory pool of at most 3, three threads"},
    {"blocks-passed-on", 0, s_mem_pass, 8, 8, 0, "a block is released by another thread"},
    {"size-classes", 0, s_cls, 3, 4, 0, "shared size-class pools, three threads"},
    {"thread-caches", 0, s_tc, 3, 5, 0, "per-thread caches over the shared pools"},
};
int main(int c, char **v) { return mc_main(c, v, S, sizeof S / sizeof *S); }
