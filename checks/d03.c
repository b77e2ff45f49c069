/* D03: every allocator hands out distinct, large enough, aligned memory, all sequences. */
#include "seqx.h"
#include "mcp_arena.h"
#include "mcp_memory_pool.h"
#include "mcp_buffer_pool.h"
#include "mcp_object_pool.h"
#include "mcp_thread_cache.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXB 128
typedef struct { unsigned char *p; size_t n; unsigned char tag; } blk;
static blk L[MAXB];
static int nl, tag;

static void intact(const blk *b) {
    for (size_t i = 0; i < b->n; i++) SX_CHECK(b->p[i] == (unsigned char)(b->tag + i), "contents", "byte %zu of a live block of %zu bytes changed", i, b->n);
}
static void intact_all(void) { for (int i = 0; i < nl; i++) intact(&L[i]); }
/* a block of at least n bytes was handed out */
static void gave(void *q, size_t n) {
    unsigned char *p = q;
    SX_CHECK(((uintptr_t)p & 7) == 0, "alignment", "block of %zu bytes at an address that is %d modulo 8", n, (int)((uintptr_t)p & 7));
    for (int i = 0; i < nl; i++)
        SX_CHECK(p + n <= L[i].p || L[i].p + L[i].n <= p, "overlap", "block of %zu bytes overlaps a live block of %zu bytes", n, L[i].n);
    SX_CHECK(nl < MAXB, "harness", "too many blocks");
    blk *b = &L[nl++];
    b->p = p; b->n = n; b->tag = (unsigned char)(tag += 37);
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(b->tag + i);
    for (int i = 0; i < nl - 1; i++) {
        SX_CHECK(!L[i].n || (L[i].p[0] == L[i].tag && L[i].p[L[i].n - 1] == (unsigned char)(L[i].tag + L[i].n - 1)), "contents", "writing a new block changed a live one");
    }
}
static blk take(int i) { intact(&L[i]); blk b = L[i]; memmove(L + i, L + i + 1, sizeof(blk) * (size_t)(nl - i - 1)); nl--; memset(b.p, 0xEE, b.n); return b; }
static void fresh(void) { nl = 0; tag = 0; }
static void st(int a, int b) { struct { int a, b, n; size_t s[MAXB]; } x; memset(&x, 0, sizeof x); x.a = a; x.b = b; x.n = nl; for (int i = 0; i < nl; i++) x.s[i] = L[i].n; sx_state(&x, sizeof x - sizeof x.s + sizeof(size_t) * (size_t)nl); }

/* ---- environment: which of the shared allocators underneath are up ---- */
static void env_up(int env) {
    if (env & 1) mcp_memory_pool_system_init(1, 0, 1);
    if (env & 2) mcp_thread_cache_init();
}
static void env_down(void) {
    mcp_thread_cache_cleanup();
    mcp_memory_pool_system_cleanup();
}

/* ---- arena ---- */
static const size_t AS[] = {0, 7, 8, 100, 256, 257, 1024, 1025, 4097, (size_t)-1, (size_t)-16, ((size_t)-1) / 2 + 1};
static const size_t AD[] = {0, 64, 256, 1000, 4100};
static void arena(void) {
    fresh();
    int env = sx_choose(4);
    size_t def = AD[sx_choose(5)];
    int depth = sx_thorough() ? 5 : 4;
    long live0 = sx_live();
    env_up(env);
    mcp_arena_t a;
    mcp_arena_init(&a, def);
    sx_note("environment %d, block size %zu:", env, def);
    for (int d = 0; d < depth; d++) {
        int o = sx_choose(14);
        sx_op();
        if (o < 12) {
            size_t n = AS[o];
            void *p = mcp_arena_alloc(&a, n);
            sx_note(" alloc %zu=%s", n, p ? "ok" : "-");
            if (n > ((size_t)1 << 40)) { SX_CHECK(!p, "impossible", "%zu bytes were handed out", n); }
            else { SX_CHECK(p, "refused", "%zu bytes refused", n); gave(p, n ? n : 1); }
        } else {
            intact_all();
            nl = 0;
            if (o == 12) { sx_note(" reset"); mcp_arena_reset(&a); } else { sx_note(" cleanup"); mcp_arena_cleanup(&a); }
        }
        st(env, (int)def);
    }
    intact_all();
    mcp_arena_destroy(&a);
    env_down();
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}
/* many blocks: resetting drops some and keeps some */
static void arena_many(void) {
    fresh();
    int env = sx_choose(4);
    long live0 = sx_live();
    env_up(env);
    mcp_arena_t a;
    mcp_arena_init(&a, 256);
    sx_note("environment %d:", env);
    for (int r = 0; r < 3; r++) {
        int n = sx_choose(12);
        size_t sz = sx_flip() ? 200 : 5000;
        for (int i = 0; i < n; i++) { sx_op(); void *p = mcp_arena_alloc(&a, sz); SX_CHECK(p, "refused", "%zu bytes refused", sz); gave(p, sz); }
        intact_all();
        int big = sx_choose(2);
        sx_note(" %d of %zu%s", n, sz, big ? " reset" : "");
        if (big) { nl = 0; mcp_arena_reset(&a); sx_op(); }
        size_t tot, bs, bc;
        mcp_arena_get_stats(&a, &tot, &bs, &bc);
        SX_CHECK(bs >= tot, "statistics", "%zu bytes allocated in blocks of %zu bytes", tot, bs);
    }
    intact_all();
    mcp_arena_destroy(&a);
    env_down();
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}

/* ---- memory pool ---- */
static void mempool(void) {
    fresh();
    static const size_t BS[] = {24, 25, 31, 64};
    size_t bs = BS[sx_choose(4)], init = (size_t)sx_choose(4), max = (size_t)sx_choose(4);
    if (max && init > max) return;   /* contradictory limits are not claimed */
    long live0 = sx_live();
    mcp_memory_pool_t *p = mcp_memory_pool_create(bs, init, max), *q = mcp_memory_pool_create(bs, 1, 0);
    SX_CHECK(p && q, "create", "pool not created");
    void *foreign = mcp_memory_pool_alloc(q);
    int depth = sx_thorough() ? 10 : 9;
    size_t peak = 0;
    sx_note("block %zu initial %zu max %zu:", bs, init, max);
    for (int d = 0; d < depth; d++) {
        int o = sx_choose(nl + 2);
        sx_op();
        if (o == 0) {
            void *b = mcp_memory_pool_alloc(p);
            sx_note(" alloc=%s", b ? "ok" : "-");
            SX_CHECK(!!b == (!max || (size_t)nl < max), "limit", "allocation %s with %d of %zu outstanding", b ? "succeeded" : "refused", nl, max);
            if (b) { gave(b, bs); if ((size_t)nl > peak) peak = (size_t)nl; SX_CHECK(mcp_pool_get_block_size(b) >= bs, "block-size", "reported size is smaller than the block"); }
        } else if (o <= nl) {
            blk b = take(o - 1);
            sx_note(" free#%d", o - 1);
            SX_CHECK(mcp_memory_pool_free(p, b.p), "free", "release of an own block refused");
        } else {
            sx_note(" foreign");
            SX_CHECK(!mcp_memory_pool_free(p, foreign), "foreign", "a block of another pool was taken");
        }
        mcp_memory_pool_stats_t s;
        SX_CHECK(mcp_memory_pool_get_stats(p, &s), "statistics", "none");
        SX_CHECK(s.allocated_blocks == (size_t)nl && s.total_blocks == s.free_blocks + (size_t)nl && s.block_size == bs && s.peak_usage == peak, "statistics", "%zu allocated, %zu free of %zu, peak %zu; %d outstanding, peak %zu", s.allocated_blocks, s.free_blocks, s.total_blocks, s.peak_usage, nl, peak);
        SX_CHECK(!max || s.total_blocks <= max, "limit", "%zu blocks, limit %zu", s.total_blocks, max);
        st((int)(bs * 4 + init), (int)max);
    }
    while (nl) { blk b = take(0); mcp_memory_pool_free(p, b.p); }
    mcp_memory_pool_free(q, foreign);
    mcp_memory_pool_destroy(p); mcp_memory_pool_destroy(q);
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}

/* ---- the shared size-class pools ---- */
static const size_t GS[] = {1, 256, 257, 1024, 1025, 4096, 4097, 20000};
static void classes(void) {
    fresh();
    int early = sx_choose(3);       /* 0: started with blocks, 1: without, 2: by the first allocation */
    long live0 = sx_live();
    if (early < 2) mcp_memory_pool_system_init(early ? 0 : 2, early ? 0 : 1, 0);
    int depth = sx_thorough() ? 6 : 5;
    sx_note("start %d:", early);
    for (int d = 0; d < depth; d++) {
        int o = sx_choose(8 + nl);
        sx_op();
        if (o < 8) {
            void *p = mcp_pool_alloc(GS[o]);
            sx_note(" alloc %zu", GS[o]);
            SX_CHECK(p, "refused", "%zu bytes refused", GS[o]);
            gave(p, GS[o]);
            size_t k = mcp_pool_get_block_size(p);
            SX_CHECK(k == 0 || k >= GS[o], "block-size", "a block for %zu bytes is said to have %zu", GS[o], k);
        } else {
            blk b = take(o - 8);
            sx_note(" free#%d", o - 8);
            mcp_pool_free(b.p);
        }
        st(early, 0);
    }
    while (nl) { blk b = take(0); mcp_pool_free(b.p); }
    mcp_memory_pool_system_cleanup();
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}

/* ---- per-thread cache ---- */
static const size_t TS[] = {8, 300, 4096, 5000, 256, 1024};
static void t_free(int i, int known) { blk b = take(i); mcp_thread_cache_free(b.p, known ? b.n : 0); }
static void t_alloc(size_t n) { void *p = mcp_thread_cache_alloc(n); SX_CHECK(p, "refused", "%zu bytes refused", n); gave(p, n); }
static void t_conf(int lru, size_t small, int adaptive, size_t mx) {
    mcp_thread_cache_config_t c; memset(&c, 0, sizeof c);
    c.small_cache_size = small; c.medium_cache_size = 4; c.large_cache_size = 4;
    c.adaptive_sizing = adaptive; c.growth_threshold = 0.5; c.shrink_threshold = 0.1; c.min_cache_size = 1; c.max_cache_size = mx; c.lru_enabled = lru;
    mcp_thread_cache_configure(&c);
}
static void t_stats(void) {
    mcp_thread_cache_stats_t s;
    if (!mcp_thread_cache_get_stats(&s)) return;
    SX_CHECK(s.small_cache_count <= 64 && s.medium_cache_count <= 64 && s.large_cache_count <= 64, "cache-count", "%zu/%zu/%zu blocks cached", s.small_cache_count, s.medium_cache_count, s.large_cache_count);
}
static void tcache(void) {
    fresh();
    int env = sx_choose(4);
    long live0 = sx_live();
    env_up(env);
    if ((env & 2) && sx_flip()) t_conf(0, 4, 0, 64);
    int depth = sx_thorough() ? 6 : 5;
    sx_note("environment %d:", env);
    for (int d = 0; d < depth; d++) {
        int nf = nl > 3 ? 3 : nl;
        int o = sx_choose(4 + 5 + nf);
        sx_op();
        if (o < 4) { sx_note(" alloc %zu", TS[o]); t_alloc(TS[o]); }
        else if (o == 4) { sx_note(" flush"); mcp_thread_cache_flush(); }
        else if (o == 5) { int l = sx_flip(); sx_note(" lru=%d", l); t_conf(l, 4, 0, 64); }
        else if (o == 6) {                /* five blocks of a class through the cache of four */
            size_t n = TS[sx_choose(3)];
            sx_note(" burst %zu", n);
            int base = nl;
            for (int i = 0; i < 5; i++) t_alloc(n);
            for (int i = 0; i < 5; i++) t_free(base, i & 1);
        }
        else if (o == 7) { sx_note(" restart"); mcp_thread_cache_cleanup(); if (env & 2) mcp_thread_cache_init(); }
        else if (o == 8) { int k = sx_flip(); if (nl) { sx_note(" free-last%s", k ? "" : " unsized"); t_free(nl - 1, k); } }
        else { int i = o - 9; sx_note(" free#%d", i); t_free(i, 1); }
        t_stats();
        st(env, 0);
    }
    while (nl) t_free(0, 1);
    env_down();
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}
/* only small blocks, deeper: order changes between recency and stack while blocks are cached */
static void tcache_modes(void) {
    fresh();
    int env = sx_choose(2) | 2;
    long live0 = sx_live();
    env_up(env);
    int depth = sx_thorough() ? 14 : 12, lru = 1;
    for (int i = 0; i < 2; i++) t_alloc(8);
    sx_note("environment %d:", env);
    for (int d = 0; d < depth; d++) {
        int o = sx_choose(3);
        sx_op();
        if (o == 0) { if (nl < 4) { sx_note(" alloc"); t_alloc(8); } else { sx_note(" flush"); mcp_thread_cache_flush(); } }
        else if (o == 1) { if (nl) { sx_note(" free"); t_free(0, 1); } else { sx_note(" flush"); mcp_thread_cache_flush(); } }
        else { lru = !lru; sx_note(" lru=%d", lru); t_conf(lru, 4, 0, 64); }
        st(env, lru);
    }
    while (nl) t_free(0, 1);
    env_down();
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}
/* sizing that adapts: many hits, then more blocks returned than the cache can ever hold */
static void tcache_adaptive(void) {
    fresh();
    int env = sx_choose(2) | 2, lru = sx_flip(), how = sx_choose(2);
    size_t mx = sx_choose(2) ? 64 : 1000;
    static const size_t CS[] = {8, 1000, 4096};
    size_t n = CS[sx_choose(3)];
    long live0 = sx_live();
    env_up(env);
    if (how) { t_conf(lru, 4, 1, mx); }
    else {
        mcp_thread_cache_cleanup();
        mcp_thread_cache_config_t c = {0};
        c.small_cache_size = 1000; c.medium_cache_size = 0; c.large_cache_size = 64; c.adaptive_sizing = 1; c.growth_threshold = -1; c.shrink_threshold = 0; c.min_cache_size = 0; c.max_cache_size = mx; c.lru_enabled = lru;
        mcp_thread_cache_init_with_config(&c);
    }
    int rounds = sx_choose(7);
    sx_note("environment %d lru %d maximum %zu size %zu rounds %d", env, lru, mx, n, rounds);
    for (int r = 0; r < rounds; r++) {
        for (int i = 0; i < 60; i++) { sx_op(); t_alloc(n); t_free(0, 1); }
        mcp_thread_cache_adjust_size();
    }
    for (int i = 0; i < 90; i++) t_alloc(n);
    while (nl) { sx_op(); t_free(nl - 1, 1); t_stats(); }
    for (int i = 0; i < 90; i++) t_alloc(n);
    while (nl) t_free(0, 1);
    env_down();
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}

/* ---- buffer pool ---- */
static void bufpool(void) {
    fresh();
    static const size_t BS[] = {1, 7, 64};
    size_t bs = BS[sx_choose(3)], n = (size_t)sx_choose(3) + 1;
    long live0 = sx_live();
    mcp_buffer_pool_t *p = mcp_buffer_pool_create(bs, n), *q = mcp_buffer_pool_create(bs, 1);
    SX_CHECK(p && q, "create", "pool not created");
    void *foreign = mcp_buffer_pool_acquire(q);
    memset(foreign, 0x55, bs);
    SX_CHECK(mcp_buffer_pool_get_buffer_size(p) == bs, "buffer-size", "differs");
    int depth = sx_thorough() ? 10 : 9;
    sx_note("%zu buffers of %zu:", n, bs);
    for (int d = 0; d < depth; d++) {
        int o = sx_choose(nl + 2);
        sx_op();
        if (o == 0) { sx_note(" acquire"); void *b = mcp_buffer_pool_acquire(p); if ((size_t)nl < n) SX_CHECK(b, "refused", "no buffer with %d of %zu outstanding", nl, n); if (b) gave(b, bs); }
        else if (o <= nl) { sx_note(" release#%d", o - 1); blk b = take(o - 1); mcp_buffer_pool_release(p, b.p); }
        else { sx_note(" foreign"); mcp_buffer_pool_release(p, foreign); }
        st((int)bs, (int)n);
    }
    while (nl) { blk b = take(0); mcp_buffer_pool_release(p, b.p); }
    mcp_buffer_pool_release(q, foreign);
    mcp_buffer_pool_destroy(p); mcp_buffer_pool_destroy(q);
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}

/* ---- object pool ---- */
static void objpool(void) {
    fresh();
    static const size_t OS[] = {1, 40, 64, 65};
    size_t os = OS[sx_choose(4)], init = (size_t)sx_choose(4), max = (size_t)sx_choose(4);
    if (max && init > max) return;
    long live0 = sx_live();
    mcp_object_pool_t *p = mcp_object_pool_create(os, init, max);
    SX_CHECK(p, "create", "pool not created");
    int depth = sx_thorough() ? 10 : 9;
    size_t peak = 0;
    sx_note("object %zu initial %zu max %zu:", os, init, max);
    for (int d = 0; d < depth; d++) {
        int o = sx_choose(nl + 1);
        sx_op();
        if (o == 0) {
            void *b = mcp_object_pool_acquire(p);
            sx_note(" acquire=%s", b ? "ok" : "-");
            SX_CHECK(!!b == (!max || (size_t)nl < max), "limit", "acquire %s with %d of %zu outstanding", b ? "succeeded" : "refused", nl, max);
            if (b) { gave(b, os); if ((size_t)nl > peak) peak = (size_t)nl; }
        } else { sx_note(" release#%d", o - 1); blk b = take(o - 1); SX_CHECK(mcp_object_pool_release(p, b.p), "release", "refused"); }
        size_t tot, fr, use, pk;
        SX_CHECK(mcp_object_pool_get_stats(p, &tot, &fr, &use, &pk), "statistics", "none");
        SX_CHECK(use == (size_t)nl && tot == fr + use && pk == peak, "statistics", "%zu in use, %zu free of %zu, peak %zu; %d outstanding, peak %zu", use, fr, tot, pk, nl, peak);
        SX_CHECK(!max || tot <= max, "limit", "%zu objects, limit %zu", tot, max);
        SX_CHECK(mcp_object_pool_get_free_count(p) == fr && mcp_object_pool_get_total_count(p) == tot, "statistics", "counts differ");
        st((int)(os * 4 + init), (int)max);
    }
    while (nl) { blk b = take(0); mcp_object_pool_release(p, b.p); }
    mcp_object_pool_destroy(p);
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}

/* ---- the k-th allocation of the library fails ---- */
static void faults(void) {
    fresh();
    int which = sx_choose(5), k = sx_choose(12);
    long live0 = sx_live();
    sx_note("allocator %d, allocation %d fails", which, k);
    sx_alloc_fail(k);
    void *b[4] = {0};
    if (which == 0) {
        env_up(3);
        mcp_arena_t a; mcp_arena_init(&a, 100);
        for (int i = 0; i < 4; i++) { sx_op(); void *p = mcp_arena_alloc(&a, 90 * ((size_t)i + 1)); if (p) gave(p, 90 * ((size_t)i + 1)); }
        intact_all();
        mcp_arena_destroy(&a);
        nl = 0;
    } else if (which == 1) {
        mcp_memory_pool_t *p = mcp_memory_pool_create(40, 2, 4);
        if (p) { for (int i = 0; i < 4; i++) { sx_op(); b[i] = mcp_memory_pool_alloc(p); if (b[i]) gave(b[i], 40); } while (nl) { blk x = take(0); SX_CHECK(mcp_memory_pool_free(p, x.p), "free", "refused"); } mcp_memory_pool_destroy(p); }
    } else if (which == 2) {
        mcp_buffer_pool_t *p = mcp_buffer_pool_create(40, 2);
        if (p) { for (int i = 0; i < 4; i++) { sx_op(); b[i] = mcp_buffer_pool_acquire(p); if (b[i]) gave(b[i], 40); } while (nl) { blk x = take(0); mcp_buffer_pool_release(p, x.p); } mcp_buffer_pool_destroy(p); }
    } else if (which == 3) {
        mcp_object_pool_t *p = mcp_object_pool_create(40, 2, 4);
        if (p) { for (int i = 0; i < 4; i++) { sx_op(); b[i] = mcp_object_pool_acquire(p); if (b[i]) gave(b[i], 40); } while (nl) { blk x = take(0); mcp_object_pool_release(p, x.p); } mcp_object_pool_destroy(p); }
    } else {
        env_up(3);
        for (int i = 0; i < 4; i++) { sx_op(); void *p = mcp_thread_cache_alloc(TS[i + 1]); if (p) gave(p, TS[i + 1]); }
        while (nl) t_free(0, nl & 1);
        for (int i = 0; i < 4; i++) { sx_op(); void *p = mcp_thread_cache_alloc(TS[i + 1]); if (p) gave(p, TS[i + 1]); }
        while (nl) t_free(0, 1);
    }
    sx_alloc_fail(-1);
    env_down();
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released", sx_live() - live0);
}

static const sx_scenario SC[] = {
    {"arena", 0, arena, 0, "arena: sizes at the class boundaries and impossible ones, reset, cleanup"},
    {"arena-many", 0, arena_many, 0, "arena with up to 33 blocks across resets"},
    {"memory-pool", 0, mempool, 0, "memory pool: every alloc/free order, limits, foreign blocks"},
    {"size-classes", 0, classes, 0, "shared size-class pools and sizes beyond them"},
    {"thread-cache", 0, tcache, 0, "per-thread cache: alloc, free, flush, reconfiguration, restart"},
    {"thread-cache-modes", 0, tcache_modes, 0, "per-thread cache: replacement order switched while blocks are cached"},
    {"thread-cache-adaptive", 0, tcache_adaptive, 0, "per-thread cache growing by its hit ratio"},
    {"buffer-pool", 0, bufpool, 0, "buffer pool: every acquire/release order, foreign buffers"},
    {"object-pool", 0, objpool, 0, "object pool: every acquire/release order, limits"},
    {"faults", 0, faults, 0, "an allocation of the library fails"},
};
int main(int c, char **v) { return sx_main(c, v, SC, sizeof SC / sizeof *SC); }
