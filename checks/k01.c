/* K01: concurrent use of the content cache; every lookup is a miss or one whole current content. */
#include "mcrt.h"
#include "mcp_cache.h"
#include "mcp_object_pool.h"
#include "mcp_types.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* the object pool is checked on its own (O01); here each of its operations is one step */
void *__real_mcp_object_pool_acquire(mcp_object_pool_t *p);
void *__wrap_mcp_object_pool_acquire(mcp_object_pool_t *p) { mc_atomic_begin(); void *r = __real_mcp_object_pool_acquire(p); mc_atomic_end(); return r; }
bool __real_mcp_object_pool_release(mcp_object_pool_t *p, void *o);
bool __wrap_mcp_object_pool_release(mcp_object_pool_t *p, void *o) { mc_atomic_begin(); bool r = __real_mcp_object_pool_release(p, o); mc_atomic_end(); return r; }
static mcp_resource_cache_t *C;
static mcp_object_pool_t *P;
static int cap;
static const char *KEY[] = {"res://a", "res://b", "res://c", "res://d", "res://e", "res://f"};
enum { PUT, GET, INV, PRUNE, TICK };
typedef struct { int op, key, ver, ttl, s, e, res; } ev;
static ev H[32]; static int nh, clk;
static int held(int v) { return 1 + (v & 1); }

static void put(int k, int v, int ttl) {
    char d[2][32]; mcp_content_item_t it[2], *p[2]; memset(it, 0, sizeof it);
    for (int i = 0; i < held(v); i++) { it[i].type = MCP_CONTENT_TYPE_TEXT; it[i].mime_type = (char *)(v & 2 ? "text/plain" : "m"); it[i].data = d[i]; it[i].data_size = (size_t)snprintf(d[i], 32, "k%d version %d part %d", k, v, i) + 1; p[i] = &it[i]; }
    int h = nh++; H[h] = (ev){PUT, k, v, ttl, clk++, 1000, 0};
    int r = mcp_cache_put(C, KEY[k], P, p, (size_t)held(v), ttl);
    H[h].e = clk++; H[h].res = r;
    if (r) mc_fail("put-failed", "storing under %s failed", KEY[k]);
}
static int get(int k) {
    mcp_content_item_t **c = NULL; size_t n = 0; int v = -1, kk = -1;
    int h = nh++; H[h] = (ev){GET, k, -1, 0, clk++, 1000, 0};
    int r = mcp_cache_get(C, KEY[k], P, &c, &n);
    H[h].e = clk++;
    if (r == 0) {
        if (!c || !n || !c[0] || !c[0]->data || sscanf(c[0]->data, "k%d version %d", &kk, &v) != 2) mc_fail("hit-content", "unknown content");
        if (kk != k) mc_fail("other-key", "lookup of %s returned content of %s", KEY[k], KEY[kk]);
        if ((int)n != held(v)) mc_fail("mixed-content", "version %d returned with %zu parts", v, n);
        for (size_t i = 0; i < n; i++) {
            char d[32]; size_t len = (size_t)snprintf(d, 32, "k%d version %d part %zu", k, v, i) + 1;
            if (c[i]->data_size != len || strcmp(c[i]->data, d) || strcmp(c[i]->mime_type, v & 2 ? "text/plain" : "m")) mc_fail("mixed-content", "part %zu of version %d holds '%s'", i, v, (char *)c[i]->data);
            mcp_content_item_release_pooled(P, c[i]);
        }
        free(c);
    }
    H[h].ver = v;
    return v;
}
static void inv(int k) { int h = nh++; H[h] = (ev){INV, k, -1, 0, clk++, 1000, 0}; H[h].res = mcp_cache_invalidate(C, KEY[k]); H[h].e = clk++; }
static void prune(void) { int h = nh++; H[h] = (ev){PRUNE, -1, -1, 0, clk++, 1000, 0}; mcp_cache_prune_expired(C); H[h].e = clk++; }
static void tick(int s) { int h = nh++; H[h] = (ev){TICK, -1, s, 0, clk++, 1000, 0}; mc_advance_ms((uint64_t)s * 1000); H[h].e = clk++; }

static void verify(void) {
    int keys = 0;
    for (int i = 0; i < nh; i++) if (H[i].op == PUT) keys |= 1 << H[i].key;
    int evicts = __builtin_popcount((unsigned)keys) > cap;
    for (int g = 0; g < nh; g++) {
        if (H[g].op != GET) continue;
        if (H[g].ver >= 0) {
            int p = -1;
            for (int i = 0; i < nh; i++) if (H[i].op == PUT && H[i].key == H[g].key && H[i].ver == H[g].ver && H[i].s < H[g].e) p = i;
            if (p < 0) mc_fail("content-from-nowhere", "version %d was never stored before", H[g].ver);
            for (int i = 0; i < nh; i++) {
                if (i == p || H[i].s < H[p].e || H[i].e > H[g].s) continue;
                if ((H[i].op == PUT || H[i].op == INV) && H[i].key == H[g].key) mc_fail("stale-content", "lookup returned version %d of %s, which had been %s before it began", H[g].ver, KEY[H[g].key], H[i].op == PUT ? "replaced" : "invalidated");
                if (H[i].op == TICK && H[p].ttl > 0 && H[i].ver >= H[p].ttl) mc_fail("expired-content", "lookup returned version %d of %s after it expired", H[g].ver, KEY[H[g].key]);
            }
        } else if (!evicts) {
            /* a store that nothing can have undone must be found */
            for (int p = 0; p < nh; p++) {
                if (H[p].op != PUT || H[p].key != H[g].key || H[p].e > H[g].s) continue;
                int undone = 0;
                for (int i = 0; i < nh; i++) if (i != p && i != g && H[i].e > H[p].s && H[i].s < H[g].e && (((H[i].op == PUT || H[i].op == INV) && H[i].key == H[g].key) || (H[i].op == TICK && H[p].ttl >= 0))) undone = 1;
                if (!undone) mc_fail("lost-entry", "version %d of %s was stored and not found", H[p].ver, KEY[H[p].key]);
            }
        }
    }
}
static int t[4], nt;
static void go(void (*f)(void *)) { t[nt++] = mc_spawn(f, 0); }
static void begin(int c) { cap = c; P = mcp_object_pool_create(sizeof(mcp_content_item_t), 2, 0); C = mcp_cache_create((size_t)c, 60); }
static void end(void) {
    for (int i = 0; i < nt; i++) mc_join(t[i]);
    int hits = 0, items = 0;
    size_t use = 0;
    mcp_object_pool_get_stats(P, NULL, NULL, &use, NULL);
    for (int k = 0; k < 3; k++) { int v = get(k); if (v >= 0) { hits++; items += held(v); } mc_outcome("%s=%d", KEY[k], v); }
    if (hits > cap) mc_fail("over-capacity", "%d entries with capacity %d", hits, cap);
    if ((int)use < items) mc_fail("items-held", "%zu items held for %d in the cache", use, items);
    verify();
    for (int k = 0; k < 3; k++) { mcp_cache_invalidate(C, KEY[k]); }
    mcp_object_pool_get_stats(P, NULL, NULL, &use, NULL);
    if (use) mc_fail("items-left", "%zu content items are held by an empty cache", use);
    for (int k = 0; k < cap; k++) put(k, 20 + k, -1);
    for (int k = 0; k < cap; k++) if (get(k) != 20 + k) mc_fail("broken-afterwards", "entry stored afterwards not found");
    mcp_cache_destroy(C);
    mcp_object_pool_destroy(P);
}
static void ga(void *x) { (void)x; get(0); }
static void ga2(void *x) { (void)x; get(0); get(0); }
static void pa1(void *x) { (void)x; put(0, 1, 0); }
static void pa24(void *x) { (void)x; put(0, 2, 0); put(0, 4, 0); }
static void pb(void *x) { (void)x; put(1, 3, 0); }
static void pc(void *x) { (void)x; put(2, 5, 0); }
static void pa_inv(void *x) { (void)x; put(0, 1, 0); inv(0); }
static void ia(void *x) { (void)x; inv(0); }
static void t1(void *x) { (void)x; tick(1); }
static void pr(void *x) { (void)x; prune(); }
static void pgb(void *x) { (void)x; put(1, 3, 0); get(1); get(0); }
static void s_replace(void) { begin(2); put(0, 0, 0); go(ga); go(pa1); go(ga); end(); }
static void s_replace2(void) { begin(2); put(0, 1, 0); go(ga2); go(pa24); end(); }
static void s_invalidate(void) { begin(2); put(0, 1, 0); go(ga2); go(ia); go(pa1); end(); }
static void s_stale(void) { begin(2); put(0, 2, 0); go(ga2); go(pa_inv); end(); }
static void s_evict(void) { begin(1); put(0, 1, 0); go(ga2); go(pb); go(pc); end(); }
static void s_full(void) { begin(2); put(0, 1, 0); go(pgb); go(pc); go(ga); end(); }
static void s_expire(void) { begin(2); put(0, 1, 1); put(1, 2, -1); go(ga2); go(t1); go(pr); end(); }
static void s_renew(void) { begin(2); put(0, 1, 1); go(ga2); go(t1); go(pa24); end(); }
static void s_prune(void) { begin(2); put(0, 1, 1); tick(1); go(pr); go(pa24); go(ga); end(); }
static void gk(void *x) { get((int)(long)x); }
/* lookups of several keys at once, then the cache is filled with others: each store must push out exactly one entry */
static void s_order(void) {
    begin(3); for (int k = 0; k < 3; k++) put(k, 2 * k, 0);
    int a = mc_choose_free(3), b = (a + 1 + mc_choose_free(2)) % 3, u = mc_spawn(gk, (void *)(long)a), w = mc_spawn(gk, (void *)(long)b); mc_join(u); mc_join(w);
    for (int k = 3; k < 6; k++) {
        size_t use = 0; put(k, 2 * k, 0); mcp_object_pool_get_stats(P, NULL, NULL, &use, NULL);
        if (use != 3) mc_fail(use > 3 ? "over-capacity" : "lost-entry", "%d content items are held by a cache of 3 after storing %d entries of one item", (int)use, k + 1);
        if (get(k) != 2 * k) mc_fail("lost-entry", "an entry just stored is not found");
    }
    for (int k = 0; k < 6; k++) if ((get(k) >= 0) != (k >= 3)) mc_fail(k < 3 ? "over-capacity" : "lost-entry", "entry %d is %s after three others were stored in a cache of 3", k, k < 3 ? "found" : "not found");
    verify(); mcp_cache_destroy(C); mcp_object_pool_destroy(P);
}
static const mc_scenario S[] = {
    {"replace", 0, s_replace, 2, 4, 0, "2 lookups during a replacement by a larger content"},
    {"replace-twice", 0, s_replace2, 3, 5, 0, "2 lookups by one thread during 2 replacements"},
    {"invalidate", 0, s_invalidate, 2, 4, 0, "lookups, an invalidation and a store of one key"},
    {"stale", 0, s_stale, 4, 6, 0, "lookups during store then invalidate"},
    {"evict", 0, s_evict, 2, 3, 0, "capacity 1: lookups while other stores evict the entry"},
    {"full", 0, s_full, 2, 3, 0, "capacity 2, 3 keys stored and looked up"},
    {"order", 0, s_order, 2, 4, 0, "2 of 3 keys looked up at once, then three others stored"},
    {"expire", 0, s_expire, 3, 5, 0, "lookups while the entry expires and is pruned"},
    {"renew", 0, s_renew, 2, 4, 0, "lookups of an expiring entry that is stored anew"},
    {"prune", 0, s_prune, 2, 4, 0, "pruning against stores and lookups"},
};
int main(int c, char **v) { return mc_main(c, v, S, sizeof S / sizeof *S); }
