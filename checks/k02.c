/* K02: the content cache against a reference of recency order and expiry, all sequences. */
#include "seqx.h"
#include "mcp_cache.h"
#include "mcp_object_pool.h"
#include "mcp_types.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NK 6
static const char *KEY[NK] = {"res://a", "res://b", "", "res://a/b", "res://c", "RES://a"};
typedef struct { int key, ver; long exp; } ent;            /* exp 0: never */
typedef struct { int n; ent e[24]; } st;                   /* most recently used first */
#define MAXS 64
static st S[MAXS], T[MAXS];
static int ns, nt;
static int held(int ver) { return 1 + (ver & 1); }
static mcp_resource_cache_t *C;
static mcp_object_pool_t *P;
static int cap;
static long deflt;

static void t_add(const st *s) {
    for (int i = 0; i < nt; i++) if (T[i].n == s->n && !memcmp(T[i].e, s->e, sizeof(ent) * (size_t)s->n)) return;
    SX_CHECK(nt < MAXS, "model", "too many candidate states");
    T[nt++] = *s;
}
static void t_commit(void) { memcpy(S, T, sizeof(st) * (size_t)nt); ns = nt; nt = 0; }
static long now_s(void) { return (long)((sx_ms + SX_EPOCH_MS) / 1000); }
static int dead(const ent *e) { return e->exp && now_s() >= e->exp; }
static int find(const st *s, int key) { for (int i = 0; i < s->n; i++) if (s->e[i].key == key) return i; return -1; }
static void drop(st *s, int i) { memmove(s->e + i, s->e + i + 1, sizeof(ent) * (size_t)(s->n - i - 1)); s->n--; memset(&s->e[s->n], 0, sizeof(ent)); }
static void front(st *s, ent x) { memmove(s->e + 1, s->e, sizeof(ent) * (size_t)s->n); s->e[0] = x; s->n++; }

/* the content stored as version v */
static size_t fill(int v, int i, char *d, const char **mime, mcp_content_type_t *ty) {
    if (i == 0) { *ty = MCP_CONTENT_TYPE_TEXT; *mime = "text/plain"; return (size_t)snprintf(d, 32, "version %d", v) + 1; }
    *ty = MCP_CONTENT_TYPE_BINARY; *mime = v & 4 ? NULL : "x/\xc3\xa9";
    if (v & 2) return 0;
    d[0] = 0; d[1] = (char)v; d[2] = 0; d[3] = (char)255; return 4;
}
static int do_put(int k, int v, int ttl) {
    mcp_content_item_t it[2], *p[2]; char d[2][32];
    memset(it, 0, sizeof it);
    for (int i = 0; i < held(v); i++) {
        const char *m; it[i].data_size = fill(v, i, d[i], &m, &it[i].type);
        it[i].mime_type = (char *)m; it[i].data = it[i].data_size ? d[i] : NULL; p[i] = &it[i];
    }
    return mcp_cache_put(C, KEY[k], P, p, (size_t)held(v), ttl);
}
/* -1 miss, otherwise the version */
static int do_get(int k) {
    mcp_content_item_t **c = NULL; size_t n = 0;
    int r = mcp_cache_get(C, KEY[k], P, &c, &n);
    if (r != 0) { SX_CHECK(!c && !n, "miss-output", "a miss returned content"); return -1; }
    SX_CHECK(c && n >= 1, "hit-empty", "a hit without content");
    int v = -1;
    SX_CHECK(c[0] && c[0]->data && c[0]->data_size > 8 && sscanf(c[0]->data, "version %d", &v) == 1, "hit-content", "unknown content under '%s'", KEY[k]);
    SX_CHECK((int)n == held(v), "hit-count", "version %d returned with %zu items", v, n);
    for (size_t i = 0; i < n; i++) {
        char d[32]; const char *m; mcp_content_type_t ty; size_t len = fill(v, (int)i, d, &m, &ty);
        SX_CHECK(c[i]->type == ty && c[i]->data_size == len && (!len || !memcmp(c[i]->data, d, len)), "hit-content", "item %zu of version %d is altered", i, v);
        SX_CHECK(!strcmp(c[i]->mime_type ? c[i]->mime_type : "", m ? m : ""), "hit-mime", "media type of item %zu of version %d is '%s'", i, v, c[i]->mime_type);
        mcp_content_item_release_pooled(P, c[i]);
    }
    free(c);
    return v;
}
static void keep_by_usage(const char *after) {
    size_t use = 0;
    mcp_object_pool_get_stats(P, NULL, NULL, &use, NULL);
    nt = 0;
    for (int i = 0; i < ns; i++) { size_t h = 0; for (int j = 0; j < S[i].n; j++) h += (size_t)held(S[i].e[j].ver); if (h == use) t_add(&S[i]); }
    SX_CHECK(nt, "items-held", "%zu content items are held after %s; no admissible content of the cache explains that", use, after);
    t_commit();
}
static void m_put(int k, int v, int ttl) {
    nt = 0;
    long t = ttl ? ttl : deflt;
    ent x; memset(&x, 0, sizeof x);
    x.key = k; x.ver = v; x.exp = t > 0 ? now_s() + t : 0;
    for (int i = 0; i < ns; i++) {
        if (cap == 0) { t_add(&S[i]); continue; }
        st s = S[i];
        int f = find(&s, k);
        if (f >= 0) { drop(&s, f); front(&s, x); t_add(&s); continue; }
        if (s.n < cap) { st u = s; front(&u, x); t_add(&u); }
        else { st u = s; drop(&u, u.n - 1); front(&u, x); t_add(&u); }
        st all = s; int any = 0;
        for (int j = s.n - 1; j >= 0; j--) if (dead(&s.e[j])) { any = 1; drop(&all, j); if (s.n >= cap) { st u = s; drop(&u, j); front(&u, x); t_add(&u); } }
        if (any) { front(&all, x); t_add(&all); }
    }
    t_commit();
}
static void m_get(int k, int v) {
    nt = 0;
    int want = -2;
    for (int i = 0; i < ns; i++) {
        st s = S[i];
        int f = find(&s, k);
        int live = f >= 0 && !dead(&s.e[f]);
        want = live ? s.e[f].ver : -1;
        if (want != v) continue;
        if (live) { ent x = s.e[f]; drop(&s, f); front(&s, x); t_add(&s); }
        else { t_add(&s); if (f >= 0) { drop(&s, f); t_add(&s); } }
    }
    SX_CHECK(nt, v < 0 ? "miss-of-live-entry" : want < 0 ? "hit-of-dead-entry" : "stale-content", "lookup of '%s' gave version %d, expected %d (-1: miss)", KEY[k], v, want);
    t_commit();
}
static void m_inv(int k, int r) {
    nt = 0;
    for (int i = 0; i < ns; i++) {
        st s = S[i];
        int f = find(&s, k);
        if (f < 0) { if (r != 0) t_add(&s); continue; }
        if (r == 0 || dead(&s.e[f])) { drop(&s, f); t_add(&s); }
    }
    SX_CHECK(nt, "invalidate-result", "invalidating '%s' returned %d", KEY[k], r);
    t_commit();
}
static void m_prune(size_t r) {
    nt = 0;
    for (int i = 0; i < ns; i++) {
        st s = S[i]; size_t c = 0;
        for (int j = s.n - 1; j >= 0; j--) if (dead(&s.e[j])) { drop(&s, j); c++; }
        if (c == r) t_add(&s);
    }
    SX_CHECK(nt, "prune-count", "pruning reported %zu removed", r);
    t_commit();
}
static long live0;
static void begin(int c, long d) {
    cap = c; deflt = d; ns = 1; memset(S, 0, sizeof S[0]);
    live0 = sx_live();
    P = mcp_object_pool_create(sizeof(mcp_content_item_t), 2, 0);
    C = mcp_cache_create((size_t)c, (time_t)d);
    SX_CHECK(P && C, "create", "creation failed");
}
static void end(int keys) {
    for (int k = 0; k < keys; k++) { int v = do_get(k); m_get(k, v); keep_by_usage("the final lookups"); sx_op(); }
    mcp_cache_destroy(C);
    size_t use = 0;
    mcp_object_pool_get_stats(P, NULL, NULL, &use, NULL);
    SX_CHECK(use == 0, "items-left", "%zu content items are still held after destroying the cache", use);
    mcp_object_pool_destroy(P);
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks left behind", sx_live() - live0);
}
static void note_state(void) {
    struct { int cap; st s; } x; memset(&x, 0, sizeof x);
    x.cap = cap; x.s.n = S[0].n;
    for (int i = 0; i < S[0].n; i++) { x.s.e[i] = S[0].e[i]; x.s.e[i].ver &= 7; if (x.s.e[i].exp) x.s.e[i].exp -= now_s() - 100; }
    sx_state(&x, sizeof x);
}
static void step(int keys, int *ver) {
    int op = sx_choose(5 * keys + 2);
    sx_op();
    if (op < 3 * keys) {
        static const int TTL[3] = {0, 1, -1};
        int k = op / 3, ttl = TTL[op % 3], v = (*ver)++;
        sx_note(" put(%d,v%d,ttl %d)", k, v, ttl);
        SX_CHECK(do_put(k, v, ttl) == 0, "put-failed", "storing failed");
        m_put(k, v, ttl);
    } else if (op < 4 * keys) { int k = op - 3 * keys, v = do_get(k); sx_note(" get(%d)=%d", k, v); m_get(k, v); }
    else if (op < 5 * keys) { int k = op - 4 * keys, r = mcp_cache_invalidate(C, KEY[k]); sx_note(" inv(%d)=%d", k, r); m_inv(k, r); }
    else if (op == 5 * keys) { size_t r = mcp_cache_prune_expired(C); sx_note(" prune=%zu", r); m_prune(r); }
    else { sx_ms += 1000; sx_note(" +1s"); }
    keep_by_usage("an operation");
    SX_CHECK(S[0].n <= cap, "over-capacity", "%d entries with capacity %d", S[0].n, cap);
    note_state();
}
static void ops_run(void) {
    static const int CAP[] = {1, 2, 0};
    static const long DEF[] = {2, 0, -1};
    int c = CAP[sx_choose(3)];
    long d = DEF[sx_choose(c == 2 ? 3 : 1)];
    begin(c, d);
    sx_note("capacity %d default ttl %ld:", c, d);
    int depth = sx_thorough() ? c == 2 ? 6 : 5 : c == 2 && d == 2 ? 5 : 4, ver = 0;
    for (int i = 0; i < depth; i++) step(3, &ver);
    end(3);
}
/* a cache of 3 that starts full, with mixed expiry */
static void full_run(void) {
    begin(3, 2);
    int ver = 0;
    for (int k = 0; k < 3; k++) { static const int TTL[] = {1, 2, -1}; int t = TTL[sx_choose(3)]; do_put(k, ver, t); m_put(k, ver, t); ver++; }
    int depth = sx_thorough() ? 5 : 4;
    for (int i = 0; i < depth - 1; i++) step(4, &ver);
    end(4);
}
/* many entries: table growth, pruning of many, eviction of exactly the oldest */
static void many_run(void) {
    int c = 1 + sx_choose(40), n = 1 + sx_choose(48), mode = sx_choose(4), touch = sx_choose(3);
    cap = c; deflt = 5; live0 = sx_live();
    P = mcp_object_pool_create(sizeof(mcp_content_item_t), 0, 0);
    C = mcp_cache_create((size_t)c, 5);
    char uri[32], d[32];
    mcp_content_item_t it, *p = &it;
    long exp[64]; int order[64], no = 0;      /* least recently used first */
    sx_note("capacity %d, %d entries, mode %d touch %d", c, n, mode, touch);
    for (int i = 0; i < n; i++) {
        memset(&it, 0, sizeof it);
        it.type = MCP_CONTENT_TYPE_TEXT; it.data = d; it.data_size = (size_t)snprintf(d, sizeof d, "d%d", i) + 1; it.mime_type = (char *)"t/p";
        int ttl = mode == 0 ? 0 : mode == 1 ? 1 : mode == 2 ? (i & 1 ? 1 : 3) : -1;
        snprintf(uri, sizeof uri, "u://%d", i * 16);
        SX_CHECK(mcp_cache_put(C, uri, P, &p, 1, ttl) == 0, "put-failed", "storing entry %d failed", i);
        exp[i] = ttl < 0 ? 0 : now_s() + (ttl ? ttl : 5);
        if (no == c) { memmove(order, order + 1, sizeof(int) * (size_t)--no); }
        order[no++] = i;
        if (touch && i % touch == 0 && no > 1) {          /* use the oldest again */
            int o = order[0]; snprintf(uri, sizeof uri, "u://%d", o * 16);
            mcp_content_item_t **cc; size_t cn;
            SX_CHECK(mcp_cache_get(C, uri, P, &cc, &cn) == 0, "miss-of-live-entry", "entry %d of %d lost", o, i);
            mcp_content_item_release_pooled(P, cc[0]); free(cc);
            memmove(order, order + 1, sizeof(int) * (size_t)(no - 1)); order[no - 1] = o;
        }
        sx_op();
    }
    sx_ms += 1000;
    size_t want = 0;
    for (int j = 0; j < no; j++) want += exp[order[j]] && now_s() >= exp[order[j]];
    size_t got = mcp_cache_prune_expired(C);
    SX_CHECK(got == want, "prune-count", "pruned %zu of %zu expired", got, want);
    for (int i = 0; i < n; i++) {
        int in = 0;
        for (int j = 0; j < no; j++) if (order[j] == i && !(exp[i] && now_s() >= exp[i])) in = 1;
        snprintf(uri, sizeof uri, "u://%d", i * 16);
        mcp_content_item_t **cc; size_t cn;
        int r = mcp_cache_get(C, uri, P, &cc, &cn);
        SX_CHECK((r == 0) == in, in ? "miss-of-live-entry" : "hit-of-dead-entry", "entry %d of %d", i, n);
        if (r == 0) {
            snprintf(d, sizeof d, "d%d", i);
            SX_CHECK(cn == 1 && !strcmp(cc[0]->data, d), "hit-content", "entry %d has other content", i);
            mcp_content_item_release_pooled(P, cc[0]); free(cc);
        }
    }
    mcp_cache_destroy(C); mcp_object_pool_destroy(P);
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks left behind", sx_live() - live0);
    int key[4] = {c, n, mode, touch}; sx_state(key, sizeof key);
}
/* one allocation fails at every possible point */
static void oom_run(void) {
    begin(2, 2);
    int ver = 0, vers[NK][8], nv[NK] = {0}, depth = sx_thorough() ? 5 : 4;
    int armed = 0;
    for (int i = 0; i < depth; i++) {
        int op = sx_choose(3 * 3 + 2);
        if (!armed && sx_choose(2)) { armed = 1; sx_alloc_fail(sx_choose(9)); }
        sx_op();
        if (op < 3) { vers[op][nv[op]++] = ver; sx_note(" put(%d,v%d)", op, ver); do_put(op, ver++, 1); }
        else if (op < 6) {
            int v = do_get(op - 3), ok = v < 0; sx_note(" get(%d)=%d", op - 3, v);
            for (int j = 0; j < nv[op - 3]; j++) ok |= vers[op - 3][j] == v;
            SX_CHECK(ok, "stale-content", "content of another key");
        } else if (op < 9) { sx_note(" inv(%d)", op - 6); mcp_cache_invalidate(C, KEY[op - 6]); }
        else if (op == 9) { sx_note(" prune"); mcp_cache_prune_expired(C); }
        else { sx_ms += 1000; sx_note(" +1s"); }
    }
    sx_alloc_fail(-1);
    /* still a working cache */
    for (int k = 0; k < 3; k++) { do_put(k, 90 + k, -1); SX_CHECK(do_get(k) == 90 + k, "broken-after-failure", "the entry just stored is not found"); }
    SX_CHECK(do_get(0) < 0 && do_get(1) == 91 && do_get(2) == 92, "broken-after-failure", "eviction is wrong after a failed allocation");
    mcp_cache_destroy(C);
    size_t use = 0;
    mcp_object_pool_get_stats(P, NULL, NULL, &use, NULL);
    SX_CHECK(use == 0, "items-left", "%zu content items are still held after destroying the cache", use);
    mcp_object_pool_destroy(P);
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks left behind", sx_live() - live0);
}
static const sx_scenario SC[] = {
    {"ops", 0, ops_run, 0, "capacities 0-2, 3 keys, default lifetimes 2 s/none/never: all sequences of store (3 lifetimes), lookup, invalidation, pruning, time"},
    {"full", 0, full_run, 0, "capacity 3 starting full with every mix of lifetimes, 4 keys"},
    {"many", 0, many_run, 0, "capacities 1-40, 1-48 entries: growth, recency, pruning"},
    {"oom", 0, oom_run, 0, "one failed allocation at every point of every short sequence"},
};
int main(int c, char **v) { return sx_main(c, v, SC, sizeof SC / sizeof *SC); }
