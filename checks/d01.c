/* D01: all sequences of hash table operations up to a bound against a plain array of pairs, with colliding keys and growth at every size. */
#include "seqx.h"
#include "mcp_hashtable.h"
#include "mcp_memory_pool.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NK 5
static const char *KEY[NK] = {"a", "b", "", "abcd", "abcde"};
static int hkind, with_free;
static int keys_live, values_live, nvalues;
typedef struct { int id, live; } val; static val V[4096];
static mcp_hashtable_t *T;
static int R[NK];                                  /* value under each key, -1 none */

static int index_of(const char *k) { for (int i = 0; i < NK; i++) if (!strcmp(KEY[i], k)) return i; sx_fail("key", "the table hands a key that nobody put: %.20s", k); return 0; }
static unsigned long hash(const void *k) { int i = index_of(k); return hkind == 0 ? 7 : hkind == 1 ? (unsigned long)(i % 2) : hkind == 2 ? (unsigned long)i * 4 : (unsigned long)i + (~0UL << 3); }
static bool same(const void *a, const void *b) { return !strcmp(a, b); }
static int dup_fails;
static void *copy(const void *k) { if (dup_fails) return NULL; keys_live++; char *c = malloc(strlen(k) + 1); if (!c) { keys_live--; return NULL; } strcpy(c, k); return c; }
static void undup(void *k) { keys_live--; free(k); }
static void release(void *v) { val *p = v; SX_CHECK(p->live, "released-twice", "value %d is released again", p->id); p->live = 0; values_live--; }
static val *fresh(void) { val *v = &V[nvalues]; v->id = nvalues++; v->live = 1; values_live++; return v; }

static int seen[NK], visits;
static void visit(const void *k, void *v, void *ud) { SX_CHECK(ud == &visits, "iteration", "the callback gets other data"); int i = index_of(k); SX_CHECK(!seen[i]++, "visited-twice", "%s is visited twice", KEY[i]); SX_CHECK(R[i] >= 0 && v == &V[R[i]], "visited-wrong", "%s is visited with another value", KEY[i]); visits++; }
static void check(void) {
    int n = 0;
    for (int i = 0; i < NK; i++) {
        void *v = (void *)1; int r = mcp_hashtable_get(T, KEY[i], &v); n += R[i] >= 0; sx_op();
        SX_CHECK((r == 0) == (R[i] >= 0), R[i] >= 0 ? "lost" : "found", "%s is %s", KEY[i], r == 0 ? "found although it is not there" : "not found");
        if (r == 0) SX_CHECK(v == &V[R[i]], "value", "%s holds value %d instead of %d", KEY[i], ((val *)v)->id, R[i]);
        SX_CHECK(mcp_hashtable_contains(T, KEY[i]) == (R[i] >= 0), "contains", "%s", KEY[i]);
        if (with_free && R[i] >= 0) SX_CHECK(V[R[i]].live, "released-early", "the value of %s has been released", KEY[i]);
    }
    SX_CHECK(mcp_hashtable_size(T) == (size_t)n, "size", "size %zu with %d entries", mcp_hashtable_size(T), n);
    memset(seen, 0, sizeof seen); visits = 0; mcp_hashtable_foreach(T, visit, &visits);
    SX_CHECK(visits == n, "not-visited", "%d of %d entries are visited", visits, n);
    SX_CHECK(keys_live == n, "keys", "%d copies of keys for %d entries", keys_live, n);
    if (with_free) SX_CHECK(values_live == n, "values", "%d unreleased values for %d entries", values_live, n);
}
static void put(int k, int failing) {
    val *v = fresh(); char key[8]; strcpy(key, KEY[k]); dup_fails = failing == 1;
    if (failing >= 2) { dup_fails = 0; sx_alloc_fail(failing - 2); }
    int r = mcp_hashtable_put(T, key, v); sx_alloc_fail(-1); memset(key, 'z', sizeof key); sx_op();
    if (r == 0) { R[k] = v->id; SX_CHECK(v->live, "released-early", "the value put is released at once"); }
    else { SX_CHECK(failing, "put", "%s cannot be put", KEY[k]); SX_CHECK(v->live, "released-early", "a value that was not put is released"); v->live = 0; values_live--; }
    dup_fails = 0;
}
static void begin(int cap, float lf) {
    keys_live = values_live = nvalues = 0; for (int i = 0; i < NK; i++) R[i] = -1;
    T = mcp_hashtable_create((size_t)cap, lf, hash, same, copy, undup, with_free ? release : NULL); SX_CHECK(T, "create", "no table");
}
static void end(void) { mcp_hashtable_destroy(T); SX_CHECK(keys_live == 0, "leak", "%d keys outlive the table", keys_live); if (with_free) SX_CHECK(values_live == 0, "leak", "%d values outlive the table", values_live); }
static void ops_run(void) {
    static const int CAP[] = {1, 2, 3, 4, 0}; static const float LF[] = {0.75f, 0.3f, 0.99f, 0, 1};
    int c = sx_choose(5), lf = sx_choose(sx_thorough() ? 5 : 3); hkind = sx_choose(4); with_free = sx_flip(); begin(CAP[c], LF[lf]);
    int depth = sx_thorough() ? 6 : 5; long l0 = 0; (void)l0;
    sx_note("capacity %d, load %g, hash %d", CAP[c], (double)LF[lf], hkind);
    for (int d = 0; d < depth; d++) {
        int op = sx_choose(sx_thorough() ? 11 : 9);       /* quick: four keys */
        int nk = sx_thorough() ? 5 : 4;
        if (op < nk) { sx_note("put %s", KEY[op]); put(op, 0); }
        else if (op < 2 * nk) { int k = op - nk; sx_note("remove %s", KEY[k]); int r = mcp_hashtable_remove(T, KEY[k]); SX_CHECK((r == 0) == (R[k] >= 0), "remove", "removing %s says %d", KEY[k], r); R[k] = -1; sx_op(); }
        else { sx_note("clear"); mcp_hashtable_clear(T); for (int i = 0; i < NK; i++) R[i] = -1; sx_op(); }
        check();
    }
    end();
}
/* batches of up to three, with repeated keys, between other operations */
static void batch_run(void) {
    static const int CAP[] = {1, 2, 4};
    int c = sx_choose(3); hkind = sx_choose(4); with_free = sx_flip(); begin(CAP[c], 0.75f);
    for (int d = 0; d < (sx_thorough() ? 3 : 2); d++) {
        int kind = sx_choose(3), n = 1 + sx_choose(3), res[3], k[3]; const void *keys[3]; void *vals[3] = {0};
        if (kind == 2) n = 3;
        for (int i = 0; i < n; i++) { k[i] = kind == 2 ? (i * 2 + d) % NK : sx_choose(NK); keys[i] = KEY[k[i]]; }
        if (kind == 0) {
            for (int i = 0; i < n; i++) vals[i] = fresh();
            int r = mcp_hashtable_put_batch(T, keys, vals, (size_t)n); SX_CHECK(r == n, "put-batch", "%d of %d put", r, n); for (int i = 0; i < n; i++) R[k[i]] = ((val *)vals[i])->id;
        } else if (kind == 1) {
            int want = 0, there[3]; for (int i = 0; i < n; i++) { there[i] = R[k[i]] >= 0; want += there[i]; R[k[i]] = -1; }
            int r = mcp_hashtable_remove_batch(T, keys, (size_t)n, res); SX_CHECK(r == want, "remove-batch", "%d of %d removed", r, want); for (int i = 0; i < n; i++) SX_CHECK((res[i] == 0) == there[i], "remove-batch", "result %d is %d", i, res[i]);
        } else {
            int want = 0; for (int i = 0; i < n; i++) want += R[k[i]] >= 0;
            int r = mcp_hashtable_get_batch(T, keys, vals, (size_t)n, res); SX_CHECK(r == want, "get-batch", "%d of %d found", r, want); for (int i = 0; i < n; i++) { SX_CHECK((res[i] == 0) == (R[k[i]] >= 0), "get-batch", "result %d is %d", i, res[i]); if (!res[i]) SX_CHECK(vals[i] == &V[R[k[i]]], "get-batch", "value %d", i); }
        }
        sx_op(); check();
    }
    end();
}
/* a put that fails for want of memory changes nothing */
static void fault_run(void) {
    hkind = sx_choose(4); with_free = sx_flip(); begin(1 << sx_choose(3), sx_flip() ? 0.75f : 0.99f);
    for (int d = 0; d < (sx_thorough() ? 5 : 4); d++) { int k = sx_choose(4), f = sx_choose(4); sx_note("put %s%s", KEY[k], f == 1 ? ", its key cannot be copied" : f > 1 ? ", no memory" : ""); put(k, f); check(); }
    end();
}
/* growth with the keys that come with the table, with and without the memory pools */
static unsigned char present[600]; static long cnt;
static void visit_many(const void *k, void *v, void *ud) {
    int kind = (int)(long)ud; long i = kind == 0 ? atol((const char *)k + 4) : kind == 1 ? *(const int *)k - 100 : (long)k - 1;
    SX_CHECK(i >= 0 && i < 600 && present[i] == 1 && (long)v == i + 7, "visited-wrong", "entry %ld", i); present[i] = 2; cnt++;
}
static void many_run(void) {
    int kind = sx_choose(3), n = 1 + sx_choose(sx_thorough() ? 500 : 140), step = 1 + sx_choose(4), pools = sx_flip(), batch = sx_flip();
    long l0 = sx_live();
    if (pools) mcp_memory_pool_system_init(4, 2, 1);
    T = mcp_hashtable_create(batch ? 1 : 16, 0.75f, kind == 0 ? mcp_hashtable_string_hash : kind == 1 ? mcp_hashtable_int_hash : mcp_hashtable_ptr_hash, kind == 0 ? mcp_hashtable_string_compare : kind == 1 ? mcp_hashtable_int_compare : mcp_hashtable_ptr_compare,
        kind == 0 ? mcp_hashtable_string_dup : kind == 1 ? mcp_hashtable_int_dup : mcp_hashtable_ptr_dup, kind == 0 ? mcp_hashtable_string_free : kind == 1 ? mcp_hashtable_int_free : mcp_hashtable_ptr_free, NULL);
    SX_CHECK(T, "create", "no table"); memset(present, 0, sizeof present);
    static char text[600][12]; static int num[600]; static const void *K[600]; static void *W[600];
    for (int i = 0; i < n; i++) { sprintf(text[i], "key-%d", i); num[i] = i + 100; K[i] = kind == 0 ? (void *)text[i] : kind == 1 ? (void *)&num[i] : (void *)(long)(i + 1); W[i] = (void *)(long)(i + 7); present[i] = 1; }
    if (batch) SX_CHECK(mcp_hashtable_put_batch(T, K, W, (size_t)n) == n, "put-batch", "not all put"); else for (int i = 0; i < n; i++) SX_CHECK(mcp_hashtable_put(T, K[i], W[i]) == 0, "put", "entry %d", i);
    sx_op();
    for (int round = 0; round < 2; round++) {
        long want = 0; for (int i = 0; i < n; i++) want += present[i] != 0;
        SX_CHECK(mcp_hashtable_size(T) == (size_t)want, "size", "%zu instead of %ld", mcp_hashtable_size(T), want);
        for (int i = 0; i < n; i++) { char c[12]; int x = num[i]; strcpy(c, text[i]); void *v; int r = mcp_hashtable_get(T, kind == 0 ? (void *)c : kind == 1 ? (void *)&x : K[i], &v); SX_CHECK((r == 0) == (present[i] != 0), r ? "lost" : "found", "entry %d of %d", i, n); if (!r) SX_CHECK(v == W[i], "value", "entry %d", i); sx_op(); }
        for (int i = 0; i < n; i++) if (present[i]) present[i] = 1;
        cnt = 0; mcp_hashtable_foreach(T, visit_many, (void *)(long)kind); SX_CHECK(cnt == want, "not-visited", "%ld of %ld", cnt, want);
        for (int i = 0; i < n; i += step) if (present[i]) { SX_CHECK(mcp_hashtable_remove(T, K[i]) == 0, "remove", "entry %d", i); present[i] = 0; }
    }
    mcp_hashtable_destroy(T); mcp_hashtable_system_cleanup(); if (pools) mcp_memory_pool_system_cleanup();
    SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0);
}
/* the supplied key functions: equal keys are equal, different ones differ, wherever they lie */
static void keys_run(void) {
    char a[16] = {0}, b[24] = {0}; int off = sx_choose(4), n = sx_choose(7), m = sx_choose(7); static const char C[] = {'a', 'b', (char)0xc3};
    for (int i = 0; i < n; i++) a[i] = C[sx_choose(i > 3 ? 2 : 3)];
    if (m > n) m = n;
    memcpy(b + off, a, (size_t)n + 1); int change = sx_choose(2); if (change) { if (m < n) b[off + m] = b[off + m] == 'a' ? 'b' : 'a'; else strcat(b + off, "a"); }
    SX_CHECK(mcp_hashtable_string_compare(a, b + off) == (strcmp(a, b + off) == 0), "compare", "'%s' and '%s'", a, b + off);
    if (!change) SX_CHECK(mcp_hashtable_string_hash(a) == mcp_hashtable_string_hash(b + off), "hash", "'%s' hashes differently elsewhere", a);
    char *d = mcp_hashtable_string_dup(a); SX_CHECK(d && d != a && !strcmp(d, a), "copy", "'%s' is copied as '%s'", a, d); mcp_hashtable_string_free(d);
    static const int I[] = {0, 1, -1, 65536, 65537, -2147483647 - 1, 2147483647, 16}; int x = I[sx_choose(8)], y = I[sx_choose(8)];
    SX_CHECK(mcp_hashtable_int_compare(&x, &y) == (x == y) && (x != y || mcp_hashtable_int_hash(&x) == mcp_hashtable_int_hash(&y)), "integers", "%d and %d", x, y);
    int *e = mcp_hashtable_int_dup(&x); SX_CHECK(e && e != &x && *e == x, "copy", "%d is copied as %d", x, *e); mcp_hashtable_int_free(e); sx_op();
}
/* keys of every length in a range that differ in one byte, at any distance from the ends */
static void long_run(void) {
    static char a[5000], b[5000]; static const int at[] = {15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096};
    int n = at[sx_choose(16)] + sx_choose(3), k = sx_choose(5), where = k == 0 ? 0 : k == 1 ? n / 2 : k == 2 ? n - 1 : k == 3 ? n - 2 : n, grow = sx_flip();
    memset(a, 'k', sizeof a); memset(b, 'k', sizeof b); a[n] = b[n] = 0; if (where < n) b[where] = 'l'; else { b[n] = 'k'; b[n + 1] = 0; }
    mcp_hashtable_t *t = mcp_hashtable_create(grow ? 1 : 64, 0.75f, mcp_hashtable_string_hash, mcp_hashtable_string_compare, mcp_hashtable_string_dup, mcp_hashtable_string_free, NULL); SX_CHECK(t, "create", "no table"); void *v = NULL;
    SX_CHECK(mcp_hashtable_put(t, a, (void *)1) == 0 && mcp_hashtable_get(t, b, &v) != 0, "found", "a key of %d bytes is found by another that differs at %d", n, where);
    SX_CHECK(mcp_hashtable_put(t, b, (void *)2) == 0 && mcp_hashtable_size(t) == 2, "size", "two keys of %d bytes give %zu entries", n, mcp_hashtable_size(t));
    static char c[5000]; strcpy(c, a); SX_CHECK(mcp_hashtable_get(t, c, &v) == 0 && v == (void *)1 && mcp_hashtable_get(t, b, &v) == 0 && v == (void *)2, "lost", "a key of %d bytes", n);
    SX_CHECK(mcp_hashtable_remove(t, a) == 0 && mcp_hashtable_get(t, b, &v) == 0 && mcp_hashtable_get(t, a, &v) != 0, "removed", "a key of %d bytes", n); mcp_hashtable_destroy(t); sx_op();
    SX_CHECK(mcp_hashtable_string_compare(a, c) && !mcp_hashtable_string_compare(a, b) && mcp_hashtable_string_hash(a) == mcp_hashtable_string_hash(c), "compare", "keys of %d bytes that differ at %d", n, where);
}
static const sx_scenario S[] = {
    {"ops", NULL, ops_run, 0, "all sequences of 5 (thorough 6) operations on 4 (5) keys, 5 capacities, 3 (5) load factors, 4 hash functions"},
    {"batch", NULL, batch_run, 0, "all sequences of 2 (thorough 3) batches of up to 3 over 5 keys"},
    {"fault", NULL, fault_run, 0, "puts without memory at any point of 4 (thorough 5)"},
    {"many", NULL, many_run, 0, "1-140 (thorough 500) entries of each key type, removals at steps of 1-4, with and without the memory pools"},
    {"keys", NULL, keys_run, 0, "the supplied key functions on strings up to 6 bytes and boundary integers"},
    {"long", NULL, long_run, 0, "keys of 15 to 4098 bytes that differ in one byte at either end or the middle, or by one byte more"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
