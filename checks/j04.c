/* J04: every history of validations on one schema cache, against a reference that judges without a cache. */
#include "seqx.h"
#include "refjson.h"
#include "mcp_json.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const char *SC[] = {
    "{\"required\":[\"ab\"]}", "{\"required\":[\"bA\"]}",          /* equal in length and in many a hash */
    "{\"required\":[\"ab\",\"c\"]}", "{\"type\":\"object\"}", "{\"required\":[]}", "{\"required\":[7,\"c\"]}", "{\"required\":\"ab\"}",
    "{\"required\":[\"\"]}", "[\"ab\"]", "5", "{\"required\":[\"ab\"]", "", "{ \"required\":[\"ab\"]}", "{\"x\":1,\"required\":[\"c\",\"c\"]}", "{\"properties\":{\"required\":[\"q\"]}}",
};
static const char *DO[] = {
    "{}", "{\"ab\":1}", "{\"bA\":null}", "{\"ab\":{},\"c\":\"\",\"bA\":[]}", "{\"c\":false}", "[\"ab\"]", "5", "null", "{\"ab\":", "", "{\"\":1}", "{\"AB\":1,\"abc\":2}", "{\"name\": \"John Doe\"}", "{\"x\":{\"ab\":1}}", "{\"c\":0,\"ab\":0}",
};
#define NS ((int)(sizeof SC / sizeof *SC))
#define ND ((int)(sizeof DO / sizeof *DO))
static int good[NS], verdict[NS][ND];
static void setup(void) {     /* the verdicts, from the reference parser alone */
    for (int s = 0; s < NS; s++) for (int d = 0; d < ND; d++) {
        rj_used = 0;
        rj *v = rj_parse_keep(SC[s]), *w = rj_parse_keep(DO[d]);
        good[s] = v != NULL;
        int ok = v && w;
        rj *q = v && v->t == 'o' ? rj_get(v, "required") : NULL;
        if (ok && q && q->t == 'a') for (int i = 0; i < q->cnt; i++) if (q->it[i]->t == 's' && !(w->t == 'o' && rj_get(w, q->it[i]->s))) ok = 0;
        verdict[s][d] = ok ? 0 : -1;
    }
}
static mcp_json_schema_cache_t *C;
static long live0, asked, hits; static int lru[NS], nl, cap, twins;
static void start(int capacity) {
    live0 = sx_live(); asked = hits = nl = twins = 0; cap = capacity;
    mcp_arena_init_current_thread(4096);
    C = mcp_json_schema_cache_create((size_t)capacity); SX_CHECK(C, "create", "no cache");
}
static void stats(void) {
    size_t n = 0, c = 0, h = 0, m = 0;
    SX_CHECK(mcp_json_schema_cache_get_stats(C, &n, &c, &h, &m) == 0, "stats", "no statistics");
    SX_CHECK((int)c == cap && (int)n <= cap, "size", "%d schemas held, %d allowed", (int)n, cap);
    SX_CHECK((long)(h + m) == asked, "counts", "%d hits and %d misses after %ld validations", (int)h, (int)m, asked);
    if (twins != 3) { SX_CHECK((int)n == nl, "size", "%d schemas held, expected %d", (int)n, nl); SX_CHECK((long)h == hits, "counts", "%d hits, expected %ld", (int)h, hits); }
}
static void ask(int s, int d) {
    char *st = strdup(SC[s]), *dt = strdup(DO[d]);
    int r = mcp_json_schema_validate_cached(C, dt, st); sx_op();
    free(st); free(dt);
    SX_CHECK((r == 0) == (verdict[s][d] == 0), "verdict", "%s against %s: %d, expected %d", DO[d], SC[s], r, verdict[s][d]);
    asked++; if (s < 2) twins |= 1 << s;
    int at = -1; for (int i = 0; i < nl; i++) if (lru[i] == s) at = i;
    if (at >= 0) hits++; else if (good[s]) { if (nl == cap) nl--; at = nl++; }
    if (at >= 0) { memmove(lru + 1, lru, (size_t)at * sizeof *lru); lru[0] = s; }
    stats();
}
static void other(int k) {
    if (k == 0) { mcp_json_schema_cache_clear(C); nl = 0; sx_note(" clear"); stats(); }
    else if (k == 1) {   /* the arena's memory is used for something else */
        mcp_arena_reset_current_thread(); char *p = mcp_arena_alloc(mcp_arena_get_current(), 2000); if (p) memset(p, 0x5a, 2000); mcp_arena_reset_current_thread(); sx_note(" reset");
    } else { mcp_arena_destroy_current_thread(); mcp_arena_init_current_thread(4096); sx_note(" arena"); }
}
static void end(void) {
    mcp_json_schema_cache_destroy(C); mcp_arena_destroy_current_thread();
    SX_CHECK(sx_live() <= live0, "leak", "%ld blocks not released", sx_live() - live0);
}
static void every_run(void) { int s = sx_choose(NS), d = sx_choose(ND); start(2); for (int i = 0; i < 3; i++) { ask(s, d); if (i < 2) other(sx_choose(3)); } end(); }
static void pairs_run(void) {
    int s = sx_choose(NS), d = sx_choose(ND), s2 = sx_choose(NS), d2 = sx_choose(ND), o = sx_choose(4); start(1 + sx_choose(2));
    ask(s, d); if (o < 3) other(o); ask(s2, d2); ask(s, d); end();
}
static void history_run(void) {
    static const int D[] = {1, 2, 3};
    int depth = sx_thorough() ? 6 : 5, n = sx_thorough() ? 5 : 4, dn = sx_thorough() ? 3 : 2; start(1 + sx_choose(3));
    for (int i = 0; i < depth; i++) {
        int op = sx_choose(n * dn + 2);
        if (op < n * dn) { int s = op / dn; sx_note(" %d/%d", s, D[op % dn]); ask(s, D[op % dn]); } else other(op - n * dn == 0 ? 0 : 2);
    }
    end();
}
static void many_run(void) {      /* more schemas than fit, twice around, in both directions */
    int n = 1 + sx_choose(40), c = 1 + sx_choose(30), back = sx_choose(2), o = sx_choose(3); long h = 0;
    start(c);
    for (int round = 0; round < 2; round++) {
        for (int k = 0; k < n; k++) {
            int i = round && back ? n - 1 - k : k; char s[64], d[64]; sprintf(s, "{\"required\":[\"p%d\"]}", i);
            for (int y = 0; y < 2; y++) {
                sprintf(d, "{\"p%d\":%d}", y ? i : i + 1, k);
                int r = mcp_json_schema_validate_cached(C, d, s); sx_op();
                SX_CHECK((r == 0) == (y == 1), "verdict", "%s against %s: %d", d, s, r);
                h++;
            }
        }
        if (o < 2) other(o + 1);
    }
    size_t sz, hi, mi; mcp_json_schema_cache_get_stats(C, &sz, NULL, &hi, &mi);
    SX_CHECK((long)sz == (n < c ? n : c) && (long)(hi + mi) == h, "size", "%d schemas held of %d, %d allowed", (int)sz, n, c);
    end();
}
static void memory_run(void) {    /* every allocation of the second validation fails in turn: refused or right, and the cache stays usable */
    int s = sx_choose(8), d = 1 + sx_choose(3), k = sx_choose(60);
    start(1 + sx_choose(2)); ask(3, 0);
    sx_alloc_fail(k);
    int r = mcp_json_schema_validate_cached(C, DO[d], SC[s]);
    sx_alloc_fail(-1); sx_op();
    SX_CHECK(r != 0 || verdict[s][d] == 0, "verdict", "%s against %s: accepted when allocation %d fails", DO[d], SC[s], k);
    for (int i = 0; i < 2; i++) for (int q = 0; q < 4; q++) { int r2 = mcp_json_schema_validate_cached(C, DO[d], SC[q]); SX_CHECK((r2 == 0) == (verdict[q][d] == 0), "verdict", "%s against %s: %d afterwards", DO[d], SC[q], r2); }
    end();
}
static const sx_scenario S[] = {
    {"every", setup, every_run, 0, "15 schemas x 15 documents, three times, with clearing and the thread's arena reset or replaced in between"},
    {"pairs", setup, pairs_run, 0, "all pairs of schema and document, the first again after the second, capacity 1-2"},
    {"history", setup, history_run, 0, "all histories of 5 (thorough 6) validations, clearing and arena changes, capacity 1-3"},
    {"many", setup, many_run, 0, "1-40 schemas on a cache of 1-30, twice around"},
    {"memory", setup, memory_run, 0, "each allocation of a validation fails in turn"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
