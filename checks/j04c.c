/* J04: threads validate on one schema cache while it overflows, is cleared and its threads come and go. */
#include "mcrt.h"
#include "mcp_json.h"
#include "mcp_arena.h"
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* parsing and freeing a document touch nothing shared: one step each */
mcp_json_t *__real_mcp_json_parse(const char *);
mcp_json_t *__wrap_mcp_json_parse(const char *s) { mc_atomic_begin(); mcp_json_t *j = __real_mcp_json_parse(s); mc_atomic_end(); return j; }
void __real_mcp_json_destroy(mcp_json_t *);
void __wrap_mcp_json_destroy(mcp_json_t *j) { mc_atomic_begin(); __real_mcp_json_destroy(j); mc_atomic_end(); }

static mcp_json_schema_cache_t *C;
static const char *SC[] = {"{\"required\":[\"ab\"]}", "{\"required\":[\"bA\"]}", "{\"required\":[\"c\",\"ab\"]}", "{\"type\":\"object\"}"};
static const char *DO[] = {"{\"ab\":1}", "{\"bA\":1}", "{\"c\":1,\"ab\":2}", "{}"};
static const char OK[4][4] = {{1, 0, 1, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {1, 1, 1, 1}};
static int asked, base;
static void arena(int on) { mc_atomic_begin(); if (on) mcp_arena_init_current_thread(4096); else mcp_arena_destroy_current_thread(); mc_atomic_end(); }
static void ask(int s, int d) {
    asked++;
    int r = mcp_json_schema_validate_cached(C, DO[d], SC[s]);
    if ((r == 0) != OK[s][d]) mc_fail("verdict", "%s against %s: %d", DO[d], SC[s], r);
}
static void user(void *a) {       /* two validations: bits 0-1 schema, 2-3 document, then again */
    long v = (long)a; arena(1);
    for (int i = 0; i < 2; i++, v >>= 4) { ask((int)v & 3, (int)(v >> 2) & 3); }
    arena(0);
}
static void cleaner(void *a) { (void)a; arena(1); mcp_json_schema_cache_clear(C); ask(1, 1); arena(0); }
static void looker(void *a) {
    (void)a; size_t n = 0, c = 0, h = 0, m = 0;
    for (int i = 0; i < 2; i++) { if (mcp_json_schema_cache_get_stats(C, &n, &c, &h, &m)) mc_fail("stats", "no statistics"); if (n > c) mc_fail("size", "%d schemas held, %d allowed", (int)n, (int)c); }
}
#define W(s, d, s2, d2) ((void *)(long)((s) | (d) << 2 | (s2) << 4 | (d2) << 6))
static void begin(int cap) { asked = 0; arena(1); C = mcp_json_schema_cache_create((size_t)cap); }
static void finish(void) {
    size_t n = 0, c = 0, h = 0, m = 0; mcp_json_schema_cache_get_stats(C, &n, &c, &h, &m);
    if ((int)(h + m) != asked) mc_fail("counts", "%d hits and %d misses after %d validations", (int)h, (int)m, asked);
    if (n > c) mc_fail("size", "%d schemas held, %d allowed", (int)n, (int)c);
    for (int s = 0; s < 4; s++) ask(s, 2);
    mc_outcome("%d hits, %d held", (int)h, (int)n);
    mcp_json_schema_cache_destroy(C); arena(0);
}
static void s_same(void) { begin(2); int a = mc_spawn(user, W(0, 0, 0, 1)), b = mc_spawn(user, W(0, 1, 0, 0)); mc_join(a); mc_join(b); finish(); }
static void s_evict(void) { begin(1); int a = mc_spawn(user, W(0, 0, 0, 3)), b = mc_spawn(user, W(2, 2, 0, 1)); mc_join(a); mc_join(b); finish(); }
static void s_twins(void) { begin(2); int a = mc_spawn(user, W(0, 0, 0, 1)), b = mc_spawn(user, W(1, 1, 1, 0)); mc_join(a); mc_join(b); finish(); }
static void s_clear(void) { begin(2); ask(0, 0); int a = mc_spawn(user, W(0, 1, 2, 0)), b = mc_spawn(cleaner, NULL); mc_join(a); mc_join(b); finish(); }
static void s_stats(void) { begin(1); int a = mc_spawn(user, W(0, 0, 2, 0)), b = mc_spawn(looker, NULL); mc_join(a); mc_join(b); finish(); }
static void s_three(void) { begin(1); int a = mc_spawn(user, W(0, 0, 0, 1)), b = mc_spawn(user, W(2, 2, 3, 3)), c = mc_spawn(cleaner, NULL); mc_join(a); mc_join(b); mc_join(c); finish(); }
static void s_any(void) {
    static const int P[] = {0, 1, 2, 3}; begin(1 + mc_choose_free(2));
    int s = mc_choose_free(4), s2 = mc_choose_free(4), d = mc_choose_free(2) ? 2 : 1;
    int a = mc_spawn(user, W(P[s], d, 0, 0)), b = mc_spawn(user, W(P[s2], d, 0, 1)); mc_join(a); mc_join(b); finish();
}
static const mc_scenario SCN[] = {
    {"same", NULL, s_same, 3, 4, 0, "two threads use the same schema"},
    {"evict", NULL, s_evict, 3, 4, 0, "two threads, a cache for one schema"},
    {"twins", NULL, s_twins, 3, 4, 0, "two threads, schemas that are easily confused"},
    {"clear", NULL, s_clear, 3, 4, 0, "the cache is cleared during validations"},
    {"lookup", NULL, s_stats, 4, 5, 0, "statistics are read during validations"},
    {"three", NULL, s_three, 2, 3, 0, "three threads, one of them clears"},
    {"any", NULL, s_any, 2, 3, 0, "all pairs of schemas used by two threads on a cache for one or two"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, SCN, sizeof SCN / sizeof *SCN); }
