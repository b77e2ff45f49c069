/* P01, threads: requests that match, extract and expand at the same time. */
#include "mcrt.h"
#include "mcp_template.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include <stdio.h>
#include <stdlib.h>

static int eq(const char *a, const char *b) { if (!a) return 0; while (*a && *a == *b) a++, b++; return *a == *b; }
static void arena(void) { mc_atomic_begin(); mcp_arena_init_current_thread(4096); mc_atomic_end(); }
static void drop(void) { mc_atomic_begin(); mcp_arena_destroy_current_thread(); mc_atomic_end(); }
static void t_match(void *a) {
    arena();
    int i = (int)(long)a; char t[24], u[24], w[24]; mc_atomic_begin(); snprintf(t, sizeof t, "t%d/{a:int}", i); snprintf(u, sizeof u, "t%d/%d", i, 7 + i); snprintf(w, sizeof w, "t%d/x", i); mc_atomic_end();
    if (mcp_template_matches_optimized(u, t) != 1) mc_fail("no-match", "%s does not match %s", u, t);
    mcp_json_t *o = mcp_template_extract_params_optimized(u, t); mc_atomic_begin(); double d = -1; mcp_json_t *v = o ? mcp_json_object_get_property(o, "a") : NULL; if (!v || mcp_json_get_number(v, &d) || d != 7 + i) mc_fail("value", "the value in %s is %g", u, d); mcp_json_destroy(o); mc_atomic_end();
    if (mcp_template_matches_optimized(w, t) != 0) mc_fail("matches", "%s matches %s", w, t);
    drop();
}
static void t_match1(void *a) { int i = (int)(long)a; char t[24], u[24]; mc_atomic_begin(); snprintf(t, sizeof t, "t%d/{a:int}", i); snprintf(u, sizeof u, "t%d/%d", i, 7 + i); mc_atomic_end(); if (mcp_template_matches_optimized(u, t) != 1) mc_fail("no-match", "%s does not match %s", u, t); }
static void t_expand(void *a) {
    arena();
    int i = (int)(long)a; char u[40]; mc_atomic_begin(); mcp_json_t *o = mcp_json_object_create(); mcp_json_object_set_property(o, "a", mcp_json_number_create(i)); mcp_json_object_set_property(o, "b", mcp_json_number_create(i * 100 + 0.5)); snprintf(u, sizeof u, "e://%d/%d.5", i, i * 100); mc_atomic_end();
    char *x = mcp_template_expand("e://{a}/{b}", o); if (!eq(x, u)) mc_fail("expansion", "%s instead of %s", x ? x : "(none)", u); mc_atomic_begin(); free(x); mcp_json_destroy(o); mc_atomic_end(); drop();
}
static void fill(int n) { mc_atomic_begin(); for (int i = 0; i < n; i++) { char t[24], u[24]; snprintf(t, sizeof t, "t%d/{a:int}", 100 + i); snprintf(u, sizeof u, "t%d/1", 100 + i); mcp_template_matches_optimized(u, t); } mc_atomic_end(); }
static void end(void) { size_t n = 999, m = 0; mcp_template_cache_get_stats(NULL, NULL, NULL, NULL, &n, &m); if (n > m) mc_fail("cache", "the cache holds %d templates of %d", (int)n, (int)m); mc_atomic_begin(); mcp_template_cache_cleanup(); mc_atomic_end(); }
static void go(int n, void (*f)(void *), long a, void (*g)(void *), long b, void (*h)(void *), long c) { int t = mc_spawn(f, (void *)a), u = mc_spawn(g, (void *)b), v = n > 2 ? mc_spawn(h, (void *)c) : 0; mc_join(t); mc_join(u); if (n > 2) mc_join(v); end(); }
static void s_first(void) { go(2, t_match, 1, t_match, 2, NULL, 0); }
static void s_same(void) { go(3, t_match1, 1, t_match1, 1, t_match1, 1); }
static void s_three(void) { go(3, t_match1, 1, t_match1, 2, t_match1, 3); }
static void s_known(void) { t_match((void *)1); t_match((void *)2); go(2, t_match, 1, t_match, 2, NULL, 0); }
static void s_full(void) { fill(127); go(2, t_match, 1, t_match, 2, NULL, 0); }
static void s_evict(void) { fill(128); go(2, t_match1, 100, t_match1, 2, NULL, 0); }
static void s_expand(void) { go(2, t_expand, 3, t_expand, 4, NULL, 0); }
static const mc_scenario SC[] = {
    {"first", NULL, s_first, 4, 5, 0, "2 threads use new templates"},
    {"same", NULL, s_same, 4, 5, 0, "3 threads use one new template"},
    {"three", NULL, s_three, 3, 4, 0, "3 threads use three new templates"},
    {"known", NULL, s_known, 4, 5, 0, "2 threads use two cached templates"},
    {"full", NULL, s_full, 3, 4, 0, "the cache fills up"},
    {"evict", NULL, s_evict, 4, 5, 0, "a template is removed from the cache while it is used"},
    {"expansions", NULL, s_expand, 4, 5, 0, "2 threads expand templates with numbers"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
