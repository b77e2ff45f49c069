/* R03: concurrent checks admit exactly what a sequential order would. */
#include "mcrt.h"
#include "mcp_rate_limiter.h"
#include "mcp_advanced_rate_limiter.h"
#include <stdio.h>
#include <string.h>

static mcp_rate_limiter_t *B;
static mcp_advanced_rate_limiter_t *A;
static int adm[4];      /* admitted per client */
static int checks[4];
static const char *ID[] = {"ab", "bA", "10.1.1.1", "z"};
typedef struct { int n; int c[4]; } plan;

static void one(int c) {
    int r = B ? mcp_rate_limiter_check(B, ID[c]) : mcp_advanced_rate_limiter_check(A, ID[c], NULL, NULL, NULL);
    checks[c]++;
    adm[c] += r;
}
static void t_run(void *a) { plan *p = a; for (int i = 0; i < p->n; i++) one(p->c[i]); }
static void expect(int lim) {
    for (int c = 0; c < 4; c++) {
        int want = checks[c] < lim ? checks[c] : lim;
        if (adm[c] > want) mc_fail("admitted-over-limit", "client %d: %d of %d admitted, limit %d", c, adm[c], checks[c], lim);
        if (adm[c] < want) mc_fail("denied-with-room", "client %d: %d of %d admitted, limit %d", c, adm[c], checks[c], lim);
    }
}
static void go3(plan *p) {
    int t[3];
    for (int i = 0; i < 3; i++) t[i] = mc_spawn(t_run, &p[i]);
    for (int i = 0; i < 3; i++) mc_join(t[i]);
}
static plan same[3] = {{2, {0, 0}}, {2, {0, 1}}, {2, {1, 0}}};
static plan fresh[3] = {{2, {0, 2}}, {2, {0, 3}}, {2, {1, 0}}};
static void s_basic(void) { B = mcp_rate_limiter_create(2, 10, 2); go3(same); expect(2); one(0); expect(2); mcp_rate_limiter_destroy(B); }
/* the table is one entry short of growing */
static void s_basic_grow(void) {
    B = mcp_rate_limiter_create(2, 10, 2);
    for (int i = 0; i < 10; i++) { char id[16]; snprintf(id, 16, "c%d", i); mcp_rate_limiter_check(B, id); }
    go3(fresh); expect(2);
    for (int i = 0; i < 10; i++) { char id[16]; snprintf(id, 16, "c%d", i); if (!mcp_rate_limiter_check(B, id)) mc_fail("growth-lost", "client %d denied", i); if (mcp_rate_limiter_check(B, id)) mc_fail("growth-lost", "client %d admitted over its limit", i); }
    mcp_rate_limiter_destroy(B);
}
static void adv(int alg, int pre, plan *p) {
    mcp_advanced_rate_limiter_config_t cfg = {0};
    cfg.capacity_hint = 1;
    A = mcp_advanced_rate_limiter_create(&cfg);
    mcp_rate_limit_rule_t r;
    if (alg == MCP_RATE_LIMIT_TOKEN_BUCKET) r = mcp_advanced_rate_limiter_create_token_bucket_rule(0, 0.001, 2);
    else if (alg == MCP_RATE_LIMIT_LEAKY_BUCKET) r = mcp_advanced_rate_limiter_create_leaky_bucket_rule(0, 0.001, 2);
    else r = mcp_advanced_rate_limiter_create_default_rule(0, alg, 10, 2);
    mcp_advanced_rate_limiter_add_rule(A, &r);
    for (int i = 0; i < pre; i++) { char id[16]; snprintf(id, 16, "c%d", i); mcp_advanced_rate_limiter_check(A, id, NULL, NULL, NULL); }
    go3(p);
    expect(2);
    mcp_advanced_rate_limiter_stats_t st;
    mcp_advanced_rate_limiter_get_stats(A, &st);
    int total = pre, ok = pre, nc = pre;
    for (int i = 0; i < 4; i++) { total += checks[i]; ok += adm[i]; nc += checks[i] > 0; }
    if ((int)st.total_requests != total || (int)st.allowed_requests != ok || (int)st.denied_requests != total - ok)
        mc_fail("totals", "totals %zu/%zu/%zu after %d checks of which %d admitted", st.total_requests, st.allowed_requests, st.denied_requests, total, ok);
    if ((int)st.active_clients != nc) mc_fail("clients", "%zu clients tracked, expected %d", st.active_clients, nc);
    for (int i = 0; i < pre; i++) { char id[16]; snprintf(id, 16, "c%d", i); int a = mcp_advanced_rate_limiter_check(A, id, NULL, NULL, NULL), b = mcp_advanced_rate_limiter_check(A, id, NULL, NULL, NULL); if (!a || b) mc_fail("growth-lost", "client %d lost its count", i); }
    mcp_advanced_rate_limiter_destroy(A);
}
static void s_fixed(void) { adv(MCP_RATE_LIMIT_FIXED_WINDOW, 0, same); }
static void s_slide(void) { adv(MCP_RATE_LIMIT_SLIDING_WINDOW, 0, same); }
static void s_token(void) { adv(MCP_RATE_LIMIT_TOKEN_BUCKET, 0, same); }
static void s_leaky(void) { adv(MCP_RATE_LIMIT_LEAKY_BUCKET, 0, same); }
static void s_grow(void) { adv(MCP_RATE_LIMIT_FIXED_WINDOW, 11, fresh); }
/* rules change and data is cleared while requests are checked */
static int cleared;
static void t_rules(void *a) {
    (void)a;
    mcp_rate_limit_rule_t r = mcp_advanced_rate_limiter_create_token_bucket_rule(0, 0.001, 1);
    r.priority = 5;
    mcp_advanced_rate_limiter_add_rule(A, &r);
    mcp_advanced_rate_limiter_remove_rule(A, 0, NULL);
}
static void t_clear(void *a) { (void)a; mcp_advanced_rate_limiter_clear_data(A); cleared = 1; mcp_advanced_rate_limiter_stats_t st; mcp_advanced_rate_limiter_get_stats(A, &st); if (st.allowed_requests + st.denied_requests != st.total_requests) mc_fail("totals", "allowed %zu + denied %zu differ from total %zu", st.allowed_requests, st.denied_requests, st.total_requests); }
static void s_change(void) {
    A = mcp_advanced_rate_limiter_create(NULL);
    mcp_rate_limit_rule_t r = mcp_advanced_rate_limiter_create_default_rule(0, MCP_RATE_LIMIT_SLIDING_WINDOW, 10, 2);
    mcp_advanced_rate_limiter_add_rule(A, &r);
    int a = mc_spawn(t_run, &same[0]), b = mc_spawn(t_rules, 0), c = mc_spawn(t_clear, 0);
    mc_join(a); mc_join(b); mc_join(c);
    mcp_advanced_rate_limiter_destroy(A);
    mc_outcome("admitted %d", adm[0]);
}
static const mc_scenario S[] = {
    {"basic", 0, s_basic, 4, 6, 0, "fixed-window limiter, 3 threads, 2 clients, limit 2"},
    {"basic-growth", 0, s_basic_grow, 4, 5, 0, "the same while the table grows"},
    {"fixed", 0, s_fixed, 4, 5, 0, "advanced limiter, fixed window"},
    {"sliding", 0, s_slide, 4, 5, 0, "advanced limiter, sliding window"},
    {"token", 0, s_token, 4, 5, 0, "advanced limiter, token bucket"},
    {"leaky", 0, s_leaky, 4, 5, 0, "advanced limiter, leaky bucket"},
    {"growth", 0, s_grow, 4, 5, 0, "advanced limiter while the table grows"},
    {"changes", 0, s_change, 4, 5, 0, "rules and data change during checks"},
};
int main(int c, char **v) { return mc_main(c, v, S, sizeof S / sizeof *S); }
