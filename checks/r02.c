/* R02: advanced rate limiter against a reference of rules, patterns and the four algorithms. */
#include "seqx.h"
#include "mcp_advanced_rate_limiter.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NR 40
typedef struct { mcp_rate_limit_rule_t r; int live; } mrule;
typedef struct { int live, type, alg; char key[24]; long start; unsigned n; double hist[16]; int nh; size_t p; double q; double level; long last; } mclient;
typedef struct { mrule rule[NR]; int nr; mclient c[60]; int nc; long total, allowed, denied; } model;
static model M;

static int pmatch(const char *k, const char *p) {
    if (!p) return 1;
    size_t n = strlen(p), m = strlen(k);
    if (!strcmp(k, p)) return 1;
    if (n > 2 && p[0] == '*' && p[n - 1] == '*') {
        char sub[64]; memcpy(sub, p + 1, n - 2); sub[n - 2] = 0;
        return strstr(k, sub) != NULL;
    }
    if (n && p[n - 1] == '*') return !strncmp(k, p, n - 1);
    if (n > 1 && p[0] == '*') return m >= n - 1 && !strcmp(k + m - (n - 1), p + 1);
    return 0;
}
static mcp_rate_limit_rule_t *mfind(int type, const char *key) {
    mcp_rate_limit_rule_t *b = NULL;
    for (int i = M.nr - 1; i >= 0; i--)
        if (M.rule[i].live && (int)M.rule[i].r.key_type == type && pmatch(key, M.rule[i].r.key_pattern) && (!b || M.rule[i].r.priority > b->priority)) b = &M.rule[i].r;
    return b;
}
static long now_s(void) { return (long)((sx_ms + SX_EPOCH_MS) / 1000); }
static int mcheck1(int type, const char *key) {
    mcp_rate_limit_rule_t *r = mfind(type, key);
    if (!r) return 0;
    mclient *c = NULL;
    for (int i = 0; i < M.nc; i++) if (M.c[i].live && M.c[i].type == type && !strcmp(M.c[i].key, key)) c = &M.c[i];
    int init = 0;
    if (!c) { c = &M.c[M.nc++]; memset(c, 0, sizeof *c); c->live = 1; c->type = type; strcpy(c->key, key); init = 1; }
    size_t p = 0; double q = 0;
    switch (r->algorithm) {
    case MCP_RATE_LIMIT_FIXED_WINDOW: break;
    case MCP_RATE_LIMIT_SLIDING_WINDOW: p = r->max_requests_per_window; break;
    case MCP_RATE_LIMIT_TOKEN_BUCKET: p = r->max_tokens; q = r->tokens_per_second; break;
    case MCP_RATE_LIMIT_LEAKY_BUCKET: p = r->burst_capacity; q = r->leak_rate_per_second; break;
    }
    if (init || c->alg != (int)r->algorithm || c->p != p || c->q != q) {
        c->alg = r->algorithm; c->p = p; c->q = q; c->nh = 0; c->n = 0; c->start = now_s(); c->last = now_s();
        c->level = r->algorithm == MCP_RATE_LIMIT_TOKEN_BUCKET ? (double)r->max_tokens : 0;
    }
    long t = now_s();
    switch (r->algorithm) {
    case MCP_RATE_LIMIT_FIXED_WINDOW:
        if (t - c->start >= (long)r->window_seconds) { c->start = t; c->n = 0; }
        if (c->n < r->max_requests_per_window) { c->n++; return 1; }
        return 0;
    case MCP_RATE_LIMIT_SLIDING_WINDOW: {
        int k = 0;
        for (int i = 0; i < c->nh; i++) if (t - (long)c->hist[i] < (long)r->window_seconds) c->hist[k++] = c->hist[i];
        c->nh = k;
        if ((size_t)k < r->max_requests_per_window) { c->hist[c->nh++] = t; return 1; }
        return 0;
    }
    case MCP_RATE_LIMIT_TOKEN_BUCKET:
        c->level = fmin(c->level + (t - c->last) * q, (double)p);
        c->last = t;
        if (c->level >= 1) { c->level -= 1; return 1; }
        return 0;
    case MCP_RATE_LIMIT_LEAKY_BUCKET:
        c->level = fmax(0, c->level - (t - c->last) * q);
        c->last = t;
        if (c->level + 1 <= (double)p) { c->level += 1; return 1; }
        return 0;
    }
    return 0;
}
static int mcheck(const char *ip, const char *user, const char *api, const char *custom) {
    M.total++;
    int ok = (api && mcheck1(MCP_RATE_LIMIT_KEY_API_KEY, api)) || (user && mcheck1(MCP_RATE_LIMIT_KEY_USER_ID, user)) ||
             (ip && mcheck1(MCP_RATE_LIMIT_KEY_IP, ip)) || (custom && mcheck1(MCP_RATE_LIMIT_KEY_CUSTOM, custom));
    if (ok) M.allowed++; else M.denied++;
    return ok;
}
static mcp_advanced_rate_limiter_t *L;
static long live0;
static void start(size_t hint) {
    live0 = sx_live();
    memset(&M, 0, sizeof M);
    mcp_advanced_rate_limiter_config_t cfg = {0};
    cfg.capacity_hint = hint;
    L = mcp_advanced_rate_limiter_create(hint ? &cfg : NULL);
    SX_CHECK(L, "create", "creation failed");
}
static void add(const mcp_rate_limit_rule_t *r) {
    sx_op();
    SX_CHECK(mcp_advanced_rate_limiter_add_rule(L, r), "add-rule", "rule refused");
    M.rule[M.nr].r = *r; M.rule[M.nr].live = 1; M.nr++;
}
static void rem(int type, const char *pat) {
    int want = 0;
    for (int i = M.nr - 1; i >= 0 && !want; i--)
        if (M.rule[i].live && (int)M.rule[i].r.key_type == type && ((!pat && !M.rule[i].r.key_pattern) || (pat && M.rule[i].r.key_pattern && !strcmp(pat, M.rule[i].r.key_pattern)))) { M.rule[i].live = 0; want = 1; }
    sx_op();
    int got = mcp_advanced_rate_limiter_remove_rule(L, type, pat);
    SX_CHECK(got == want, "remove-rule", "remove returned %d, expected %d", got, want);
}
static void chk(const char *ip, const char *u, const char *a, const char *c) {
    int want = mcheck(ip, u, a, c);
    sx_op();
    int got = mcp_advanced_rate_limiter_check(L, ip, u, a, c);
    sx_note(" [%s%s%s%s%s%s%s]=%s", ip ? ip : "", u ? " u:" : "", u ? u : "", a ? " a:" : "", a ? a : "", c ? " c:" : "", c ? c : "", got ? "ok" : "no");
    SX_CHECK(got == want, want ? "denied-with-room" : "admitted-over-limit", "request ip=%s user=%s api=%s custom=%s: got %d, expected %d", ip ? ip : "-", u ? u : "-", a ? a : "-", c ? c : "-", got, want);
}
static void finish(void) {
    mcp_advanced_rate_limiter_stats_t st;
    SX_CHECK(mcp_advanced_rate_limiter_get_stats(L, &st), "stats", "no statistics");
    long nc = 0, nr = 0;
    for (int i = 0; i < M.nc; i++) nc += M.c[i].live;
    for (int i = 0; i < M.nr; i++) nr += M.rule[i].live;
    SX_CHECK((long)st.total_requests == M.total && (long)st.allowed_requests == M.allowed && (long)st.denied_requests == M.denied, "stats-counts", "statistics %zu/%zu/%zu, expected %ld/%ld/%ld", st.total_requests, st.allowed_requests, st.denied_requests, M.total, M.allowed, M.denied);
    SX_CHECK((long)st.active_clients == nc, "stats-clients", "%zu clients reported, expected %ld", st.active_clients, nc);
    SX_CHECK((long)st.rule_count == nr, "stats-rules", "%zu rules reported, expected %ld", st.rule_count, nr);
    mcp_advanced_rate_limiter_destroy(L);
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released with the limiter", sx_live() - live0);
}
static void state(void) {
    struct { char x[60][40]; int rules; } s;
    memset(&s, 0, sizeof s);
    for (int i = 0; i < M.nr; i++) if (M.rule[i].live) s.rules |= 1 << i;
    int n = M.nc > 6 ? 6 : M.nc;
    for (int i = 0; i < n; i++) if (M.c[i].live)
        snprintf(s.x[i], 40, "%s%d%d %ld %u %d %.2f %ld", M.c[i].key, M.c[i].type, M.c[i].alg, now_s() - M.c[i].start, M.c[i].n, M.c[i].nh, M.c[i].level, now_s() - M.c[i].last);
    sx_state(&s, sizeof s);
}
static void clear(void) {
    sx_op();
    SX_CHECK(mcp_advanced_rate_limiter_clear_data(L), "clear", "clear failed");
    for (int i = 0; i < M.nc; i++) M.c[i].live = 0;
    M.total = M.allowed = M.denied = 0;
    sx_note(" clear");
}
static void advance(int which) { static const int d[] = {1000, 2000, 500}; sx_ms += d[which]; sx_note(" +%dms", d[which]); }

static mcp_rate_limit_rule_t mk(int type, int alg, size_t w, size_t m, double rate, char *pat, int prio) {
    mcp_rate_limit_rule_t r;
    if (alg == MCP_RATE_LIMIT_TOKEN_BUCKET) r = mcp_advanced_rate_limiter_create_token_bucket_rule(type, rate, m);
    else if (alg == MCP_RATE_LIMIT_LEAKY_BUCKET) r = mcp_advanced_rate_limiter_create_leaky_bucket_rule(type, rate, m);
    else r = mcp_advanced_rate_limiter_create_default_rule(type, alg, w, m);
    r.key_pattern = pat;
    r.priority = prio;
    return r;
}
/* one rule, every algorithm and several parameters, long sequences */
static void alg_run(void) {
    int alg = sx_choose(4), type = sx_choose(sx_thorough() ? 4 : 2) * (sx_thorough() ? 1 : 2);
    static const double rate[] = {0.5, 1.0, 2.0};
    size_t m = 1 + sx_choose(3);
    size_t w = 1; double q = 1;
    if (alg <= MCP_RATE_LIMIT_SLIDING_WINDOW) w = 1 + sx_choose(3); else q = rate[sx_choose(3)];
    sx_note("alg %d max %zu window %zu rate %.1f:", alg, m, w, q);
    start(0);
    mcp_rate_limit_rule_t r = mk(type, alg, w, m, q, NULL, 0);
    add(&r);
    static const char *K[] = {"ab", "bA"};
    int depth = sx_thorough() ? 9 : 7;
    for (int i = 0; i < depth; i++) {
        int op = sx_choose(4);
        if (op < 2) chk(type == 0 ? K[op] : NULL, type == 1 ? K[op] : NULL, type == 2 ? K[op] : NULL, type == 3 ? K[op] : NULL);
        else advance(op - 2);
        state();
    }
    finish();
}
/* rules of different pattern, priority and algorithm come and go */
static void rules_run(void) {
    mcp_rate_limit_rule_t R[6] = {
        mk(0, MCP_RATE_LIMIT_FIXED_WINDOW, 5, 2, 0, NULL, 0),
        mk(0, MCP_RATE_LIMIT_TOKEN_BUCKET, 0, 1, 0.5, "a*", 3),
        mk(0, MCP_RATE_LIMIT_LEAKY_BUCKET, 0, 1, 1.0, "*b", 2),
        mk(0, MCP_RATE_LIMIT_SLIDING_WINDOW, 2, 1, 0, "*x*", 4),
        mk(0, MCP_RATE_LIMIT_SLIDING_WINDOW, 2, 3, 0, "axb", 5),
        mk(0, MCP_RATE_LIMIT_FIXED_WINDOW, 2, 1, 0, "*", -1)};
    static const char *K[] = {"ab", "axb", "cx", "zz"};
    start(0);
    int on[6] = {0};
    int depth = sx_thorough() ? 7 : 6;
    for (int i = 0; i < depth; i++) {
        int op = sx_choose(12);
        if (op < 6) {
            if (!on[op]) { add(&R[op]); on[op] = 1; sx_note(" +rule%d", op); }
            else { rem(0, R[op].key_pattern); on[op] = 0; sx_note(" -rule%d", op); }
        } else if (op < 10) chk(K[op - 6], NULL, NULL, NULL);
        else if (op == 10) advance(1);
        else clear();
        state();
    }
    finish();
}
/* two rules installed, then traffic: every ordered pair of rules, with a change in the middle */
static void pairs_run(void) {
    int a = sx_choose(4), b = sx_choose(4), pa = sx_choose(3) - 1, pb = sx_choose(3) - 1;
    if (pa == pb) { sx_class("equal priorities skipped"); return; }
    mcp_rate_limit_rule_t A = mk(1, a, 2, 2, 0.5, "al*", pa), B = mk(1, b, 3, 1, 1.0, NULL, pb);
    start(0);
    add(&A);
    sx_note("alg %d prio %d then alg %d prio %d:", a, pa, b, pb);
    static const char *K[] = {"alice", "bob"};
    int when = sx_choose(4), depth = sx_thorough() ? 6 : 5;
    for (int i = 0; i < depth; i++) {
        if (i == when) { add(&B); sx_note(" +B"); }
        if (i == when + 2 && when < 3) { rem(1, "al*"); sx_note(" -A"); }
        int op = sx_choose(4);
        if (op < 2) chk(NULL, K[op], NULL, NULL); else advance(op - 2);
        state();
    }
    finish();
}
/* several kinds of key in one request */
static void kinds_run(void) {
    start(0);
    int which = 1 + sx_choose(15);
    for (int t = 0; t < 4; t++) if (which & (1 << t)) { mcp_rate_limit_rule_t r = mk(t, t, 2, 1, 1.0, NULL, t); add(&r); }
    sx_note("rules for kinds %x:", which);
    int depth = 3;
    for (int i = 0; i < depth; i++) {
        int m = sx_choose(17);
        if (m == 16) { advance(0); continue; }
        if (m == 0) {
            SX_CHECK(!mcp_advanced_rate_limiter_check(L, NULL, NULL, NULL, NULL), "no-key", "request without any key admitted");
            continue;
        }
        chk(m & 1 ? "k" : NULL, m & 2 ? "k" : NULL, m & 4 ? "k" : NULL, m & 8 ? "k" : NULL);
        state();
    }
    mcp_advanced_rate_limiter_destroy(L);
}
static void many_run(void) {
    int n = 1 + sx_choose(50), alg = sx_choose(4);
    start(1);
    mcp_rate_limit_rule_t r = mk(0, alg, 5, 2, 0.5, NULL, 0);
    add(&r);
    for (int round = 0; round < 4; round++)
        for (int k = 0; k < n; k++) { char id[16]; snprintf(id, 16, "10.0.%d", k); chk(id, NULL, NULL, NULL); }
    sx_ms += 5000;
    for (int k = 0; k < n; k++) { char id[16]; snprintf(id, 16, "10.0.%d", k); chk(id, NULL, NULL, NULL); }
    sx_note("\n%d clients alg %d", n, alg);
    state();
    finish();
}
/* patterns: every pattern against every key over a small alphabet */
static void pattern_run(void) {
    static const char A[] = "ab*";
    char pat[5] = "", key[5] = "";
    int n = sx_choose(5), m = sx_choose(5);
    for (int i = 0; i < n; i++) pat[i] = A[sx_choose(3)];
    for (int i = 0; i < m; i++) key[i] = A[sx_choose(2)];
    pat[n] = key[m] = 0;
    start(0);
    mcp_rate_limit_rule_t r = mk(3, 0, 5, 1, 0, pat, 0);
    add(&r);
    chk(NULL, NULL, NULL, key);
    sx_note(" pattern %s", pat);
    char st[10]; memset(st, 0, sizeof st); strcpy(st, pat); strcpy(st + 5, key);
    sx_state(st, 10);
    sx_class(M.allowed ? "matches" : "no match");
    finish();
}
static void limit_run(void) {
    int type = sx_choose(4);
    start(0);
    mcp_rate_limit_rule_t r = mk(type, 0, 5, 1, 0, "q", 0);
    for (int i = 0; i < 32; i++) SX_CHECK(mcp_advanced_rate_limiter_add_rule(L, &r), "rule-limit", "rule %d refused", i);
    SX_CHECK(!mcp_advanced_rate_limiter_add_rule(L, &r), "rule-limit", "33rd rule accepted");
    for (int t = 0; t < 4; t++) if (t != type) { r.key_type = t; SX_CHECK(mcp_advanced_rate_limiter_add_rule(L, &r), "rule-limit-other", "rule of another kind refused"); }
    for (int i = 0; i < 32; i++) SX_CHECK(mcp_advanced_rate_limiter_remove_rule(L, type, "q"), "rule-remove", "rule %d not removed", i);
    SX_CHECK(!mcp_advanced_rate_limiter_remove_rule(L, type, "q"), "rule-remove", "removed more rules than added");
    sx_ops(67);
    sx_state(&type, sizeof type);
    mcp_advanced_rate_limiter_destroy(L);
}
static const sx_scenario S[] = {
    {"algorithms", 0, alg_run, 0, "one rule of each algorithm, several limits: all sequences of two clients and clock steps"},
    {"rules", 0, rules_run, 0, "six rules with all pattern kinds and priorities added and removed between requests"},
    {"pairs", 0, pairs_run, 0, "ordered pairs of algorithms and priorities, the second rule added and the first removed during traffic"},
    {"kinds", 0, kinds_run, 0, "requests with every subset of key kinds"},
    {"clients", 0, many_run, 0, "1-50 clients through table growth"},
    {"patterns", 0, pattern_run, 0, "every pattern and key up to length 4"},
    {"rule-limit", 0, limit_run, 0, "number of rules per key kind"},
};
int main(int c, char **v) { return sx_main(c, v, S, (int)(sizeof S / sizeof *S)); }
