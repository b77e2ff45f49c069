/* R01: fixed-window limiter against a per-client reference, all sequences. */
#include "seqx.h"
#include "mcp_rate_limiter.h"
#include <stdio.h>
#include <string.h>

static char L1[300], L2[300];
static const char *PAIR[3][2];
static void setup(void) {
    memset(L1, 'k', 260); memset(L2, 'k', 260);
    strcpy(L1 + 260, "1"); strcpy(L2 + 260, "2");
    PAIR[0][0] = "ab"; PAIR[0][1] = "bA";      /* same djb2 value */
    PAIR[1][0] = L1; PAIR[1][1] = L2;
    PAIR[2][0] = ""; PAIR[2][1] = "10.0.0.1";
}
typedef struct { int seen; long start; unsigned n; } ref_t;
static const unsigned LIM[] = {1, 2, 3}, WIN[] = {1, 2, 5};

static void seq_run(void) {
    int pr = sx_choose(3);
    unsigned lim = LIM[sx_choose(3)], win = WIN[sx_choose(3)];
    unsigned hint = sx_choose(2) ? 1 : 0;
    int depth = sx_thorough() ? 9 : 7;
    sx_note("limit %u window %u s:", lim, win);
    long live0 = sx_live();
    mcp_rate_limiter_t *r = mcp_rate_limiter_create(hint, win, lim);
    SX_CHECK(r, "create", "creation failed");
    ref_t ref[2] = {{0}};
    int fresh = 0, floods = 0;
    for (int i = 0; i < depth; i++) {
        int op = sx_choose(5);
        sx_op();
        if (op < 2) {
            long now = (long)((sx_ms + SX_EPOCH_MS) / 1000);
            ref_t *c = &ref[op];
            int want;
            if (!c->seen || now >= c->start + (long)win) { c->seen = 1; c->start = now; c->n = 1; want = 1; }
            else if (c->n < lim) { c->n++; want = 1; }
            else want = 0;
            int got = mcp_rate_limiter_check(r, PAIR[pr][op]);
            sx_note(" %c:%s", 'A' + op, got ? "ok" : "no");
            SX_CHECK(got == want, want ? "denied-below-limit" : "admitted-over-limit", "client %c request %d: got %d, expected %d (admitted %u since %ld, now %ld)", 'A' + op, i, got, want, c->n, c->start, now);
        } else if (op == 2) {
            if (floods++ >= 2) { sx_class("flood again"); }
            /* seven clients never seen before: grows the table */
            for (int k = 0; k < 7; k++) {
                char id[32];
                snprintf(id, sizeof id, "new-%d", fresh++);
                SX_CHECK(mcp_rate_limiter_check(r, id), "denied-first", "first request of a new client was denied");
            }
            sx_note(" +7clients");
        } else if (op == 3) { sx_ms += 1000; sx_note(" +1s"); }
        else { sx_ms += 400; sx_note(" +0.4s"); }
        struct { unsigned l, w; int f; long a0, a1; unsigned n0, n1; int s0, s1; } st;
        memset(&st, 0, sizeof st);
        long now = (long)((sx_ms + SX_EPOCH_MS) / 1000);
        st.l = lim; st.w = win; st.f = fresh; st.a0 = now - ref[0].start; st.a1 = now - ref[1].start; st.n0 = ref[0].n; st.n1 = ref[1].n; st.s0 = ref[0].seen; st.s1 = ref[1].seen;
        if (!st.s0) st.a0 = 0;
        if (!st.s1) st.a1 = 0;
        sx_state(&st, sizeof st);
    }
    mcp_rate_limiter_destroy(r);
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released with the limiter", sx_live() - live0);
}
/* many clients at once: growth keeps every count */
static void many_run(void) {
    int n = 1 + sx_choose(60);
    int lim = 1 + sx_choose(2);
    unsigned hint = sx_choose(3) * 8;
    long live0 = sx_live();
    mcp_rate_limiter_t *r = mcp_rate_limiter_create(hint, 10, lim);
    char id[32];
    for (int round = 0; round < lim + 2; round++)
        for (int k = 0; k < n; k++) {
            snprintf(id, sizeof id, "%d.client", k * 7);
            int got = mcp_rate_limiter_check(r, id);
            sx_op();
            SX_CHECK(got == (round < lim), "growth", "client %d of %d, request %d with limit %d: %s", k, n, round, lim, got ? "admitted" : "denied");
        }
    sx_ms += 10000;
    for (int k = 0; k < n; k++) { snprintf(id, sizeof id, "%d.client", k * 7); SX_CHECK(mcp_rate_limiter_check(r, id), "growth-window", "denied in a new window"); }
    int key[3] = {n, lim, hint};
    sx_state(key, sizeof key);
    sx_note("%d clients limit %d", n, lim);
    mcp_rate_limiter_destroy(r);
    SX_CHECK(sx_live() == live0, "leak", "%ld blocks not released with the limiter", sx_live() - live0);
}
static void args_run(void) {
    static const size_t v[] = {0, 1, 5};
    size_t w = v[sx_choose(3)], m = v[sx_choose(3)];
    mcp_rate_limiter_t *r = mcp_rate_limiter_create(4, w, m);
    SX_CHECK((r != NULL) == (w && m), "create-args", "window %zu limit %zu: %s", w, m, r ? "created" : "refused");
    SX_CHECK(!mcp_rate_limiter_check(NULL, "a"), "null-limiter", "admitted without a limiter");
    if (r) { SX_CHECK(!mcp_rate_limiter_check(r, NULL), "null-client", "admitted without a client"); mcp_rate_limiter_destroy(r); }
    sx_op();
    size_t key[2] = {w, m};
    sx_state(key, sizeof key);
}
static const sx_scenario S[] = {
    {"sequences", setup, seq_run, 0, "all sequences of requests of two clients (3 pairs incl. colliding and long ids), new clients and clock steps, depth 7 (9)"},
    {"growth", setup, many_run, 0, "1-60 clients through table growth"},
    {"arguments", setup, args_run, 0, "invalid parameters"},
};
int main(int c, char **v) { return sx_main(c, v, S, (int)(sizeof S / sizeof *S)); }
