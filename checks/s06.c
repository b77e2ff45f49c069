/* S06: a server with a rate configured, every history of messages and pauses, against a bucket of tokens. */
#include <stdarg.h>
#include "srv.h"

static const char *KIND[] = {"call", "batch", "ping", "broken", "note", "+1s", "+2s", "+5s"};
static const char *TEXT[] = {
    "{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"call_tool\",\"params\":{\"name\":\"echo\"}}",
    "[{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"call_tool\",\"params\":{\"name\":\"echo\"}},{\"jsonrpc\":\"2.0\",\"id\":8,\"method\":\"call_tool\",\"params\":{\"name\":\"echo\"}}]",
    "{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"ping\"}",
    "{\"jsonrpc\":\"2.0\",",
    "{\"jsonrpc\":\"2.0\",\"method\":\"call_tool\",\"params\":{\"name\":\"echo\"}}",
};
static const int CALLS[] = {1, 2, 0, 0, 0}, ANSWER[] = {1, 1, 1, 1, 0};
static void deliver(int k, int admitted) {
    int err = 0; sv_ncall = 0;
    char *a = sv_send_n(TEXT[k], strlen(TEXT[k]), &err);
    if (!admitted) {
        SX_CHECK(!sv_ncall, "handler-called", "the handler of a message over the rate is called");
        SX_CHECK(!a || strstr(a, "\"error\""), "answered", "a message over the rate is answered: %s", a);
        SX_CHECK(a || err == MCP_ERROR_TOO_MANY_REQUESTS, "refused-otherwise", "a message over the rate fails with %d", err);
    } else {
        SX_CHECK(err != MCP_ERROR_TOO_MANY_REQUESTS, "refused", "a message within the rate is refused");
        SX_CHECK(sv_ncall == CALLS[k], "handler-calls", "%d handler calls for %s", sv_ncall, TEXT[k]);
        SX_CHECK((a != NULL) == ANSWER[k], "answer", "answer to %s: %s (%d)", TEXT[k], a ? a : "none", err);
        if (a && CALLS[k]) SX_CHECK(strstr(a, "\"content\""), "answer", "answer to %s: %s", TEXT[k], a);
    }
    free(a);
}
typedef struct { double rate; long max; } bucket;
static void config(mcp_server_config_t *c, bucket b) {
    memset(c, 0, sizeof *c); c->rate_limit_window_seconds = 60; c->rate_limit_max_requests = 1000; c->rate_limit_capacity = 16;
    c->use_advanced_rate_limiter = true; c->enable_token_bucket = true; c->tokens_per_second = b.rate; c->max_tokens = (size_t)b.max;
}
/* one server: the bucket starts full, fills with the passing seconds, never beyond its size */
static void rate_run(void) {
    static const double R[] = {0.25, 0.5, 1, 2};
    bucket b = {R[sx_choose(4)], 1 + sx_choose(3)}; mcp_server_config_t c; config(&c, b);
    sx_note("%.2f per second, %ld at most:", b.rate, b.max);
    sv_new(&c, 1, 1, 1, 1); sv_run();
    double t = (double)b.max; int depth = sx_thorough() ? 6 : 5, seen = 0;
    for (int i = 0; i < depth; i++) {
        int op = sx_choose(8); sx_note(" %s", KIND[op]);
        if (op >= 5) { int s = op == 5 ? 1 : op == 6 ? 2 : 5; sx_ms += 1000 * s; if (seen) { t += s * b.rate; if (t > (double)b.max) t = (double)b.max; } continue; }
        int ok = t >= 1; if (ok) t -= 1; seen = 1;
        deliver(op, ok);
        sx_class("%s", ok ? "admitted" : "refused");
    }
    sv_end();
}
/* more messages than the bucket holds at once, then one after each pause */
static void burst_run(void) {
    bucket b = {1 + sx_choose(3), 1 + sx_choose(25)}; int gap = 1 + sx_choose(4), over = sx_choose(4), k = sx_choose(5), more = sx_choose(6); mcp_server_config_t c; config(&c, b);
    sx_note("%.0f per second, %ld at most, %d over, %d s, %d more of %s", b.rate, b.max, over, gap, more, KIND[k]);
    sv_new(&c, 1, 1, 1, 1); sv_run();
    for (long i = 0; i < b.max; i++) deliver(k, 1);
    for (int i = 0; i < over; i++) deliver(k, 0);
    sx_ms += 1000 * gap;
    double t = gap * b.rate; if (t > (double)b.max) t = (double)b.max;
    for (int i = 0; i < more; i++) { int ok = t >= 1; if (ok) t -= 1; deliver(k, ok); }
    sv_end();
}
/* no rate configured: nothing is refused; two servers do not share an allowance */
static void off_run(void) {
    int how = sx_choose(3), n = sx_choose(5) * 10; bucket b = {0.25, 1}; mcp_server_config_t c; config(&c, b);
    if (how == 0) c.rate_limit_window_seconds = 0; else if (how == 1) c.rate_limit_max_requests = 0; else memset(&c, 0, sizeof c);
    sv_new(&c, 1, 1, 1, 1); sv_run();
    for (int i = 0; i < n; i++) deliver(sx_choose(n == 10 ? 2 : 1), 1);
    sv_end();
}
static void again_run(void) {
    bucket b = {1, 1 + sx_choose(3)}; mcp_server_config_t c; config(&c, b); int n = sx_choose(5);
    for (int s = 0; s < 3; s++) {
        sx_note("server %d, %d messages", s, n);
        sv_new(&c, 1, 1, 1, 1); sv_run();
        int k = sx_choose(5); for (int i = 0; i < n; i++) deliver(k, i < b.max);
        sv_end();
    }
}
static const sx_scenario S[] = {
    {"rate", sv_warm, rate_run, 0, "12 rates and bucket sizes x all histories of 5 (thorough 6) messages of five kinds and pauses"},
    {"burst", sv_warm, burst_run, 0, "buckets of 1-25, filled and overrun, then more after a pause"},
    {"off", sv_warm, off_run, 0, "no rate configured, up to 40 messages"},
    {"again", sv_warm, again_run, 0, "three servers one after the other"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
