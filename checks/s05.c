/* S05: stopping the server while messages are being answered, on a transport that does not wait for them itself. */
#include "mcrt.h"
#include "mcp_server.h"
#include "mcp_transport.h"
#include "transport_internal.h"
#include "mcp_thread_pool.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_types.h"
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* the pool's threads take no part in answering messages */
mcp_thread_pool_t *__wrap_mcp_thread_pool_create(size_t n, size_t q) { (void)n; (void)q; return (mcp_thread_pool_t *)malloc(1); }
int __wrap_mcp_thread_pool_destroy(mcp_thread_pool_t *p) { free(p); return 0; }

/* parsing, dispatching and formatting involve nothing that takes part in stopping: one step each, around the handler */
static int whole[64];
char *__real_handle_message(mcp_server_t *, const void *, size_t, int *);
char *__wrap_handle_message(mcp_server_t *s, const void *d, size_t n, int *e) {
    int me = mc_self();
    mc_atomic_begin(); whole[me] = 1; char *r = __real_handle_message(s, d, n, e); whole[me] = 0; mc_atomic_end();
    return r;
}

#define WAIT 1000
#define NEVER 1000000
static mcp_server_t *S;
static mcp_transport_message_callback_t cb; static void *cbud;
static mcp_transport_t TR;
static int limited, clk, inside, arrived, finished, stop_s, stop_e, timed, destroying;
static uint64_t last_end;
static int hold[16], calls[16], handler_end[16];
static int t_start(mcp_transport_t *t, mcp_transport_message_callback_t c, void *u, mcp_transport_error_callback_t e) { (void)t; (void)e; cb = c; cbud = u; return 0; }
static int drains, ncallers, stopped_transport;
static int all_done(void *a) { (void)a; return finished == ncallers; }
static int t_stop(mcp_transport_t *t) { (void)t; stopped_transport++; mc_point(); if (drains) mc_block_until(all_done, NULL); return 0; }
static int never(void *a) { (void)a; return 0; }

static mcp_error_code_t tool(mcp_server_t *s, const char *name, const mcp_json_t *args, void *ud, mcp_content_item_t ***c, size_t *n, bool *is_error, char **msg) {
    (void)s; (void)args; (void)ud;
    int me = mc_self(), w = name[0] - '0', open = whole[me];
    if (stop_e < NEVER && !timed) mc_fail("handler-starts", "a handler starts after stopping the server returned");
    calls[w]++; inside++; arrived++;
    if (open) mc_atomic_end();
    mc_point();
    if (hold[w]) mc_block_until_timed(never, NULL, (uint64_t)hold[w]);
    mc_point();
    if (open) mc_atomic_begin();
    inside--; handler_end[w] = clk++;
    *msg = NULL; *is_error = false; *n = 1; *c = calloc(1, sizeof **c); (*c)[0] = mcp_content_item_create(MCP_CONTENT_TYPE_TEXT, "text/plain", name, strlen(name) + 1);
    return MCP_ERROR_NONE;
}
static mcp_server_config_t CF;
static void make(void) {
    mcp_server_capabilities_t k; memset(&k, 0, sizeof k); k.tools_supported = true;
    CF.graceful_shutdown_timeout_ms = WAIT;
    S = mcp_server_create(&CF, &k); if (!S) { fprintf(stderr, "no server\n"); exit(2); }
    mcp_server_set_tool_handler(S, tool, NULL);
    memset(&TR, 0, sizeof TR); TR.type = MCP_TRANSPORT_TYPE_SERVER; TR.server.start = t_start; TR.server.stop = t_stop;
    if (mcp_server_start(S, &TR) || !cb) { fprintf(stderr, "server does not start\n"); exit(2); }
}
static void setup(void) { memset(&CF, 0, sizeof CF); make(); }
static void setup_small(void) { memset(&CF, 0, sizeof CF); CF.max_message_size = 120; make(); }
static void setup_rate(void) { memset(&CF, 0, sizeof CF); CF.rate_limit_window_seconds = 60; CF.rate_limit_max_requests = 1; CF.max_tokens = 1; CF.tokens_per_second = 0.001; make(); }
static void setup_adv(void) { memset(&CF, 0, sizeof CF); CF.rate_limit_window_seconds = 60; CF.rate_limit_max_requests = 1; CF.use_advanced_rate_limiter = true; CF.max_tokens = 1; CF.tokens_per_second = 0.001; make(); }

enum { CALL, PING, LARGE, BROKEN, LATE };
typedef struct { int s, e, got, err; } ask; static ask K[16];
static void send_kind(int w, int kind) {
    char t[400]; int id = 100 + w;
    if (kind == PING) snprintf(t, sizeof t, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"ping\"}", id);
    else if (kind == BROKEN) snprintf(t, sizeof t, "{\"jsonrpc\":\"2.0\",\"id\":%d,", id);
    else if (kind == LARGE) snprintf(t, sizeof t, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"call_tool\",\"params\":{\"name\":\"%d\",\"arguments\":{\"text\":\"%0100d\"}}}", id, w, 0);
    else snprintf(t, sizeof t, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"call_tool\",\"params\":{\"name\":\"%d\",\"arguments\":{}}}", id, w);
    ask *k = &K[w]; k->s = clk++; k->e = NEVER; int e = 0;
    char *r = cb(cbud, t, strlen(t), &e);
    k->e = clk++; k->err = e; k->got = r != NULL; limited += e == MCP_ERROR_TOO_MANY_REQUESTS; last_end = mc_now_ms(); finished++;
    mc_trace("message %d: %s, error %d", w, r ? r : "no answer", e);
    char want[24]; snprintf(want, sizeof want, "\"id\":%d", id);
    int tool_call = kind == CALL || kind == LARGE;
    if (r) {
        if (kind != BROKEN && !strstr(r, want)) mc_fail("answer", "message %d is answered with '%s'", w, r);
        if (k->s > stop_e) mc_fail("answered-after-stop", "a message that arrives after stopping returned is answered");
        if (tool_call && calls[w] != 1) mc_fail("answer", "message %d is answered although its handler was called %d times", w, calls[w]);
        if (tool_call && !strstr(r, "\"content\"")) mc_fail("answer", "message %d is answered with '%s'", w, r);
        free(r);
    } else {
        if (!e) mc_fail("no-answer", "message %d gets neither an answer nor an error", w);
        if (calls[w]) mc_fail("answer-lost", "message %d is not answered (error %d) although its handler ran", w, e);
        if (e == MCP_ERROR_SERVER_SHUTTING_DOWN && k->e < stop_s) mc_fail("refused-early", "message %d is refused before stopping begins", w);
        if (k->s > stop_e && e != MCP_ERROR_SERVER_SHUTTING_DOWN) mc_fail("refused-otherwise", "a message after stopping returned fails with %d", e);
        if (kind == CALL && e != MCP_ERROR_SERVER_SHUTTING_DOWN && !CF.rate_limit_max_requests) mc_fail("refused-otherwise", "message %d fails with %d", w, e);
    }
}
static void caller(void *a) { long v = (long)a; send_kind((int)(v & 15), (int)(v >> 4)); mcp_arena_destroy_current_thread(); }
#define CALLER(w, kind) (mc_spawn(caller, (void *)(long)((w) | (kind) << 4)))

static void stop(int again) {
    stop_s = clk++; uint64_t t0 = mc_now_ms();
    int r = mcp_server_stop(S);
    uint64_t t1 = mc_now_ms(); int in = inside, fin = finished, at = clk; stop_e = clk++; timed = t1 - t0 >= WAIT;
    mc_trace("stop returned %d after %d ms, %d handlers inside", r, (int)(t1 - t0), in);
    if (r) mc_fail("stop", "stopping fails");
    if (!stopped_transport) mc_fail("transport", "the transport is not stopped");
    if (in && t1 - t0 < WAIT) mc_fail("handler-running", "stopping returns after %d ms while %d handlers are running", (int)(t1 - t0), in);
    if (t1 - t0 < WAIT) for (int i = 0; i < 16; i++) if (calls[i] && K[i].s < at && K[i].e == NEVER && !destroying) mc_outcome("answer still to be handed over");
    if (fin == ncallers && fin && t1 - (last_end > t0 ? last_end : t0) >= WAIT) mc_fail("stop-late", "stopping takes %d ms although the last request ended after %d ms", (int)(t1 - t0), (int)(last_end - t0));
    if (!ncallers && t1 != t0) mc_fail("stop-late", "stopping an idle server takes %d ms", (int)(t1 - t0));
    if (again) { if (mcp_server_stop(S)) mc_fail("stop", "stopping again fails"); if (mc_now_ms() != t1) mc_fail("stop-late", "stopping again waits"); }
}
static void begin(int n) { limited = clk = timed = inside = arrived = finished = 0; stop_s = stop_e = NEVER; last_end = 0; ncallers = n; stopped_transport = drains = destroying = 0; memset(hold, 0, sizeof hold); memset(calls, 0, sizeof calls); memset(K, 0, sizeof K); memset(whole, 0, sizeof whole); }
static void finish(void) {
    int a = 0; for (int i = 0; i < 16; i++) a += K[i].got;
    mc_outcome("%d answered", a);
    int e = 0; char *r = cb(cbud, "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"call_tool\",\"params\":{\"name\":\"9\"}}", 67, &e);
    if (r || !e) mc_fail("answered-after-stop", "a message after stopping returned is %s", r ? "answered" : "dropped without an error");
    mcp_server_destroy(S);
}
static int here(void *a) { return arrived >= *(int *)a; }

static void s_one(void) { begin(1); int a = CALLER(0, CALL); stop(1); mc_join(a); finish(); }
static void s_two(void) { begin(2); int a = CALLER(0, CALL), b = CALLER(1, CALL); stop(0); mc_join(a); mc_join(b); finish(); }
static void s_three(void) { begin(3); int a = CALLER(0, CALL), b = CALLER(1, CALL), c = CALLER(2, PING); stop(0); mc_join(a); mc_join(b); mc_join(c); finish(); }
static void s_slow(void) { begin(2); hold[0] = 300; hold[1] = 500; int a = CALLER(0, CALL), b = CALLER(1, CALL), n = 2; mc_block_until(here, &n); stop(0); mc_join(a); mc_join(b); finish(); }
static void s_slow1(void) { begin(2); hold[0] = 300; int a = CALLER(0, CALL), n = 1; mc_block_until(here, &n); int b = CALLER(1, CALL); stop(0); mc_join(a); mc_join(b); finish(); }
static void s_stuck(void) {       /* a handler that outlasts the limit does not keep the server from stopping */
    begin(1); hold[0] = 5000; int a = CALLER(0, CALL), n = 1; mc_block_until(here, &n);
    uint64_t t0 = mc_now_ms(); stop(0); uint64_t d = mc_now_ms() - t0;
    if (d > 5000 + WAIT) mc_fail("hangs", "stopping takes %d ms", (int)d);
    mc_join(a); mcp_server_destroy(S);
}
static void s_kinds(void) {
    begin(2); int k = mc_choose_free(4), a = CALLER(0, CALL), b = CALLER(1, k == 0 ? PING : k == 1 ? LARGE : k == 2 ? BROKEN : CALL);
    stop(0); mc_join(a); mc_join(b); finish();
}
static void s_refused(void) {     /* messages refused for their size or their number before: nothing is in progress afterwards */
    begin(2); int k = mc_choose_free(2); send_kind(1, k ? LARGE : CALL); send_kind(2, LARGE);
    for (int i = 3; i < 6 && CF.rate_limit_max_requests; i++) send_kind(i, k ? CALL : PING);
    if (CF.rate_limit_max_requests && !limited) mc_fail("not-limited", "five messages are within a rate of one in a thousand seconds");
    finished = 0; ncallers = 1; last_end = 0;
    int a = CALLER(0, PING); stop(0); mc_join(a); finish();
}
static void s_idle(void) { begin(0); int k = mc_choose_free(4); for (int i = 0; i < k; i++) send_kind(i, i == 1 ? LARGE : CALL); last_end = 0; finished = 0; stop(1); finish(); }
static void s_destroy(void) {     /* requests in progress when stopping begins may still be returning when the server is destroyed */
    begin(2); destroying = 1; int a = CALLER(0, CALL), b = CALLER(1, CALL), n = 2; mc_block_until(here, &n);
    uint64_t t0 = mc_now_ms(); stop(0);
    if (mc_now_ms() - t0 < WAIT) mcp_server_destroy(S);
    mc_join(a); mc_join(b);
}
static void s_drains(void) { begin(2); drains = 1; hold[0] = 300; int a = CALLER(0, CALL), b = CALLER(1, CALL); uint64_t t0 = mc_now_ms(); stop(0); if (mc_now_ms() - t0 >= 300 + WAIT) mc_fail("stop-late", "stopping waits although the transport has waited"); mcp_server_destroy(S); mc_join(a); mc_join(b); }

static const mc_scenario SC[] = {
    {"one", setup, s_one, 4, 6, 0, "a message is delivered while the server is stopped"},
    {"two", setup, s_two, 2, 3, 0, "two messages and stopping"},
    {"three", setup, s_three, 1, 2, 0, "three messages and stopping"},
    {"spurious", setup, s_two, 2, 3, MC_SPURIOUS, "two messages and stopping; waits may end for no reason"},
    {"slow", setup, s_slow, 1, 2, MC_SPURIOUS, "handlers that take time are running when stopping begins"},
    {"slow-one", setup, s_slow1, 2, 3, MC_SPURIOUS, "one handler is running, another message arrives during stopping"},
    {"stuck", setup, s_stuck, 4, 5, 0, "a handler outlasts the time limit for stopping"},
    {"kinds", setup_small, s_kinds, 2, 3, 0, "a call and a ping, a too large, a broken message or another call, and stopping"},
    {"refused", setup_small, s_refused, 4, 7, 0, "stopping after too large messages"},
    {"rate", setup_rate, s_refused, 4, 6, 0, "stopping after messages that exceed the rate"},
    {"rate-advanced", setup_adv, s_refused, 4, 6, 0, "stopping after messages that exceed the rate, with the advanced limiter"},
    {"idle", setup_small, s_idle, 2, 4, MC_SPURIOUS, "stopping after up to three messages, one of them too large"},
    {"destroy", setup, s_destroy, 2, 3, MC_SPURIOUS, "the server is destroyed right after stopping while the last callers return"},
    {"drains", setup, s_drains, 2, 3, 0, "a transport that waits for its messages itself"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, SC, sizeof SC / sizeof *SC); }
