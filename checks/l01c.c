/* L01: concurrent client calls over one transport whose answers come in every order, late, twice, wrong or not at all. */
#include "mcrt.h"
#include "mcp_client.h"
#include "mcp_transport.h"
#include "mcp_log.h"
#include "transport_internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* formatting requests and parsing answers involves nothing that is shared but the allocators: one step each */
int __real_mcp_json_parse_response(const char *, uint64_t *, mcp_error_code_t *, char **, char **);
int __wrap_mcp_json_parse_response(const char *j, uint64_t *id, mcp_error_code_t *c, char **m, char **r) { mc_atomic_begin(); int x = __real_mcp_json_parse_response(j, id, c, m, r); mc_atomic_end(); return x; }
char *__real_mcp_json_format_request_direct(uint64_t, const char *, const char *);
char *__wrap_mcp_json_format_request_direct(uint64_t id, const char *m, const char *p) { mc_atomic_begin(); char *x = __real_mcp_json_format_request_direct(id, m, p); mc_atomic_end(); return x; }

#define LIMIT 100
static mcp_client_t *C;
static mcp_transport_message_callback_t on_message; static mcp_transport_error_callback_t on_error; static void *ud;
static mcp_transport_t TR;
typedef struct { uint64_t id; int who; } sent; static sent Q[80]; static int nq, left[80];
typedef struct { int who, err, serial, s, e; uint64_t te; } answer; static answer A[96]; static int na;
typedef struct { int s, e; } broken; static broken B[4]; static int nb;
typedef struct { int used, ret, code, s, e, failed; uint64_t t0, t1; char *res, *msg; } call; static call K[80]; static int clk;
static int fail_send, lates, nest, nested, limit = LIMIT;
static int callers, done_callers;
static void make(int who);

static int t_start(mcp_transport_t *t, mcp_transport_message_callback_t cb, void *u, mcp_transport_error_callback_t e) { (void)t; on_message = cb; on_error = e; ud = u; return 0; }
static int t_stop(mcp_transport_t *t) { (void)t; return 0; }
static int t_sendv(mcp_transport_t *t, const mcp_buffer_t *b, size_t n) {
    (void)t; (void)n; char text[256]; size_t len = b[n - 1].size < 255 ? b[n - 1].size : 255; memcpy(text, b[n - 1].data, len); text[len] = 0;
    char *id = strstr(text, "\"id\":"), *m = strstr(text, "\"who\":");
    if (!id || !m) mc_fail("request", "a request without identifier or parameters is sent: %s", text);
    if (fail_send && mc_choose(2)) { K[atoi(m + 6)].failed = 1; return -1; }
    int q = nq++; Q[q].id = strtoull(id + 5, NULL, 10); Q[q].who = atoi(m + 6);
    for (int i = 0; i < q; i++) if (Q[i].id == Q[q].id && K[Q[i].who].e == 1000000) mc_fail("identifier", "two requests in progress have the identifier %llu", (unsigned long long)Q[q].id);
    mc_point();
    if (nested < nest) { nested++; make(10 + nested); }
    return 0;
}
static int t_send(mcp_transport_t *t, const void *d, size_t n) { (void)t; (void)d; (void)n; return -1; }
static int t_init(mcp_transport_t *t) { (void)t; return 0; }
static void t_destroy(mcp_transport_t *t) { (void)t; }
static void setup(void) {
    memset(&TR, 0, sizeof TR); TR.type = MCP_TRANSPORT_TYPE_CLIENT; TR.protocol_type = MCP_TRANSPORT_PROTOCOL_TCP;
    TR.client.init = t_init; TR.client.destroy = t_destroy; TR.client.start = t_start; TR.client.stop = t_stop; TR.client.send = t_send; TR.client.sendv = t_sendv;
    mcp_client_config_t c; memset(&c, 0, sizeof c); c.request_timeout_ms = (uint32_t)limit; C = mcp_client_create(&c, &TR);
    if (!C || !on_message) { fprintf(stderr, "no client\n"); exit(2); }
}
static void setup_forever(void) { limit = 0; setup(); }

/* what may have come back from a call */
static void judge(int w) {
    call *k = &K[w];
    if (k->ret == 0) {
        int n = -1, kk = -1;
        if (!k->res || k->code || sscanf(k->res, "{\"for\":%d,\"n\":%d}", &kk, &n) != 2) mc_fail("result", "call %d succeeds with '%s' and code %d", w, k->res ? k->res : "nothing", k->code);
        if (kk != w) mc_fail("other-response", "call %d gets the answer to call %d", w, kk);
        for (int i = 0; i < na; i++) if (A[i].who == w && !A[i].err && A[i].serial == n && A[i].s < k->e) { free(k->res); return; }
        mc_fail("response-from-nowhere", "call %d gets an answer that was not given", w);
    }
    if (k->res) mc_fail("result", "call %d fails with a result", w);
    for (int i = 0; i < na; i++) if (A[i].who == w && A[i].err && A[i].s < k->e && k->code == -32000 - A[i].serial) {
        int kk = -1; if (!k->msg || sscanf(k->msg, "for %d", &kk) != 1 || kk != w) mc_fail("error-message", "call %d fails with the message '%s'", w, k->msg ? k->msg : "");
        free(k->msg); return;
    }
    if (k->failed) { free(k->msg); return; }
    if (k->code != MCP_ERROR_TRANSPORT_ERROR) mc_fail("wrong-failure", "call %d fails with code %d ('%s')", w, k->code, k->msg ? k->msg : "");
    free(k->msg);
    for (int i = 0; i < nb; i++) if (B[i].s < k->e && B[i].e > k->s) return;
    /* so it is the time limit */
    if (!limit || k->t1 < k->t0 + LIMIT) mc_fail("failed-early", "call %d fails after %d ms of %d without a reason", w, (int)(k->t1 - k->t0), limit);
    for (int i = 0; i < na; i++) if (A[i].who == w && A[i].e < k->e && A[i].te < k->t0 + LIMIT) mc_fail("response-lost", "call %d times out although its answer came after %d ms", w, (int)(A[i].te - k->t0));
}
static void make(int who) {
    call *k = &K[who]; char p[40]; snprintf(p, sizeof p, "{\"who\":%d}", who);
    memset(k, 0, sizeof *k); k->used = 1; k->s = clk++; k->e = 1000000; k->t0 = mc_now_ms(); char *res = NULL, *msg = NULL; mcp_error_code_t code = 0;
    int r = mcp_client_send_request(C, "m", p, &res, &code, &msg);
    k->t1 = mc_now_ms(); k->e = clk++; k->ret = r; k->code = code; k->res = res; k->msg = msg;
    if (limit && k->t1 > k->t0 + LIMIT * (uint64_t)(callers + 1 + nest + lates)) mc_fail("late", "call %d returns after %d ms", who, (int)(k->t1 - k->t0));
    judge(who);
}
static int serial;
static void deliver(int who, uint64_t id, int err) {
    char t[160]; int a = na++; A[a] = (answer){who, err, ++serial, clk++, 1000000, 0};
    if (err) snprintf(t, sizeof t, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":%d,\"message\":\"for %d\"}}", (unsigned long long)id, -32000 - A[a].serial, who);
    else snprintf(t, sizeof t, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"for\":%d,\"n\":%d}}", (unsigned long long)id, who, A[a].serial);
    int e = 0; if (on_message(ud, t, strlen(t), &e)) mc_fail("reply", "the client answers an answer");
    A[a].e = clk++; A[a].te = mc_now_ms();
}

static int more(void *a) { return nq > *(int *)a || done_callers == callers; }
static int never(void *a) { (void)a; return 0; }
/* an action of the peer: answer any request so far well or with an error, answer an unknown one, be late, break, or stay silent */
static int peer_step(int breaks) {
    int n = nq, c = mc_choose_free(2 * n + 2 + breaks);
    if (c < 2 * n) { mc_trace("peer: %s for call %d", c & 1 ? "error" : "result", Q[c / 2].who); deliver(Q[c / 2].who, Q[c / 2].id, c & 1); }
    else if (c == 2 * n) { mc_trace("peer: late"); lates++; mc_block_until_timed(never, NULL, LIMIT); }
    else if (c == 2 * n + 1) { mc_trace("peer: done"); return 0; }
    else if (c == 2 * n + 2) { mc_trace("peer: transport error"); int b = nb++; B[b].s = clk++; B[b].e = 1000000; on_error(ud, -5); B[b].e = clk++; }
    else { mc_trace("peer: unknown identifier"); deliver(79, 999, 0); }
    return 1;
}
static int peer_steps, peer_breaks;
static void peer(void *a) { (void)a; int z = 0; mc_block_until(more, &z); for (int i = 0; i < peer_steps; i++) if (!peer_step(peer_breaks)) break; }
static void answer_all(void *a) { int want = (int)(long)a, i = 0; while (i < want) { mc_block_until(more, &i); if (nq <= i) break; for (; i < nq; i++) deliver(Q[i].who, Q[i].id, 0); } }
static void answer_reverse(void *a) { int want = (int)(long)a, w = want - 1; mc_block_until(more, &w); for (int i = nq - 1; i >= 0; i--) deliver(Q[i].who, Q[i].id, i & 1); }
static void one(void *a) { make((int)(long)a); done_callers++; }
static void two(void *a) { make((int)(long)a); make((int)(long)a + 1); done_callers++; }
static void begin(int n) { callers = n; done_callers = 0; nq = na = nb = clk = serial = nested = nest = lates = 0; fail_send = 0; memset(K, 0, sizeof K); }
static void finish(void) { int n = 0, ok = 0; for (int i = 0; i < 80; i++) if (K[i].used) { n++; ok += K[i].ret == 0; } mc_outcome("%d of %d succeed", ok, n); mcp_client_destroy(C); }

static void s_single(void) { begin(1); peer_steps = 3; peer_breaks = 2; int p = mc_spawn(peer, NULL); one((void *)0); mc_join(p); finish(); }
static void s_pair(void) { begin(2); peer_steps = 2; peer_breaks = 0; int p = mc_spawn(peer, NULL), b = mc_spawn(one, (void *)1); one((void *)0); mc_join(b); mc_join(p); finish(); }
static void s_seq(void) { begin(1); peer_steps = 4; peer_breaks = 0; int p = mc_spawn(peer, NULL); two((void *)0); mc_join(p); finish(); }
static void s_break(void) { begin(2); peer_steps = 2; peer_breaks = 1; int p = mc_spawn(peer, NULL), b = mc_spawn(one, (void *)1); one((void *)0); mc_join(b); mc_join(p); finish(); }
static void s_three(void) { begin(3); int p = mc_spawn(answer_reverse, (void *)3L), b = mc_spawn(one, (void *)1), c = mc_spawn(one, (void *)2); one((void *)0); mc_join(b); mc_join(c); mc_join(p); finish(); }
static void s_sendfail(void) { begin(2); fail_send = 1; int p = mc_spawn(answer_all, (void *)2L), b = mc_spawn(one, (void *)1); one((void *)0); mc_join(b); mc_join(p); finish(); }
static void s_peers(void) { begin(2); int p = mc_spawn(answer_all, (void *)2L), q = mc_spawn(answer_reverse, (void *)2L), b = mc_spawn(one, (void *)1); one((void *)0); mc_join(b); mc_join(p); mc_join(q); finish(); }
static void s_forever(void) { begin(2); int p = mc_spawn(answer_reverse, (void *)2L), b = mc_spawn(one, (void *)1); one((void *)0); mc_join(b); mc_join(p); finish(); }
/* the table of requests in progress grows while calls wait */
static void s_grow(void) { begin(2); nest = 46; int p = mc_spawn(answer_reverse, (void *)48L), b; b = mc_spawn(one, (void *)0); int w = 46; mc_block_until(more, &w); make(1); done_callers++; mc_join(b); mc_join(p); finish(); }
static void s_grow2(void) { begin(3); nest = 45; int p = mc_spawn(answer_all, (void *)48L), b = mc_spawn(one, (void *)0), c; int w = 45; mc_block_until(more, &w); c = mc_spawn(one, (void *)1); make(2); done_callers++; mc_join(b); mc_join(c); mc_join(p); finish(); }
static const mc_scenario S[] = {
    {"single", setup, s_single, 2, 3, MC_SPURIOUS, "one call and up to 3 acts of the peer: answers, errors, duplicates, unknown identifiers, silence, breaks"},
    {"pair", setup, s_pair, 1, 2, MC_SPURIOUS, "two concurrent calls and up to 2 acts of the peer"},
    {"again", setup, s_seq, 1, 2, MC_SPURIOUS, "two calls one after the other and up to 4 acts of the peer, also late"},
    {"break", setup, s_break, 1, 2, 0, "two calls and a transport that breaks"},
    {"three", setup, s_three, 1, 2, MC_SPURIOUS, "three concurrent calls answered in reverse"},
    {"send-fails", setup, s_sendfail, 2, 3, 0, "requests that cannot be sent"},
    {"peers", setup, s_peers, 1, 2, 0, "every answer given twice by two threads"},
    {"no-limit", setup_forever, s_forever, 2, 3, MC_SPURIOUS, "two calls without time limit"},
    {"grow", setup, s_grow, 1, 1, 0, "48 requests in progress"},
    {"grow2", setup, s_grow2, 0, 1, 0, "48 requests in progress, three waiting"},
};
int main(int c, char **v) { return mc_main(c, v, S, sizeof S / sizeof *S); }
