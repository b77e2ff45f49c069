/* L01: client calls one inside the other over a transport that answers anything at any time; identifiers given by the caller; transports that answer at once; batches. */
#include "seqx.h"
#include "mcp_client.h"
#include "mcp_transport.h"
#include "mcp_sync.h"
#include "transport_internal.h"
#include "mcp_thread_cache.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_json.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define LIMIT 100
static int (*on_wait)(uint32_t ms);
int __wrap_mcp_cond_timedwait(mcp_cond_t *c, mcp_mutex_t *m, uint32_t ms) {
    (void)c; if (on_wait) { mcp_mutex_unlock(m); int r = on_wait(ms); mcp_mutex_lock(m); return r; }
    sx_ms += ms; return -2;        /* nobody else can answer */
}
static mcp_client_t *C; static mcp_transport_t TR;
static mcp_transport_message_callback_t on_message; static mcp_transport_error_callback_t on_error; static void *ud;
static int t_start(mcp_transport_t *t, mcp_transport_message_callback_t cb, void *u, mcp_transport_error_callback_t e) { (void)t; on_message = cb; on_error = e; ud = u; return 0; }
static int t_stop(mcp_transport_t *t) { (void)t; return 0; }
static int t_init(mcp_transport_t *t) { (void)t; return 0; }
static void t_destroy(mcp_transport_t *t) { (void)t; }
static int t_send(mcp_transport_t *t, const void *d, size_t n) { (void)t; (void)d; (void)n; return -1; }
static int (*on_send)(uint64_t id, const char *text); static int (*on_receive)(char **d, size_t *n);
static int t_sendv(mcp_transport_t *t, const mcp_buffer_t *b, size_t n) {
    (void)t; static char text[8][1024]; static int w; char *x = text[w++ & 7]; size_t len = b[n - 1].size; if (len > 1023) len = 1023; memcpy(x, b[n - 1].data, len); x[len] = 0;
    const unsigned char *p = b[0].data; SX_CHECK(n == 2 && b[0].size == 4 && ((size_t)p[0] << 24 | (size_t)p[1] << 16 | (size_t)p[2] << 8 | p[3]) == b[1].size, "length", "the length sent is not that of the request");
    char *id = strstr(x, "\"id\":"); SX_CHECK(id, "request", "no identifier in %s", x); return on_send(strtoull(id + 5, NULL, 10), x);
}
static int t_receive(mcp_transport_t *t, char **d, size_t *n, uint32_t ms) { (void)t; (void)ms; return on_receive(d, n); }
static void fresh(int http) {
    mcp_arena_reset_current_thread();
    memset(&TR, 0, sizeof TR); TR.type = MCP_TRANSPORT_TYPE_CLIENT; TR.protocol_type = http == 1 ? MCP_TRANSPORT_PROTOCOL_HTTP : http == 2 ? MCP_TRANSPORT_PROTOCOL_WEBSOCKET : http == 3 ? MCP_TRANSPORT_PROTOCOL_STDIO : MCP_TRANSPORT_PROTOCOL_TCP;
    TR.client.init = t_init; TR.client.destroy = t_destroy; TR.client.start = t_start; TR.client.stop = t_stop; TR.client.send = t_send; TR.client.sendv = t_sendv; TR.client.receive = t_receive;
    mcp_client_config_t c; memset(&c, 0, sizeof c); c.request_timeout_ms = LIMIT; C = mcp_client_create(&c, &TR); SX_CHECK(C, "create", "no client");
}
static void say(const char *fmt, unsigned long long id, int n) { char t[300]; snprintf(t, sizeof t, fmt, id, n); int e = 0; SX_CHECK(!on_message(ud, t, strlen(t), &e), "reply", "the client answers an answer"); sx_op(); }
#define GOOD "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"n\":%d}}"
#define BAD "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":%d,\"message\":\"no\"}}"

/* ---- nested: inside each send the peer acts up to twice: answers any call in progress or a further call is made ---- */
static struct { uint64_t id; int got, n; } P[260]; static int np, budget, total, raw; static const uint64_t *IDS; static int nids;
static void call(uint64_t given);
static int nested_send(uint64_t id, const char *text) {
    (void)text; int me = np - 1; P[me].id = id;
    for (int i = 0; i < me; i++) SX_CHECK(P[i].id != id || P[i].got == 9, "identifier", "two calls in progress have the identifier %llu", (unsigned long long)id);
    for (int k = 0; k < 2; k++) {
        int act = sx_choose(1 + 2 * np + (budget > 0 ? (raw ? nids : 1) : 0) + 2);
        if (act == 0) break;
        if (act <= 2 * np) { int w = (act - 1) / 2, err = (act - 1) & 1; if (!P[w].got) { P[w].got = err ? 2 : 1; P[w].n = ++total; } else total++; sx_note("%s for %llu", err ? "error" : "result", (unsigned long long)P[w].id); say(err ? BAD : GOOD, P[w].id, err ? -32000 - total : total); }
        else if (act == 2 * np + 1) { sx_note("answer to unknown"); say(GOOD, P[0].id + 4294967296ULL, 1); }
        else if (act == 2 * np + 2) { sx_note("transport error"); for (int i = 0; i < np; i++) if (!P[i].got) P[i].got = 3; on_error(ud, -3); }
        else { budget--; call(raw ? IDS[act - 2 * np - 3] : 0); me = np - 1; }
    }
    return 0;
}
static void call(uint64_t given) {
    int me = np++, dup = 0; P[me].id = given; P[me].got = 0; for (int i = 0; i < me; i++) dup |= given && P[i].id == given;
    if (dup) P[me].got = 9;
    char *res = (char *)1, *msg = (char *)1; mcp_error_code_t code = 77; sx_note("call %llu {", (unsigned long long)given); double t0 = (double)sx_ms;
    int r = given ? mcp_client_send_raw_request(C, "m", "{}", given, &res, &code, &msg) : mcp_client_send_request(C, "m", NULL, &res, &code, &msg);
    sx_note("}"); sx_op(); char want[40]; sprintf(want, "{\"n\":%d}", P[me].n);
    switch (P[me].got) {
    case 1: SX_CHECK(r == 0 && res && !strcmp(res, want) && code == 0, "response-lost", "the answer to %llu (%s) is not what its call returns (%d, %s)", (unsigned long long)P[me].id, want, r, res ? res : "nothing"); break;
    case 2: SX_CHECK(r != 0 && !res && (int)code == -32000 - P[me].n && msg && !strcmp(msg, "no"), "error-lost", "the error answered to %llu is not what its call returns (%d, code %d)", (unsigned long long)P[me].id, r, code); break;
    case 9: SX_CHECK(r != 0 && !res, "identifier", "a call with the identifier of a call in progress succeeds"); break;
    default: SX_CHECK(r != 0 && !res && (int)code == MCP_ERROR_TRANSPORT_ERROR, "response-from-nowhere", "the unanswered call %llu returns %d, code %d, %s", (unsigned long long)P[me].id, r, code, res ? res : "nothing");
        if (P[me].got == 0) SX_CHECK((double)sx_ms - t0 >= LIMIT, "failed-early", "the call gives up after %g ms", (double)sx_ms - t0); }
    sx_class("%s", r == 0 ? "result" : P[me].got == 2 ? "error" : P[me].got == 9 ? "duplicate" : "no answer");
    free(res); free(msg); np--;
}
static int w_send(uint64_t id, const char *t) { (void)t; say(GOOD, id, 1); say(BAD, 99, -32001); return 0; }
static void warm(void) { for (int i = 0; i < 3; i++) { on_send = w_send; fresh(0); char *r = NULL, *m = NULL; mcp_error_code_t c; mcp_client_send_request(C, "m", "{}", &r, &c, &m); free(r); free(m); mcp_client_destroy(C); mcp_thread_cache_flush(); mcp_arena_reset_current_thread(); } }
static void nested_run(void) { long l0 = sx_live(); fresh(0); on_send = nested_send; np = total = raw = 0; budget = sx_thorough() ? 3 : 2; call(0); call(0); mcp_client_destroy(C); mcp_thread_cache_flush(); SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0); }
static void given_run(void) { static const uint64_t I[] = {5, 69, 9007199254740992ULL}; IDS = I; nids = 3; long l0 = sx_live(); fresh(0); on_send = nested_send; np = total = 0; raw = 1; budget = 1; for (int k = 0; k < (sx_thorough() ? 3 : 2); k++) call(I[sx_choose(3)]); mcp_client_destroy(C); mcp_thread_cache_flush(); SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0); }

/* ---- many: calls in progress up to beyond the growth of the table, answered in several orders; then more calls with the same identifiers ---- */
static int depth, want_depth, order; static uint64_t base, step;
static int many_send(uint64_t id, const char *text) {
    (void)id; (void)text;
    if (depth < want_depth) { depth++; call(base ? base + (uint64_t)depth * step : 0); return 0; }
    for (int k = 0; k < np; k++) { int w = order == 0 ? k : order == 1 ? np - 1 - k : (k * 7) % np; if (order == 2 && np % 7 == 0) w = k; if (P[w].got) continue; P[w].got = w % 5 == 4 ? 2 : 1; P[w].n = ++total; say(w % 5 == 4 ? BAD : GOOD, P[w].id, w % 5 == 4 ? -32000 - total : total); }
    return 0;
}
static int many_id(uint64_t id, const char *t) { P[np - 1].id = id; return many_send(id, t); }
static void many_run(void) {
    static const uint64_t ST[] = {1, 64, 128, 4294967296ULL};
    fresh(sx_flip() ? 3 : 0); on_send = many_id; np = total = 0; raw = 1; order = sx_choose(3); int own = sx_flip(); base = own ? 0 : 1; step = own ? 1 : ST[sx_choose(4)];
    int n = sx_choose(sx_thorough() ? 420 : 130); if (n > 250) n = 250;
    for (int round = 0; round < 3; round++) { depth = 0; want_depth = n; call(base); }
    mcp_client_destroy(C); mcp_thread_cache_flush();
}
/* ---- transports that answer at once ---- */
static uint64_t last; static int shape; static int k_send(uint64_t id, const char *t) { (void)t; last = id; return shape == 9 ? -1 : 0; }
static int k_receive(char **d, size_t *n) {
    char t[200]; *d = NULL; *n = 0;
    switch (shape) {
    case 0: sprintf(t, GOOD, (unsigned long long)last, 5); break;
    case 1: sprintf(t, BAD, (unsigned long long)last, -32005); break;
    case 2: sprintf(t, GOOD, (unsigned long long)last - 1, 5); break;
    case 3: sprintf(t, GOOD, (unsigned long long)last + 1, 5); break;
    case 4: strcpy(t, "{\"jsonrpc\":\"2.0\",\"id\":"); break;
    case 5: sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":%llu}", (unsigned long long)last); break;
    case 6: return -1;
    case 7: return 0;
    case 8: sprintf(t, BAD, (unsigned long long)last + 1, -32005); break;
    case 10: sprintf(t, GOOD, (unsigned long long)last + 4294967296ULL, 5); break;
    default: return -1;
    }
    *d = strdup(t); *n = strlen(t); return 0;
}
static void sync_run(void) {
    long l0 = sx_live(); fresh(1 + sx_flip()); on_send = k_send; on_receive = k_receive;
    for (int k = 0; k < 3; k++) {
        shape = sx_choose(11); int raw_id = sx_choose(3); char *res = (char *)1, *msg = (char *)1; mcp_error_code_t code = 77; sx_note("answer %d", shape); sx_op();
        int r = raw_id ? mcp_client_send_raw_request(C, "m", "{}", (uint64_t)raw_id * 1000, &res, &code, &msg) : mcp_client_send_request(C, "m", "{}", &res, &code, &msg);
        if (shape == 0) SX_CHECK(r == 0 && res && !strcmp(res, "{\"n\":5}") && code == 0, "response-lost", "%d %s", r, res ? res : "nothing");
        else if (shape == 1) SX_CHECK(r != 0 && (int)code == -32005 && !res, "error-lost", "%d code %d", r, code);
        else SX_CHECK(r != 0 && !res && (int)code != -32005, "response-from-nowhere", "shape %d gives %d, %s", shape, r, res ? res : "nothing");
        free(res); free(msg);
    }
    mcp_client_destroy(C); mcp_thread_cache_flush(); SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0);
}
/* ---- batches: each response is that of its request ---- */
static int bk, bshape[4]; static int b_send(uint64_t id, const char *t) {
    char m[8]; sprintf(m, "\"m%d\"", bk); SX_CHECK(strstr(t, m), "request", "request %d of the batch is %s", bk, t);
    int s = bshape[bk++]; if (s == 0) say(GOOD, id, bk); else if (s == 1) say(BAD, id, -32000 - bk); else if (s == 2) return -1; return 0;
}
static void batch_run(void) {
    long l0 = sx_live(); fresh(0); on_send = b_send; int n = 1 + sx_choose(4), opt = sx_flip(); bk = 0; for (int i = 0; i < n; i++) bshape[i] = sx_choose(4);
    mcp_batch_request_t q[4]; static const char *M[] = {"m0", "m1", "m2", "m3"}; memset(q, 0, sizeof q); for (int i = 0; i < n; i++) { q[i].method = M[i]; q[i].params = i & 1 ? "{\"a\":1}" : NULL; q[i].id = 100u - (unsigned)i; }
    mcp_batch_response_t *a = NULL; size_t c = 0; int r = (opt ? mcp_client_send_batch_request_optimized : mcp_client_send_batch_request)(C, q, (size_t)n, &a, &c); sx_op();
    SX_CHECK(r == 0 && c == (size_t)n && a && bk == n, "batch", "%d responses to %d requests, %d sent", (int)c, n, bk);
    for (int i = 0; i < n; i++) {
        char w[40]; sprintf(w, "{\"n\":%d}", i + 1); SX_CHECK(a[i].id == 100u - (unsigned)i, "batch", "response %d is for %llu", i, (unsigned long long)a[i].id);
        if (bshape[i] == 0) SX_CHECK(a[i].result && !strcmp(a[i].result, w) && a[i].error_code == 0, "response-lost", "request %d of a batch", i);
        else SX_CHECK(!a[i].result && (bshape[i] == 1 ? (int)a[i].error_code == -32001 - i : a[i].error_code != 0), "error-lost", "request %d of a batch: code %d", i, a[i].error_code);
    }
    mcp_client_free_batch_responses(a, c); mcp_client_destroy(C); mcp_thread_cache_flush(); SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0);
}
/* ---- waits that end for no reason: the time a call may take does not start again ---- */
static uint64_t wid; static int woken, wgot; static int wt_send(uint64_t id, const char *t) { (void)t; wid = id; return 0; }
static int wakes(uint32_t ms) {
    if (woken++ > 5) { sx_ms += ms; return -2; }
    int k = sx_choose(7); static const unsigned D[] = {0, 1, 40, 99}; sx_note("%u ms to wait: %d", ms, k);
    if (k == 0) { sx_ms += ms; return -2; }
    if (k < 5) { unsigned d = D[k - 1]; if (d > ms) d = ms; sx_ms += d; return 0; }
    sx_ms += ms / 2; if (k == 5) { wgot = 1; say(GOOD, wid, 5); } else say(GOOD, wid + 1, 5);
    return 0;
}
static void wakes_run(void) {
    long l0 = sx_live(); fresh(0); on_send = wt_send; on_wait = wakes;
    for (int k = 0; k < 1 + sx_thorough(); k++) {
        woken = wgot = 0; long long t0 = sx_ms; char *res = NULL, *msg = NULL; mcp_error_code_t code = 77; int r = mcp_client_send_request(C, "m", NULL, &res, &code, &msg); sx_op();
        if (wgot) SX_CHECK(r == 0 && res && !strcmp(res, "{\"n\":5}"), "response-lost", "%d %s", r, res ? res : "nothing");
        else { SX_CHECK(r != 0 && !res, "response-from-nowhere", "%d %s", r, res ? res : "nothing"); SX_CHECK(sx_ms - t0 >= LIMIT, "failed-early", "the call gives up after %lld ms", sx_ms - t0); }
        SX_CHECK(sx_ms - t0 <= LIMIT + 2, "late", "the call returns after %lld ms, its limit is %d", sx_ms - t0, LIMIT); sx_class(wgot ? "answered" : "timed out"); free(res); free(msg);
    }
    on_wait = NULL; mcp_client_destroy(C); mcp_thread_cache_flush(); SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0);
}
/* ---- steady: what ends in some way, however often, leaves nothing behind ---- */
static int st_shape; static int st_send(uint64_t id, const char *t) {
    (void)t; switch (st_shape) { case 0: say(GOOD, id, 1); return 0; case 1: say(BAD, id, -32001); return 0; case 2: return -1; case 3: return 0; case 4: on_error(ud, -3); return 0; case 5: say(GOOD, id, 1); say(GOOD, id, 2); return 0; default: say(GOOD, id, 1); return -1; }
}
static int st_receive(char **d, size_t *n) { char t[200]; if (st_shape == 0) sprintf(t, GOOD, (unsigned long long)wid, 5); else if (st_shape == 1) sprintf(t, BAD, (unsigned long long)wid, -32005); else if (st_shape == 2) strcpy(t, "{"); else return -1; *d = strdup(t); *n = strlen(t); return 0; }
static void steady_run(void) {
    int http = sx_choose(2), a = sx_choose(http ? 4 : 7), b = sx_choose(http ? 4 : 7), raw_ = sx_choose(2); fresh(http); on_send = http ? wt_send : st_send; on_receive = st_receive; long at = 0; sx_note("ways %d and %d", a, b);
    for (int i = 0; i < 400; i++) {
        st_shape = i & 1 ? b : a; char *res = NULL, *msg = NULL; mcp_error_code_t code; raw_ ? mcp_client_send_raw_request(C, "m", "{}", 1000u + (unsigned)i, &res, &code, &msg) : mcp_client_send_request(C, "m", "{}", &res, &code, &msg); sx_op(); free(res); free(msg); mcp_arena_reset_current_thread();
        if ((i & 1) && i < 100) at = sx_live(); else if (i & 1) SX_CHECK(sx_live() <= at, "growth", "%ld blocks more after %d calls", sx_live() - at, i + 1);
    }
    mcp_client_destroy(C); mcp_thread_cache_flush();
}
/* ---- threads of their own: each makes one call and ends ---- */
#include <pthread.h>
static void *one_call(void *a) { int k = *(int *)a; char *res = NULL, *msg = NULL; mcp_error_code_t code; k ? mcp_client_send_raw_request(C, "m", "{}", 1000u + (unsigned)k, &res, &code, &msg) : mcp_client_send_request(C, "m", "{}", &res, &code, &msg); free(res); free(msg); mcp_thread_cache_cleanup(); return NULL; }
static void *one_message(void *a) { say(a ? BAD : GOOD, 4242, 1); mcp_thread_cache_cleanup(); return NULL; }
static void own(void *(*f)(void *), void *a) { pthread_t t; pthread_create(&t, NULL, f, a); pthread_join(t, NULL); sx_op(); }
static void *control(void *a) { (void)a; mcp_arena_init_current_thread(4096); mcp_json_destroy(mcp_json_parse("{\"a\":{\"b\":[1,2]}}")); mcp_arena_destroy_current_thread(); return NULL; }   /* what any thread that makes an object leaves */
static void threads_run(void) {
    int http = sx_choose(3), w = sx_choose(http ? 4 : 7), deliver = sx_choose(2), raw_ = sx_choose(2); fresh(http); on_send = http ? wt_send : st_send; on_receive = st_receive; long at = 0; st_shape = w; long c0 = 0; for (int i = 0; i < 144; i++) { own(control, NULL); if (i == 99) c0 = sx_live(); } c0 = sx_live() - c0;
    for (int i = 0; i < 60; i++) {
        int k = raw_ ? i + 1 : 0; if (deliver) own(one_message, i & 1 ? &k : NULL); else own(one_call, &k);
        if (i == 15) at = sx_live(); if (i == 59) SX_CHECK(sx_live() <= at + c0 + 20, "thread-leaves", "%ld blocks more after 44 threads %s (%ld without)", sx_live() - at, deliver ? "received an answer" : "made a call", c0);
    }
    mcp_client_destroy(C); mcp_thread_cache_flush();
}
/* ---- the receive thread of the TCP transport: long messages, however many, do not add up ---- */
#include "internal/tcp_client_transport_internal.h"
#include <sys/select.h>
static mcp_tcp_client_transport_data_t TD; static mcp_transport_t TT; static int rx, rx_n, rx_len, rx_seen; static long rx_at;
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { (void)n; (void)w; (void)e; (void)t; (void)r; return 1; }
int __wrap_mcp_socket_send_vectors(socket_t s, mcp_iovec_t *v, int n, volatile bool *stop) { (void)s; (void)v; (void)n; (void)stop; return 0; }
int __wrap_mcp_framing_recv_message(socket_t s, char **d, uint32_t *n, uint32_t max, volatile bool *stop) {
    (void)s; (void)max; (void)stop;
    if (rx <= 60) { if (sx_live() > rx_at) rx_at = sx_live(); } else SX_CHECK(sx_live() <= rx_at, "growth", "%ld blocks more after %d messages of %d bytes", sx_live() - rx_at, rx, rx_len);
    if (++rx > rx_n) { TD.running = false; return -1; }
    char *m = malloc((size_t)rx_len + 100); int k = sprintf(m, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"result\":[", rx); while (k < rx_len) { memcpy(m + k, "\"aaaaaa\",", 9); k += 9; } k += sprintf(m + k, "0]}"); *d = m; *n = (uint32_t)k; sx_op(); return 0;
}
static char *count_message(void *u, const void *d, size_t n, int *e) { rx_seen++; return on_message(u, d, n, e); }
static void receiver_run(void) {
    static const int LN[] = {100, 4000, 60000, 300000}; fresh(0); rx = rx_seen = 0; rx_at = 0; rx_len = LN[sx_choose(4)]; rx_n = rx_len < 1000 ? 20000 : 120;
    memset(&TD, 0, sizeof TD); memset(&TT, 0, sizeof TT); TD.sock = 5; TD.running = true; TD.connected = true; TD.transport_handle = &TT; TT.transport_data = &TD; TT.message_callback = count_message; TT.callback_user_data = ud;
    pthread_t t; pthread_create(&t, NULL, tcp_client_receive_thread_func, &TT); pthread_join(t, NULL); SX_CHECK(rx_seen == rx_n, "lost", "%d messages of %d handed over", rx_seen, rx_n); mcp_client_destroy(C); mcp_thread_cache_flush();
}
static const sx_scenario S[] = {
    {"nested", warm, nested_run, 0, "two calls, with 2 (thorough 3) more made while it is sent, and up to 2 acts of the peer inside each send"},
    {"given", warm, given_run, 0, "2 (thorough 3) calls with identifiers from the caller, also used again, and one inside"},
    {"many", warm, many_run, 0, "0-129 (thorough 250) calls in progress answered in 3 orders, three times over"},
    {"sync", warm, sync_run, 0, "all sequences of 3 answers of a transport that answers at once"},
    {"wakes", warm, wakes_run, 0, "1 (2) calls whose waits end early up to 6 times after every delay, with and without an answer"},
    {"steady", warm, steady_run, 0, "400 calls ending in every two ways"},
    {"threads", warm, threads_run, 0, "60 threads, each of which makes one call or receives one answer"},
    {"receiver", warm, receiver_run, 0, "120 long or 20000 short messages through the receive thread of the TCP transport"},
    {"batch", warm, batch_run, 0, "batches of up to 4, each request answered, failed, refused or unanswered"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
