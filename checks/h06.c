/* H06: a streamable HTTP client serves several threads at once, and stopping, reconnecting and releasing it is safe at any moment. */
#include "mcrt.h"
#include "mcp_sthttp_client_transport.h"
#include "internal/transport_internal.h"
#include "mcp_socket_utils.h"
#include "mcp_sync.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
extern size_t __real_strlen(const char *); extern void *__real_memcpy(void *, const void *, size_t); extern char *__real_strcpy(char *, const char *); extern int __real_strncmp(const char *, const char *, size_t); extern int __real_strcmp(const char *, const char *);

/* ---- the server: each connection has what was sent and what is to be received ------------- */
#define NS 16
typedef struct { int open, used, closed_by_server, reading; char in[600], out[600]; int in_n, in_pos, out_n; } conn;
static conn C[NS]; static int nc, sse_len, session_no, sse_conns; static const char *sse_text; static int sse_close;
#define BASE 900
static conn *get(socket_t s) { int i = (int)s - BASE; if (i < 0 || i >= nc) mc_fail("wrong-socket", "socket %d is used", (int)s); if (!C[i].open) mc_fail("closed-socket", "a closed socket is used"); return &C[i]; }
static void add(conn *c, const char *s) { size_t n = __real_strlen(s); __real_memcpy(c->in + c->in_n, s, n); c->in_n += (int)n; }
static void serve(conn *c) {          /* a request is complete when its head and body are there */
    char *h = NULL; for (int i = 0; i + 3 < c->out_n; i++) if (!__real_strncmp(c->out + i, "\r\n\r\n", 4)) { h = c->out + i + 4; break; }
    if (!h) return;
    if (!__real_strncmp(c->out, "GET ", 4)) { sse_conns++; add(c, "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n\r\n"); if (sse_text) add(c, sse_text); c->closed_by_server = sse_close; }
    else if (!__real_strncmp(c->out, "POST", 4)) { char b[200]; int n = (int)(c->out + c->out_n - h); snprintf(b, sizeof b, "HTTP/1.1 200 OK\r\nMcp-Session-Id: s%d\r\nContent-Length: %d\r\n\r\n%.*s", ++session_no, n, n, h); add(c, b); }
}
socket_t __wrap_mcp_socket_connect(const char *h, uint16_t p, uint32_t ms) { mc_point(); mc_atomic_begin(); if (nc >= NS) mc_fail("connections", "more than %d connections", NS); int i = nc++; C[i].open = C[i].used = 1; mc_atomic_end(); return BASE + i; }
int __wrap_mcp_socket_close(socket_t s) { mc_point(); conn *c = get(s); if (c->reading) mc_fail("closed-in-use", "a socket is closed while another thread reads from it"); c->open = 0; return 0; }
int __wrap_mcp_socket_send_exact(socket_t s, const char *b, size_t n, volatile bool *stop) { mc_point(); conn *c = get(s); mc_atomic_begin(); __real_memcpy(c->out + c->out_n, b, n); c->out_n += (int)n; serve(c); mc_atomic_end(); return 0; }
static int readable(void *a) { conn *c = a; return c->in_pos < c->in_n || c->closed_by_server || !c->open; }
int __wrap_mcp_socket_wait_readable(socket_t s, int ms, volatile bool *stop) { if (s == MCP_INVALID_SOCKET) return -1; conn *c = get(s); c->reading++; int r = mc_block_until_timed(readable, c, ms); c->reading--; return r ? 0 : 1; }
ssize_t __wrap_recv(int s, void *b, size_t n, int f) { mc_point(); conn *c = get(s); int k = c->in_n - c->in_pos; if (!k) { if (c->closed_by_server) return 0; errno = EAGAIN; return -1; } if (k > (int)n) k = (int)n; __real_memcpy(b, c->in + c->in_pos, (size_t)k); c->in_pos += k; return k; }

/* ---- the client ---------------------------------------------------------------------------- */
static mcp_transport_t *T; static int stopped, events, errs, released; static int in_send[4]; static int answers[4];
static int me[16];
static char *on_message(void *u, const void *d, size_t n, int *e) { *e = 0; mc_point(); if (released) mc_fail("callback-after-release", "a message is delivered after the client was released"); const char *s = d; int k = s[0] - '0'; if (n != 3 || k != me[mc_self()]) mc_fail("wrong-answer", "the answer to message %d goes to the sender of %d (%d bytes)", k, me[mc_self()], (int)n); answers[k]++; return NULL; }
static void on_error(void *u, int c) { errs++; }
static void on_event(mcp_transport_t *t, const char *id, const char *type, const char *d, void *u) { mc_point(); if (stopped) mc_fail("event-after-stop", "an event is delivered after the client was stopped"); if (!id || id[0] != '7' || id[1]) mc_fail("event-id", "an event has another id"); if (!d || !mc_ptr_live((void *)d, 1)) mc_fail("event-data", "an event's data is released"); events++; }
static void begin(int sse) {
    mcp_sthttp_client_config_t c = MCP_STHTTP_CLIENT_CONFIG_DEFAULT; c.enable_sse_streams = sse; c.auto_reconnect_sse = false; mc_atomic_begin(); T = mcp_transport_sthttp_client_create(&c); mcp_sthttp_client_set_sse_callback(T, on_event, NULL); mc_atomic_end();
}
static void start(void) { if (T->client.start(T, on_message, NULL, on_error) != 0) mc_fail("start", "the client does not start"); }
static void stop(void) { if (T->client.stop(T) != 0) mc_fail("stop", "the client does not stop"); stopped = 1; if (mcp_sthttp_client_get_state(T) != MCP_CLIENT_STATE_DISCONNECTED) mc_fail("state", "a stopped client has state %d", mcp_sthttp_client_get_state(T)); }
static void destroy(void) { T->client.destroy(T); stopped = released = 1; for (int i = 0; i < nc; i++) if (C[i].open) mc_fail("socket-leak", "a socket stays open"); }
static void post(int k) { me[mc_self()] = k; char m[4] = {(char)('0' + k), 'a', 'b', 0}; int r = T->client.send(T, m, 3); if (r != 0 || answers[k] != 1) mc_fail("no-answer", "message %d gets %d answers (%d)", k, answers[k], r); }
static void t_send(void *a) { post((int)(long)a); }
static void t_send_term(void *a) { post((int)(long)a); mcp_sthttp_client_terminate_session(T); }
#define EV "id: 7\ndata: a\n\n"
static void s_senders(void) { begin(0); start(); int t = mc_spawn(t_send, (void *)1L), u = mc_spawn(t_send, (void *)2L); mc_join(t); mc_join(u); post(3); if (errs) mc_fail("errors", "%d errors", errs); const char *s = mcp_sthttp_client_get_session_id(T); if (!s || s[0] != 's') mc_fail("session", "no session"); destroy(); }
static void s_terminate(void) { begin(0); start(); post(0); int t = mc_spawn(t_send, (void *)1L), u = mc_spawn(t_send_term, (void *)2L); mc_join(t); mc_join(u); destroy(); }
static void s_ended(void) { begin(1); sse_text = EV EV; sse_close = 1; start(); if (mc_choose_free(2)) post(1); if (mc_choose_free(2)) stop(); destroy(); if (events > 2) mc_fail("events", "%d events", events); }
static void s_open(void) { begin(1); sse_text = EV EV "data: b"; sse_close = 0; start(); if (mc_choose_free(2)) { t_send((void *)1L); } if (mc_choose_free(2)) stop(); destroy(); if (events > 2) mc_fail("events", "%d events", events); }
static int two(void *a) { return events >= (int)(long)a; }
static void s_reconnect(void) {
    begin(1); sse_text = EV; sse_close = mc_choose_free(2); start(); if (mc_choose_free(2)) mc_block_until(two, (void *)1L); int before = events; if (mcp_sthttp_client_reconnect_sse(T) != 0) mc_fail("reconnect", "the stream cannot be reconnected"); (void)before; int at = events; if (sse_conns != 2) mc_fail("reconnect", "%d streams", sse_conns); mc_block_until(two, (void *)(long)(at > before ? at : at + 1)); stop(); destroy(); if (events > 2) mc_fail("events", "%d events of 2", events);
}
static void s_restart(void) { begin(1); sse_text = EV; sse_close = mc_choose_free(2); start(); mc_block_until(two, (void *)1L); stop(); stopped = 0; start(); mc_block_until(two, (void *)2L); stop(); destroy(); if (events != 2) mc_fail("events", "%d events of 2", events); }
static void s_busy(void) { begin(1); sse_text = EV EV; sse_close = 0; start(); int t = mc_spawn(t_send, (void *)1L), u = mc_spawn(t_send, (void *)2L); mc_join(t); mc_join(u); mc_block_until(two, (void *)2L); stop(); destroy(); if (events != 2) mc_fail("events", "%d events of 2", events); }
static const mc_scenario SC[] = {
    {"senders", NULL, s_senders, 3, 4, 0, "2 threads send at once"},
    {"terminate", NULL, s_terminate, 3, 4, 0, "one of 2 threads terminates the session"},
    {"ended", NULL, s_ended, 3, 4, 0, "the server ends the stream while the client is used, stopped, released"},
    {"open", NULL, s_open, 3, 4, 0, "the client is stopped and released in the middle of a stream"},
    {"reconnect", NULL, s_reconnect, 3, 4, 0, "the stream is reconnected, open or ended"},
    {"restart", NULL, s_restart, 3, 4, 0, "a stopped client is started again"},
    {"busy", NULL, s_busy, 2, 3, 0, "2 threads send while events arrive"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
