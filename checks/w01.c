/* W01: the TCP server serves every connection it has room for, answers each request once and on its own connection, and stops whenever it is told to. */
#include "mcrt.h"
#include "mcp_transport.h"
#include "mcp_tcp_transport.h"
#include "internal/transport_internal.h"
#include "internal/tcp_transport_internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
extern size_t __real_strlen(const char *); extern void *__real_memcpy(void *, const void *, size_t); extern int __real_memcmp(const void *, const void *, size_t);
extern ssize_t __real_read(int, void *, size_t); extern ssize_t __real_write(int, const void *, size_t); extern int __real_close(int); extern int __real_pipe(int *); extern int __real_poll(struct pollfd *, nfds_t, int);

/* ---- connections: what the client sent and what it got back ------------------------------- */
#define NC 6
#define BASE 900
#define LISTEN 800
#define PIPE 850
typedef struct { int open, refused, shut, ended, waiting; char in[400], out[400]; int in_n, in_pos, out_n; int next, due; uint64_t busy, closed_at; } conn;   /* next: the message to be handled next; due: messages sent whole */
static conn C[NC]; static int nc, taken, listening, pipe_open[2], pipe_bytes, stopping, stopped, closes, room;
static conn *get(socket_t s) { int i = (int)s - BASE; if (i < 0 || i >= nc) mc_fail("wrong-socket", "socket %d is used", (int)s); if (!C[i].open) mc_fail("closed-socket", "a closed socket is used"); return &C[i]; }
socket_t __wrap_mcp_socket_create_listener(const char *h, uint16_t p, int b) { listening = 1; return LISTEN; }
socket_t __wrap_mcp_socket_accept(socket_t s, struct sockaddr *a, socklen_t *l) { mc_point(); if (s != LISTEN || !listening || taken >= nc) { errno = EAGAIN; return MCP_INVALID_SOCKET; } struct sockaddr_in *in = (void *)a; for (size_t i = 0; i < sizeof *in; i++) ((char *)in)[i] = 0; in->sin_family = AF_INET; *l = sizeof *in; C[taken].open = 1; C[taken].busy = mc_now_ms(); return BASE + taken++; }
int __wrap_mcp_socket_close(socket_t s) { mc_point(); if (s == LISTEN) { if (!listening) mc_fail("closed-twice", "the listener is closed twice"); listening = 0; return 0; } conn *c = get(s); if (c->waiting) mc_fail("closed-in-use", "a socket is closed while another thread waits on it"); c->open = 0; c->closed_at = mc_now_ms(); closes++; return 0; }
int __wrap_shutdown(int s, int how) { mc_point(); if (s == LISTEN || s == MCP_INVALID_SOCKET) return 0; get(s)->shut = 1; return 0; }
int __wrap_setsockopt(int s, int l, int o, const void *v, socklen_t n) { if (s != LISTEN) get(s); return 0; }
int __wrap_pipe(int *p) { if (!mc_active()) return __real_pipe(p); p[0] = PIPE; p[1] = PIPE + 1; pipe_open[0] = pipe_open[1] = 1; pipe_bytes = 0; return 0; }
int __wrap_fcntl(int fd, int cmd, ...) { return 0; }
int __wrap_fcntl64(int fd, int cmd, ...) { return 0; }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fd != PIPE) return __real_read(fd, b, n); if (!pipe_open[0]) mc_fail("closed-socket", "the closed pipe is read"); if (!pipe_bytes) { errno = EAGAIN; return -1; } ((char *)b)[0] = 's'; pipe_bytes = 0; return 1; }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (fd != PIPE + 1) return __real_write(fd, b, n); mc_point(); pipe_bytes += (int)n; return (ssize_t)n; }
int __wrap_close(int fd) { if (fd != PIPE && fd != PIPE + 1) return __real_close(fd); if (!pipe_open[fd - PIPE]) mc_fail("closed-twice", "the pipe is closed twice"); pipe_open[fd - PIPE] = 0; return 0; }
static int pollable(void *a) { struct pollfd *p = a; int r = 0; for (int i = 0; i < 2; i++) { p[i].revents = 0; if (p[i].fd == LISTEN) p[i].revents = !listening ? POLLNVAL : taken < nc ? POLLIN : 0; else if (p[i].fd == PIPE) p[i].revents = pipe_bytes ? POLLIN : 0; else if (p[i].fd >= 0) p[i].revents = POLLNVAL; r += p[i].revents != 0; } return r; }
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { if (!mc_active()) return __real_poll(p, n, ms); if (n != 2) mc_fail("poll", "poll on %d descriptors", (int)n); if (ms < 0) mc_block_until(pollable, p); else if (mc_block_until_timed(pollable, p, (uint64_t)ms)) return 0; return pollable(p); }
typedef struct { conn *c; volatile bool *stop; } wait_arg;
static int readable(void *a) { wait_arg *w = a; return w->c->in_pos < w->c->in_n || w->c->ended || w->c->shut || !w->c->open || (w->stop && *w->stop); }
int __wrap_mcp_socket_wait_readable(socket_t s, int ms, volatile bool *stop) { if (s == MCP_INVALID_SOCKET || (stop && *stop)) return -1; wait_arg w = {get(s), stop}; w.c->waiting++; int r = ms < 0 ? (mc_block_until(readable, &w), 0) : mc_block_until_timed(readable, &w, (uint64_t)ms); w.c->waiting--; return r ? 0 : stop && *stop ? -1 : 1; }
int __wrap_mcp_socket_recv_exact(socket_t s, char *b, size_t n, volatile bool *stop) {
    conn *c = get(s);
    for (size_t got = 0; got < n;) { wait_arg w = {c, stop}; c->waiting++; mc_block_until(readable, &w); c->waiting--; errno = 0; if (stop && *stop) return -1; int k = c->in_n - c->in_pos; if (!k) return -1; if ((size_t)k > n - got) k = (int)(n - got); __real_memcpy(b + got, c->in + c->in_pos, (size_t)k); c->in_pos += k; got += (size_t)k; }
    return 0;
}
int __wrap_mcp_socket_send_vectors(socket_t s, mcp_iovec_t *v, int k, volatile bool *stop) {
    mc_point(); conn *c = get(s); errno = 0; if (stop && *stop) return -1; if (c->shut) { errno = EPIPE; return -1; }
    for (int i = 0; i < k; i++) { if (c->out_n + v[i].iov_len > sizeof c->out) mc_fail("answers", "too many answers"); __real_memcpy(c->out + c->out_n, v[i].iov_base, v[i].iov_len); c->out_n += (int)v[i].iov_len; }
    return 0;
}
int __wrap_mcp_socket_send_exact(socket_t s, const char *b, size_t n, volatile bool *stop) { mcp_iovec_t v = {(void *)b, n}; return __wrap_mcp_socket_send_vectors(s, &v, 1, stop); }

/* ---- the pool that runs the handlers: one thread per task ---------------------------------- */
typedef struct { void (*f)(void *); void *a; int t, done; } task;
static task K[NC]; static int nk, pool_full;
static void t_task(void *a) { task *k = a; k->f(k->a); k->done = 1; }
mcp_thread_pool_t *__wrap_mcp_thread_pool_create(size_t n, size_t q) { return (void *)K; }
int __wrap_mcp_thread_pool_resize(mcp_thread_pool_t *p, size_t n) { return 0; }
int __wrap_mcp_thread_pool_smart_adjust(mcp_thread_pool_t *p, void *c) { return 0; }
int __wrap_mcp_thread_pool_add_task(mcp_thread_pool_t *p, void (*f)(void *), void *a) { mc_point(); if (pool_full) { pool_full = 0; return -1; } if (nk >= NC) mc_fail("tasks", "more tasks than connections"); task *k = &K[nk++]; k->f = f; k->a = a; k->t = mc_spawn(t_task, k); return 0; }
static int idle(void *a) { for (int i = 0; i < nk; i++) if (!K[i].done) return 0; return 1; }
int __wrap_mcp_thread_pool_wait(mcp_thread_pool_t *p, uint32_t ms) { return mc_block_until_timed(idle, NULL, ms) ? -1 : 0; }
int __wrap_mcp_thread_pool_destroy(mcp_thread_pool_t *p) { for (int i = 0; i < nk; i++) { mc_join(K[i].t); } return 0; }
mcp_buffer_pool_t *__wrap_mcp_buffer_pool_create(size_t s, size_t n) { return (void *)C; }
void __wrap_mcp_buffer_pool_destroy(mcp_buffer_pool_t *p) {}

/* ---- the server ---------------------------------------------------------------------------- */
static mcp_transport_t *T; static size_t base; static int big;
static const char *TEXT[NC][3] = {{"A0", "A1!", "A2"}, {"B0!", "B1", "B2"}, {"C0", "C1", "C2!"}, {"D0", "D1", "D2"}, {"E0", "E1", "E2"}, {"F0", "F1", "F2"}};     /* "!": no answer */
static char *on_message(void *u, const void *d, size_t n, int *e) {
    mc_point(); *e = 0; const char *s = d;
    if (stopped) mc_fail("after-stop", "a message is handled after the server was stopped");
    int c = s && n ? s[0] - 'A' : -1; if (c < 0 || c >= nc) mc_fail("message", "a message nobody sent is handled (%d bytes)", (int)n);
    if (C[c].next >= C[c].due) mc_fail("repeated", "connection %d: a message is handled again", c);
    const char *w = TEXT[c][C[c].next]; if (n != __real_strlen(w) || __real_memcmp(s, w, n)) mc_fail("order", "connection %d: '%.*s' is handled instead of '%s'", c, (int)n, s, w);
    if (s[n]) mc_fail("terminator", "the message does not end with a zero byte"); C[c].next++; C[c].busy = mc_now_ms();
    mc_point(); if (w[__real_strlen(w) - 1] == '!') { *e = c ? 0 : -32600; return NULL; }      /* of connection 0 it fails without an answer */
    char *r; { r = malloc(8); r[0] = 'r'; r[1] = w[0]; r[2] = w[1]; r[3] = 0; } return r;
}
static int expect(int c, int upto, char *o) { int n = 0; for (int i = 0; i < upto; i++) { const char *w = TEXT[c][i]; if (w[__real_strlen(w) - 1] == '!') continue; o[n++] = 0; o[n++] = 0; o[n++] = 0; o[n++] = 3; o[n++] = 'r'; o[n++] = w[0]; o[n++] = w[1]; } return n; }
static void check(int c, int all) { char o[64]; int n = expect(c, all ? C[c].due : C[c].next, o); if (C[c].out_n > n || __real_memcmp(o, C[c].out, (size_t)C[c].out_n)) mc_fail("wrong-answer", "connection %d got something else than its answers (%d bytes)", c, C[c].out_n); if (all && C[c].out_n != n) mc_fail("no-answer", "connection %d got %d bytes of %d of its answers", c, C[c].out_n, n); }
static void begin(uint32_t idle_ms, int max) {
    mc_atomic_begin(); base = mc_live_blocks(); T = mcp_transport_tcp_create("127.0.0.1", 9000, idle_ms); if (!T) mc_fail("create", "no transport"); ((mcp_tcp_transport_data_t *)T->transport_data)->max_clients = room = max; mc_atomic_end();
    if (mcp_transport_start(T, on_message, NULL, NULL) != 0) mc_fail("start", "the server does not start");
}
static void stop(void) { uint64_t t = mc_now_ms(); stopping = 1; if (mcp_transport_stop(T) != 0) mc_fail("stop", "the server does not stop"); stopped = 1; if (mc_now_ms() - t > 100000) mc_fail("stop-late", "stopping takes %d ms", (int)(mc_now_ms() - t)); for (int i = 0; i < taken; i++) if (C[i].open) mc_fail("left-open", "connection %d stays open", i); if (listening) mc_fail("left-open", "the listener stays open"); }
static void destroy(void) { if (!stopped && mc_choose_free(2)) stop(); stopping = 1; mcp_transport_destroy(T); stopped = 1; for (int i = 0; i < taken; i++) { if (C[i].open) mc_fail("left-open", "connection %d stays open", i); check(i, 0); } if (closes != taken) mc_fail("closes", "%d of %d connections are closed", closes, taken); if (listening || pipe_open[0] || pipe_open[1]) mc_fail("left-open", "a descriptor stays open"); if (mc_live_blocks() != base) mc_fail("leak", "%d blocks are not released", (int)(mc_live_blocks() - base)); }
static int new_conn(void) { int c = nc; C[c].busy = mc_now_ms(); nc++; return c; }
static void frame(int c, int m, int cut) { const char *w = TEXT[c][m]; int n = (int)__real_strlen(w); char b[16] = {0, 0, 0, (char)n}; __real_memcpy(b + 4, w, (size_t)n); int k = cut < n + 4 ? cut : n + 4; __real_memcpy(C[c].in + C[c].in_n, b, (size_t)k); C[c].in_n += k; if (k == n + 4) C[c].due++; }
static int answered(void *a) { conn *c = a; char o[64]; return stopping || (c->next == c->due && c->out_n == expect((int)(c - C), c->due, o)) || (c < C + taken && !c->open); }
static int gone(void *a) { conn *c = a; return c < C + taken && !c->open; }
static void got_all(int c) { mc_block_until(answered, &C[c]); if (stopping) return; if (gone(&C[c]) && !C[c].ended) mc_fail("dropped", "connection %d is closed by the server", c); check(c, 1); }
static void t_client(void *a) { int c = (int)(long)a, n = 1 + (c == 0); for (int i = 0; i < n; i++) { mc_point(); frame(c, i, 99); } got_all(c); mc_point(); C[c].ended = 1; if (!stopping) { mc_block_until(gone, &C[c]); check(c, 1); } }
static void s_one(void) { begin(0, 2); int c = new_conn(); int t = mc_spawn(t_client, (void *)(long)c); mc_join(t); destroy(); }
static void s_two(void) { begin(0, 2); int c = new_conn(), d = new_conn(); int t = mc_spawn(t_client, (void *)(long)c), u = mc_spawn(t_client, (void *)(long)d); mc_join(t); mc_join(u); destroy(); }
static int busy(void *a) { return C[0].next >= (int)(long)a; }
static void s_stop(void) { begin(0, 2); int w = mc_choose_free(4); int c = new_conn(); if (w) frame(c, 0, 99); if (w > 1) frame(c, 1, 3 + w); if (mc_choose_free(2) && w) mc_block_until(busy, (void *)1L); destroy(); }
static void s_stop_two(void) { begin(0, 2); new_conn(); frame(0, 0, 99); new_conn(); if (mc_choose_free(2)) mc_block_until(busy, (void *)1L); destroy(); }
static void s_cut(void) { begin(0, 2); int c = new_conn(); int k = mc_choose_free(7); frame(c, 0, 99); frame(c, 1, k); C[c].ended = 1; mc_block_until(gone, &C[c]); if (C[c].next != C[c].due) mc_fail("lost", "%d messages of %d are handled", C[c].next, C[c].due); check(c, 1); destroy(); }
static void s_full(void) {
    begin(0, 1); int c = new_conn(); frame(c, 0, 99); got_all(c); int d = new_conn(); frame(d, 0, 99); mc_block_until(gone, &C[d]); if (C[d].next) mc_fail("too-many", "a connection beyond the limit is served");
    frame(c, 1, 99); frame(c, 2, 99); got_all(c); C[c].ended = 1; mc_block_until(gone, &C[c]); mc_advance_ms(10); int e = new_conn(); frame(e, 0, 99); frame(e, 1, 99); got_all(e); destroy();
}
static void s_again(void) { begin(0, 1); for (int i = 0; i < 3; i++) { int c = new_conn(); frame(c, 0, 99); frame(c, 1, 99); got_all(c); C[c].ended = 1; mc_block_until(gone, &C[c]); } destroy(); }
static void s_pool(void) { begin(0, 1); pool_full = 1; int c = new_conn(); frame(c, 0, 99); mc_block_until(gone, &C[c]); if (C[c].next) mc_fail("too-many", "handled"); int d = new_conn(); frame(d, 0, 99); frame(d, 1, 99); got_all(d); C[d].ended = 1; mc_block_until(gone, &C[d]); destroy(); }
static void s_idle(void) {
    static const uint32_t L[2] = {1000, 2500}; uint32_t l = L[mc_choose_free(2)]; int k = mc_choose_free(3); begin(l, 1); int c = new_conn();
    for (int i = 0; i < k; i++) { mc_advance_ms(l / 2 > 1000 ? l / 2 - 1000 : 0); frame(c, i, 99); mc_block_until(answered, &C[c]); if (gone(&C[c])) break; check(c, 1); }
    mc_block_until(gone, &C[c]); uint64_t q = C[c].closed_at - C[c].busy; if (q + 1000 < l) mc_fail("idle-early", "closed after %d ms without use, the limit is %d", (int)q, (int)l); if (q > 2 * (uint64_t)l + 3000) mc_fail("idle-late", "closed after %d ms without use, the limit is %d", (int)q, (int)l); destroy();
}
static const mc_scenario SC[] = {
    {"one", NULL, s_one, 2, 3, MC_DELAY, "a client with 2 messages"},
    {"two", NULL, s_two, 1, 2, MC_DELAY, "2 clients at once"},
    {"stop", NULL, s_stop, 1, 2, MC_DELAY, "the server is stopped or released with a client that sent nothing, a message, or part of one more"},
    {"stop-two", NULL, s_stop_two, 1, 2, MC_DELAY, "the server is stopped with 2 clients"},
    {"cut", NULL, s_cut, 1, 2, MC_DELAY, "the client ends after each byte of a message"},
    {"full", NULL, s_full, 1, 2, MC_DELAY, "a connection beyond the limit, then one more"},
    {"again", NULL, s_again, 1, 2, MC_DELAY, "3 connections one after the other on one place"},
    {"pool", NULL, s_pool, 1, 2, MC_DELAY, "the pool takes no task for the first connection"},
    {"idle", NULL, s_idle, 1, 2, MC_DELAY, "connections without traffic, 2 limits"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
