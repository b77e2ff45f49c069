/* A streamable HTTP client whose server is the harness: what it sends is collected, what it receives is prepared. */
#define _GNU_SOURCE
#include "seqx.h"
#include "mcp_sthttp_client_transport.h"
#include "internal/transport_internal.h"
#include "mcp_socket_utils.h"
#include "mcp_sync.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

#define HCMAX 65536
static char in[HCMAX]; static int in_n, in_pos;            /* the answer and how much of it was read */
static int cut[8], cuts, wholes;                           /* a read does not go beyond a cut; wholes: number of bytes per read, 0 any */
enum { HC_CLOSE, HC_RESET, HC_SILENT }; static int in_end; /* what happens after the answer */
static char out[HCMAX]; static int out_n, open_socks, conns, reads, refuse;
static void *(*thread_fn)(void *); static void *thread_arg; static int threads;

socket_t __wrap_mcp_socket_connect(const char *h, uint16_t p, uint32_t ms) { (void)h; (void)p; (void)ms; if (refuse) return MCP_INVALID_SOCKET; open_socks++; conns++; out_n = 0; return 900 + conns; }
int __wrap_mcp_socket_close(socket_t s) { if (s < 900) sx_fail("wrong-socket", "socket %d is closed", (int)s); open_socks--; return 0; }
int __wrap_mcp_socket_send_exact(socket_t s, const char *b, size_t n, volatile bool *stop) { (void)s; (void)stop; if (out_n + n >= sizeof out) sx_fail("request-size", "a request of %zu bytes", n); memcpy(out + out_n, b, n); out_n += (int)n; out[out_n] = 0; return 0; }
int __wrap_mcp_socket_wait_readable(socket_t s, int ms, volatile bool *stop) { (void)s; (void)stop; if (++reads > 200000) sx_fail("endless-loop", "the client goes on reading"); if (in_pos == in_n && in_end == HC_SILENT) { sx_ms += ms > 0 ? ms : 1; return 0; } return 1; }
ssize_t __wrap_recv(int s, void *b, size_t n, int f) {
    (void)s; (void)f; if (++reads > 200000) sx_fail("endless-loop", "the client goes on reading");
    if (in_pos == in_n) { if (in_end == HC_CLOSE) return 0; errno = in_end == HC_RESET ? ECONNRESET : EAGAIN; return -1; }
    int e = in_n; for (int i = 0; i < cuts; i++) if (cut[i] > in_pos && cut[i] < e) e = cut[i];
    if (wholes && in_pos + wholes < e) e = in_pos + wholes;
    if (e - in_pos > (int)n) e = in_pos + (int)n;
    n = (size_t)(e - in_pos); memcpy(b, in + in_pos, n); in_pos = e; return (ssize_t)n;
}
int __wrap_mcp_thread_create(mcp_thread_t *t, mcp_thread_func_t fn, void *arg) { *t = (mcp_thread_t)1; thread_fn = (void *(*)(void *))fn; thread_arg = arg; threads++; return 0; }
int __wrap_mcp_thread_join(mcp_thread_t t, void **r) { (void)t; if (r) *r = NULL; threads--; return 0; }
#define HCWRAP_NOTE "sockets and the receive thread are the harness's own"

static int msgs, errs; static char msg[HCMAX]; static size_t msg_n;
static char *on_message(void *u, const void *d, size_t n, int *e) { (void)u; *e = 0; msgs++; msg_n = n < sizeof msg ? n : sizeof msg; memcpy(msg, d, msg_n); return NULL; }
static void on_error(void *u, int c) { (void)u; (void)c; errs++; }
static void hc_reset(void) { in_n = in_pos = cuts = wholes = in_end = out_n = open_socks = conns = reads = refuse = threads = msgs = errs = 0; msg_n = 0; thread_fn = NULL; }
static void put(const char *s) { int n = (int)strlen(s); if (in_n + n > HCMAX) abort(); memcpy(in + in_n, s, (size_t)n); in_n += n; }
