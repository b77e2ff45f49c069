/* H02: the streamable HTTP client delivers exactly the events of the stream, however it is cut. */
#include "hc.h"

static mcp_transport_t *T;
#define ME 64
typedef struct { char id[40], type[40], data[9000]; int has_id, has_type, n; } ev;
static ev got[ME], want[ME]; static int gots, wants;
static void on_event(mcp_transport_t *t, const char *id, const char *type, const char *d, void *u) {
    (void)t; (void)u; SX_CHECK(gots < ME, "too-many", "more than %d events", ME); SX_CHECK(d, "no-data", "an event without data is delivered"); ev *e = &got[gots++]; size_t n = strlen(d); SX_CHECK(n < sizeof e->data, "too-long", "%zu bytes", n);
    e->has_id = id != NULL; e->has_type = type != NULL; snprintf(e->id, sizeof e->id, "%s", id ? id : ""); snprintf(e->type, sizeof e->type, "%s", type ? type : ""); memcpy(e->data, d, n + 1); e->n = (int)n;
}
static const char *HEAD = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\nCache-Control: no-cache\r\n\r\n";
static int head_n;
static void begin(void) {
    hc_reset(); mcp_sthttp_client_config_t c = MCP_STHTTP_CLIENT_CONFIG_DEFAULT; c.auto_reconnect_sse = false; T = mcp_transport_sthttp_client_create(&c); SX_CHECK(T, "create", "no transport"); mcp_sthttp_client_set_sse_callback(T, on_event, NULL);
    in_n = 0; put(HEAD); head_n = in_n; in_end = HC_CLOSE;
}
static void stream(void) {        /* the client connects, gets the stream and is stopped */
    gots = 0; in_pos = 0; sx_op(); SX_CHECK(T->client.start(T, on_message, NULL, on_error) == 0, "start", "the client does not start");
    SX_CHECK(threads == 1, "not-connected", "the event stream is not accepted"); thread_fn(thread_arg); T->client.stop(T); SX_CHECK(threads == 0, "thread", "%d receive threads are left behind", threads); SX_CHECK(open_socks == 0, "socket-leak", "%d sockets stay open", open_socks);
}
static void end(void) { T->client.destroy(T); SX_CHECK(sx_live() == 0, "memory-leak", "%ld blocks stay allocated", sx_live()); }

/* what the stream denotes */
static void denote(const char *s, int n) {
    static char val[9000]; ev cur; memset(&cur, 0, offsetof(ev, data)); cur.has_id = cur.has_type = cur.n = 0; cur.id[0] = cur.type[0] = 0; int lines = 0; wants = 0;
    for (int i = 0; i < n;) {
        int e = i; while (e < n && s[e] != '\n' && s[e] != '\r') e++;
        if (e == n) break;                             /* unfinished line */
        int len = e - i; const char *l = s + i; i = e + 1; if (s[e] == '\r' && i < n && s[i] == '\n') i++;
        if (!len) { if (lines) { cur.data[cur.n] = 0; want[wants++] = cur; } cur.has_id = cur.has_type = cur.n = 0; cur.id[0] = cur.type[0] = 0; lines = 0; continue; }
        int c = 0; while (c < len && l[c] != ':') c++; int v = c < len ? c + 1 : len; if (v < len && l[v] == ' ') v++; int vn = len - v; memcpy(val, l + v, (size_t)vn); val[vn] = 0;
        if (c == 4 && !memcmp(l, "data", 4)) { if (lines++) cur.data[cur.n++] = '\n'; memcpy(cur.data + cur.n, val, (size_t)vn); cur.n += vn; }
        else if (c == 2 && !memcmp(l, "id", 2)) { cur.has_id = 1; snprintf(cur.id, sizeof cur.id, "%.38s", val); }
        else if (c == 5 && !memcmp(l, "event", 5)) { cur.has_type = 1; snprintf(cur.type, sizeof cur.type, "%.38s", val); }
    }
}
static void show(char *t, int n) { int k = 0; for (int i = head_n; i < in_n && k < n - 6; i++) { if (in[i] == '\n') k += sprintf(t + k, "\\n"); else if (in[i] == '\r') k += sprintf(t + k, "\\r"); else t[k++] = in[i]; } t[k] = 0; }
static void expect(const char *how) {
    char t[300]; if (gots != wants) { show(t, 300); sx_fail(gots < wants ? "lost" : "extra", "%s: %d events instead of %d from %s (cut at %d)", how, gots, wants, t, cuts ? cut[0] - head_n : -1); }
    for (int k = 0; k < wants; k++) {
        ev *g = &got[k], *w = &want[k]; if (g->n != w->n || memcmp(g->data, w->data, (size_t)w->n)) { show(t, 300); sx_fail("data", "%s: event %d has data '%.40s' instead of '%.40s' from %s", how, k, g->data, w->data, t); }
        if (strcmp(g->id, w->id) || (g->has_id && !w->has_id)) { show(t, 300); sx_fail("id", "%s: event %d has id '%s' instead of '%s' from %s", how, k, g->id, w->id, t); }
        if (strcmp(g->type, w->type) || (g->has_type && !w->has_type)) { show(t, 300); sx_fail("type", "%s: event %d has type '%s' instead of '%s' from %s", how, k, g->type, w->type, t); }
    }
    mcp_client_connection_stats_t st; (void)st;
}
static void all_cuts(void) {
    denote(in + head_n, in_n - head_n); cuts = 0; stream(); expect("whole"); wholes = 1; stream(); expect("bytewise"); wholes = 0;
    cuts = 1; for (cut[0] = head_n - 2; cut[0] < in_n; cut[0]++) { stream(); expect("cut"); }
    if (sx_thorough()) { cuts = 2; for (cut[0] = head_n - 2; cut[0] < in_n; cut[0]++) for (cut[1] = cut[0] + 1; cut[1] < in_n; cut[1]++) { stream(); expect("cut twice"); } }
    cuts = 0;
}
static const char *const LINE[] = {"data: a", "", "data:b", "id: 1", "data", "event: e", ":c", "data:  : ", "id", "data: ", "datax: n", "x", "event:", " data: s"};
#define NL 14
static const char *const END[] = {"\n", "\r\n", "\r"};
static void s_lines(void) {
    begin(); int e = sx_choose(3), n = sx_thorough() ? 5 : 4; for (int i = 0; i < n; i++) { put(LINE[sx_choose(NL)]); put(END[e]); } if (sx_choose(2)) put(END[e]); all_cuts(); end();
}
static void s_long_sequences(void) {                /* the same alphabet, reduced, longer, cut once */
    begin(); static const int R[] = {0, 1, 3, 5, 6}; int e = sx_choose(3), n = sx_thorough() ? 9 : 8; for (int i = 0; i < n; i++) { put(LINE[R[sx_choose(5)]]); put(END[e]); } put(END[e]); put(END[e]);
    denote(in + head_n, in_n - head_n); stream(); expect("whole"); wholes = 1; stream(); expect("bytewise"); wholes = 0; cuts = 1; cut[0] = head_n; stream(); expect("after the headers"); cut[0] = (head_n + in_n) / 2; stream(); expect("cut"); end();
}
static void s_ends(void) {                           /* line ends mixed */
    begin(); for (int i = 0; i < 5; i++) { put(LINE[sx_choose(3) == 0 ? 0 : 1 + (i & 1)]); put(END[sx_choose(3)]); } all_cuts(); end();
}
static void s_bytes(void) {                          /* every stream of bytes */
    static const char A[] = "\n\r: da"; begin(); put("data:"); int n = sx_thorough() ? 9 : 8; for (int i = 0; i < n; i++) in[in_n++] = A[sx_choose(6)]; denote(in + head_n, in_n - head_n); stream(); expect("whole"); wholes = 1; stream(); expect("bytewise"); wholes = 2; stream(); expect("by twos"); wholes = 0; end();
}
static void s_unfinished(void) {
    static const char S[] = "id: 1\ndata: a\n\nevent: e\ndata: b\ndata: c\n\n"; static const int EN[] = {HC_CLOSE, HC_RESET}; begin(); int n = sx_choose((int)sizeof S); in_end = EN[sx_choose(2)]; memcpy(in + in_n, S, (size_t)n); in_n += n; all_cuts(); end();
}
static void s_sizes(void) {
    static const int N[] = {1, 60, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 940, 960, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8000}; static const int W[] = {0, 1, 2, 63, 64, 1023, 1024};
    begin(); int n = N[sx_choose(27)], kind = sx_choose(4), more = 1 + sx_choose(3); wholes = W[sx_choose(7)];
    for (int k = 0; k < more; k++) { int m = kind == 3 ? n % 38 : n; static char b[9000]; memset(b, 'p' + k, (size_t)m); b[m] = 0; put(kind == 1 ? ": " : kind == 2 ? "x" : kind == 3 ? "id: " : "data: "); put(b); put("\n"); put("data: q\n\n"); }
    denote(in + head_n, in_n - head_n); stream(); expect("long"); end();
}
static void s_many(void) {                          /* many events in one read, or over several streams */
    begin(); int n = 1 + sx_choose(40), w = sx_choose(3); char b[60]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "id: %d\nevent: t%d\ndata: value %d\n\n", i, i % 3, i); put(b); } denote(in + head_n, in_n - head_n); static const int W[] = {0, 100, 3}; wholes = W[w];
    for (int k = 0; k < 3; k++) { stream(); expect("many"); mcp_client_connection_stats_t st; mcp_sthttp_client_get_stats(T, &st); SX_CHECK(st.sse_events_received == (uint64_t)n * (k + 1), "statistics", "%d events counted instead of %d", (int)st.sse_events_received, n * (k + 1)); } end();
}
static void s_refused(void) {                       /* answers that are no event stream */
    static const char *const H[] = {"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n\r\n", "HTTP/1.1 404 No\r\nContent-Type: text/event-stream\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n", "", "garbage\r\n\r\n", "HTTP/1.1 405 No\r\nContent-Length: 0\r\n\r\n"};
    hc_reset(); mcp_sthttp_client_config_t c = MCP_STHTTP_CLIENT_CONFIG_DEFAULT; T = mcp_transport_sthttp_client_create(&c); mcp_sthttp_client_set_sse_callback(T, on_event, NULL); in_n = 0; int h = sx_choose(7); put(H[h]); if (h != 3) put("data: a\n\n"); if (sx_flip()) wholes = 1; gots = 0; in_end = sx_choose(3);
    SX_CHECK(T->client.start(T, on_message, NULL, on_error) == 0, "start", "the client does not start"); SX_CHECK(!threads && !gots, "not-a-stream", "an answer that is no event stream is read as one"); SX_CHECK(!open_socks, "socket-leak", "%d sockets stay open", open_socks);
    in_n = in_pos = 0; put("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}"); in_end = HC_SILENT; SX_CHECK(T->client.send(T, "{}", 2) == 0 && msgs == 1, "unusable", "the client cannot send without event stream"); T->client.stop(T); end();
}
static void s_memory(void) {
    begin(); put("id: 1\ndata: a\ndata: b\n\nevent: e\ndata: 0123456789012345678901234567890123456789012345678901234567890123456789\n\n"); denote(in + head_n, in_n - head_n); int k = sx_choose(60); wholes = sx_choose(2); gots = 0; in_pos = 0;
    sx_alloc_fail(k); int r = T->client.start(T, on_message, NULL, on_error); if (r == 0 && threads) thread_fn(thread_arg); int hit = sx_alloc_count() > k; sx_alloc_fail(-1);
    if (r == 0) T->client.stop(T);
    SX_CHECK(threads == 0 && open_socks == 0, "socket-leak", "%d threads, %d sockets are left", threads, open_socks); if (!hit) expect("no failure");
    SX_CHECK(gots <= wants, "extra", "too many events"); for (int i = 0; i < gots; i++) SX_CHECK(!strcmp(got[i].id, want[i].id) && !strcmp(got[i].type, want[i].type) && got[i].n == want[i].n && !memcmp(got[i].data, want[i].data, (size_t)want[i].n), "data", "another event after memory ran out");
    stream(); expect("after memory ran out"); end();
}
static const sx_scenario SC[] = {
    {"lines", NULL, s_lines, 0, "every stream of 4 (5) lines from 14, three line ends, cut at every place (two places)"},
    {"sequences", NULL, s_long_sequences, 0, "every stream of 8 (9) lines from 5"},
    {"ends", NULL, s_ends, 0, "5 lines with every mixture of line ends, cut at every place"},
    {"bytes", NULL, s_bytes, 0, "every continuation of 8 (9) bytes over 6"},
    {"unfinished", NULL, s_unfinished, 0, "a stream that ends after every byte"},
    {"sizes", NULL, s_sizes, 0, "lines around the sizes of the buffers"},
    {"many", NULL, s_many, 0, "1 to 40 events at once, three streams one after another"},
    {"refused", NULL, s_refused, 0, "answers that are no event stream"},
    {"memory", NULL, s_memory, 0, "every allocation fails"},
};
int main(int argc, char **argv) { return sx_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
