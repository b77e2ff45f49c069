/* H04: the streamable HTTP client gets exactly the answer that was sent, however it is cut. */
#include "hc.h"
#include <ctype.h>

static mcp_transport_t *T;
static void begin(void (*tune)(mcp_sthttp_client_config_t *)) {
    hc_reset(); mcp_sthttp_client_config_t c = MCP_STHTTP_CLIENT_CONFIG_DEFAULT; c.enable_sse_streams = false; if (tune) tune(&c);
    T = mcp_transport_sthttp_client_create(&c); SX_CHECK(T, "create", "no transport"); SX_CHECK(T->client.start(T, on_message, NULL, on_error) == 0, "start", "the client does not start");
}
static void end(void) { T->client.stop(T); T->client.destroy(T); T = NULL; SX_CHECK(open_socks == 0, "socket-leak", "%d sockets stay open", open_socks); SX_CHECK(sx_live() == 0, "memory-leak", "%ld blocks stay allocated", sx_live()); }
static int ask(void) { static const char q[] = "{\"jsonrpc\":\"2.0\",\"method\":\"m\"}"; in_pos = 0; msgs = errs = 0; sx_op(); return T->client.send(T, q, sizeof q - 1); }

/* ---- answers --------------------------------------------------------------------- */
static const char *const BODY[] = {"{}", "{\"id\":1,\"result\":\"\\r\\n\"}", "a\r\n\r\nb", "0\r\n\r\n", "HTTP/1.1 500 No\r\n\r\n", "x"};
#define NB 6
static char body[HCMAX]; static int body_n, head_n, may_end;      /* the expected body; where the head ends; the connection's end ends the body */
static const char *E1 = "\r\n"; static int status;
static void line(const char *s) { put(s); put(E1); }
static void bytes(const char *b, int n) { memcpy(in + in_n, b, (size_t)n); in_n += n; }
enum { FL_LENGTH, FL_CHUNKS, FL_CLOSE, FL_NONE, FL_ZERO };
static void head(int st, int fl, int order, int names) {
    status = st;
    char t[64]; snprintf(t, sizeof t, "HTTP/1.%d %d%s", names == 2 ? 0 : 1, status, order == 2 ? "" : " Some Reason"); line(t);
    const char *ct = names == 0 ? "Content-Type: application/json" : names == 1 ? "content-type:application/json" : "CONTENT-TYPE: \tapplication/json";
    if (order == 0) line(ct);
    if (fl == FL_LENGTH || fl == FL_ZERO) { snprintf(t, sizeof t, "%s%d%s", names == 0 ? "Content-Length: " : names == 1 ? "content-length:" : "CONTENT-LENGTH: \t", body_n, names == 2 ? " " : ""); line(t); }
    if (fl == FL_CHUNKS) { if (order == 2) line("Content-Length: 0"); line(names == 0 ? "Transfer-Encoding: chunked" : names == 1 ? "transfer-encoding:Chunked" : "TRANSFER-ENCODING: gzip, CHUNKED"); }
    if (order == 1) line(ct);
    if (order == 2) line("X-Content-Length: 3"), line("Connection: close"), line("X: Content-Length: 1");
    line(""); head_n = in_n;
}
static void rest(int fl, int parts) {
    char t[64]; may_end = fl == FL_CLOSE;
    if (fl == FL_LENGTH || fl == FL_CLOSE) bytes(body, body_n);
    if (fl == FL_CHUNKS) {
        int p = 0; for (int i = 0; i < parts && p < body_n; i++) { int n = i + 1 == parts ? body_n - p : (body_n - p + 1) / 2; snprintf(t, sizeof t, i & 1 ? "%X;x=y" : parts == 3 ? "00%x" : "%x", n); line(t); bytes(body + p, n); put(E1); p += n; }
        line(parts == 2 ? "0;last" : parts == 3 ? "000" : "0"); if (parts == 2) line("Trailer: 1"); line("");
    }
}
static void set_body(const char *b) { body_n = (int)strlen(b); memcpy(body, b, (size_t)body_n); }
/* every kind of complete answer */
static void answer(void) {
    static const int ST[] = {200, 202, 400, 500, 204, 304};
    int fl = sx_choose(5), st = ST[sx_choose(6)], b = fl >= FL_NONE ? 0 : sx_choose(NB), order = sx_choose(3), names = sx_choose(3), parts = fl == FL_CHUNKS ? 1 + sx_choose(3) : 1;
    E1 = sx_choose(2) ? "\n" : "\r\n"; int interim = sx_choose(4); in_n = 0; set_body(BODY[b]);
    if (st == 204 || st == 304) fl = FL_NONE;
    if (fl >= FL_NONE) body_n = 0;
    static const char *const IN[] = {"", "HTTP/1.1 100 Continue", "HTTP/1.1 103 Early Hints", "HTTP/1.1 199 Other"};
    if (interim) { line(IN[interim]); if (names == 1) line("X-Note: a"); if (interim == 2) line("Content-Type: text/event-stream"); line(""); }
    if (interim == 3) { line("HTTP/1.1 102 Processing"); line(""); }
    int bare = st == 204 || st == 304; head(st, fl == FL_NONE && !bare ? FL_CLOSE : fl, order, names); rest(fl, parts); if (fl == FL_NONE && !bare) may_end = 1;
    sx_class("status %d framing %d", st, fl);
}
static void expect(int r, const char *how) {
    SX_CHECK(r == 0, "refused", "a complete answer (%s) is not accepted: %.*s", how, in_n > 200 ? 200 : in_n, in);
    if (body_n) { SX_CHECK(msgs == 1, "not-delivered", "%d messages delivered (%s) for %.*s", msgs, how, in_n > 200 ? 200 : in_n, in); SX_CHECK((int)msg_n == body_n && !memcmp(msg, body, msg_n), "wrong-body", "%s: %d bytes instead of %d delivered: %.*s", how, (int)msg_n, body_n, (int)(msg_n > 60 ? 60 : msg_n), msg); SX_CHECK(errs == 0, "error", "an error is reported with the answer"); }
    else { SX_CHECK(msgs == 0, "not-sent", "%d messages from an answer without one: %.*s", msgs, (int)(msg_n > 60 ? 60 : msg_n), msg); SX_CHECK(errs == 0 || status >= 300, "error", "an error is reported for an accepted message (%s)", how); }
}
static void expect_not(int r, const char *how) { SX_CHECK(msgs == 0, "incomplete-delivered", "%s: %.*s is delivered", how, (int)(msg_n > 60 ? 60 : msg_n), msg); SX_CHECK(r != 0 && errs == 1, "incomplete-accepted", "%s: accepted (%d), %d errors reported", how, r, errs); }

static void cutall(int two) {
    begin(NULL); answer(); int closing = may_end; in_end = HC_CLOSE;
    cuts = 0; expect(ask(), "whole");
    if (!closing) { in_end = HC_SILENT; expect(ask(), "whole, connection kept"); put("HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nz"); expect(ask(), "followed by another"); in_n -= 39; put("z"); expect(ask(), "followed by a byte"); in_n--; SX_CHECK(in[in_n - 1] == '\n' || body_n, "harness", "offset"); in_end = HC_CLOSE; }
    wholes = 1; expect(ask(), "bytewise"); wholes = 7; expect(ask(), "seven bytes each"); wholes = 0;
    cuts = 1; for (cut[0] = 1; cut[0] < in_n; cut[0]++) { expect(ask(), "cut once"); if (two) { cuts = 2; for (cut[1] = cut[0] + 1; cut[1] < in_n; cut[1]++) expect(ask(), "cut twice"); cuts = 1; } }
    int shown = in_n; cuts = 0; SX_CHECK(conns > 0, "no-connection", "no connection"); in_n = shown; end();
}
static void s_cuts(void) { cutall(0); }
static void s_twice(void) {           /* two cuts: for one representative of each framing, or (thorough) for every kind of answer */
    if (sx_thorough()) { cutall(1); return; }
    begin(NULL); in_n = 0; int fl = sx_choose(3), b = sx_choose(NB); E1 = sx_choose(2) ? "\n" : "\r\n"; set_body(BODY[b]); if (sx_choose(2)) { line("HTTP/1.1 100 Continue"); line(""); } head(200, fl, 0, fl == 1); rest(fl, 2); in_end = HC_CLOSE;
    int step = sx_choose(8); cuts = 2; for (cut[0] = 1 + step; cut[0] < in_n; cut[0] += 8) for (cut[1] = cut[0] + 1; cut[1] < in_n; cut[1]++) expect(ask(), "cut twice");
    end();
}
static void s_truncated(void) {
    begin(NULL); answer(); int full = in_n, until = may_end; in_end = sx_choose(3); char keep = 0; (void)keep;
    for (in_n = 0; in_n < full; in_n++) {
        if (until && in_end == HC_CLOSE && in_n >= head_n) { int n = body_n; body_n = in_n - head_n; expect(ask(), "body up to the end of the connection"); body_n = n; continue; }
        expect_not(ask(), in_end == HC_CLOSE ? "connection closed" : in_end == HC_RESET ? "connection reset" : "no more data");
    }
    if (until && in_end != HC_CLOSE) expect_not(ask(), "connection lost in a body up to its end");
    in_n = full; end();
}
static void s_malformed(void) {
    static const char *const BAD[] = {
        "HTTP/2 200 OK\r\n\r\n", "HTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}", "HTTP/1.1 OK\r\nContent-Length: 2\r\n\r\n{}", "\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}",
        "HTTP/1.1 200 OK\r\nno colon here\r\nContent-Length: 2\r\n\r\n{}", "HTTP/1.1 200 OK\r\nContent-Length: -2\r\n\r\n{}", "HTTP/1.1 200 OK\r\nContent-Length: two\r\n\r\n{}", "HTTP/1.1 200 OK\r\nContent-Length: 2x\r\n\r\n{}",
        "HTTP/1.1 200 OK\r\nContent-Length: \r\n\r\n{}", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nContent-Length: 1\r\n\r\n{}", "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\n{}",
        "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nx\r\n{}\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n\r\n{}\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-2\r\n{}\r\n0\r\n\r\n",
        "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n{}x\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n10000000000000002\r\n{}\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2 x\r\n{}0\r\n\r\n", "{}", "{}\r\n\r\n", "HTTP/1.1 200 OK\r\n: \r\nContent-Length 2\r\n\r\n{}"};
    begin(NULL); in_n = 0; int k = sx_choose((int)(sizeof BAD / sizeof *BAD)); put(BAD[k]); in_end = sx_choose(3);
    expect_not(ask(), "malformed"); wholes = 1; expect_not(ask(), "malformed, bytewise"); wholes = 0; cuts = 1; for (cut[0] = 1; cut[0] < in_n; cut[0]++) expect_not(ask(), "malformed, cut");
    cuts = 0; in_n = 0; in_end = HC_SILENT; put("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}"); set_body("{}"); expect(ask(), "after a malformed one"); end();
}
static void s_sizes(void) {
    static const int N[] = {1, 900, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 8191, 8192, 8193, 20000}; static const int W[] = {0, 1, 100, 1023, 1024, 1025, 4096}; static const int H[] = {1, 900, 1000, 1010, 1023, 1024, 1025, 2100, 9000};
    begin(NULL); in_n = 0; E1 = "\r\n"; int fl = sx_choose(3); body_n = N[sx_choose(14)]; int h = H[sx_choose(9)]; wholes = W[sx_choose(7)];
    for (int i = 0; i < body_n; i++) body[i] = (char)('a' + i * 7 % 26 - (i % 97 == 0 ? 0 : 0)); for (int i = 60; i < body_n; i += 61) body[i] = '\n';
    (status = 200, line("HTTP/1.1 200 OK")); static char l[9100]; l[0] = 'X'; l[1] = ':'; memset(l + 2, 'v', (size_t)h); l[h + 2] = 0; line(l); char t[64]; if (fl == FL_LENGTH) { snprintf(t, sizeof t, "Content-Length: %d", body_n); line(t); } if (fl == FL_CHUNKS) line("Transfer-Encoding: chunked"); line(""); rest(fl, 3);
    in_end = fl == FL_CLOSE ? HC_CLOSE : HC_SILENT; expect(ask(), "long"); end();
}
/* ---- sessions -------------------------------------------------------------------- */
static const char *field(const char *name, char *to) {       /* of the request that was sent */
    size_t n = strlen(name); int hits = 0; for (char *p = strstr(out, "\r\n"); p && strncmp(p, "\r\n\r\n", 4); p = strstr(p + 2, "\r\n")) if (!strncasecmp(p + 2, name, n) && p[2 + n] == ':') { char *v = p + 3 + n; while (*v == ' ') v++; int k = (int)strcspn(v, "\r"); snprintf(to, 20000, "%.*s", k, v); hits++; }
    SX_CHECK(hits <= 1, "request", "%s occurs %d times", name, hits); return hits ? to : NULL;
}
static char FB[20000];
static void s_sessions(void) {
    static const char *const NAME[] = {"Mcp-Session-Id: ", "mcp-session-id:", "MCP-SESSION-ID:   "}; static const char *const ID[] = {"s1", "another-2"};
    begin(NULL); const char *want = NULL; E1 = "\r\n"; in_end = HC_SILENT;
    for (int k = 0; k < (sx_thorough() ? 5 : 4); k++) {
        int o = sx_choose(8); sx_note(" %d", o);
        if (o == 7) { int had = want != NULL; int c0 = conns; SX_CHECK(mcp_sthttp_client_terminate_session(T) == 0, "terminate", "the session cannot be terminated"); SX_CHECK((conns > c0) == had, "terminate", had ? "no request to end the session" : "a request to end no session"); if (had) { SX_CHECK(!strncmp(out, "DELETE ", 7), "terminate", "not a DELETE"); const char *g = field("Mcp-Session-Id", FB); SX_CHECK(g && !strcmp(g, want), "terminate", "another session is ended"); } want = NULL; }
        else {
            in_n = 0; set_body("{}"); (status = 200, line("HTTP/1.1 200 OK")); const char *set = NULL; if (o < 6) { char t[80]; set = ID[o % 2]; snprintf(t, sizeof t, "%s%s", NAME[o / 2], set); line(t); } line("Content-Length: 2"); line(""); put("{}"); wholes = k & 1;
            expect(ask(), "session"); const char *g = field("Mcp-Session-Id", FB); SX_CHECK(want ? g && !strcmp(g, want) : !g, "session-sent", "session %s is sent as %s", want ? want : "none", g ? g : "none"); if (set) want = set;
        }
        const char *s = mcp_sthttp_client_get_session_id(T); SX_CHECK(want ? s && !strcmp(s, want) : !s, "session", "session %s instead of %s", s ? s : "none", want ? want : "none");
    }
    end();
}
/* ---- requests -------------------------------------------------------------------- */
static int li[5]; static char big[5][3000];
static void tune_sizes(mcp_sthttp_client_config_t *c) {
    static const int L[] = {1, 20, 300, 900, 1000, 1500, 2900}; for (int i = 0; i < 5; i++) { int n = L[li[i]]; memset(big[i], 'a' + i, (size_t)n); big[i][n] = 0; }
    big[1][0] = '/'; c->host = big[0]; c->mcp_endpoint = big[1]; c->user_agent = big[2]; if (li[3]) c->api_key = big[3]; if (li[4]) { memcpy(big[4], "Xy: ", 4); c->custom_headers = big[4]; }
}
static void s_requests(void) {
    for (int i = 0; i < 5; i++) li[i] = sx_choose(i < 3 ? 7 : 4); begin(tune_sizes); in_n = 0; E1 = "\r\n"; set_body("{}"); (status = 200, line("HTTP/1.1 200 OK")); line("Content-Length: 2"); if (sx_choose(2)) { static char t[160] = "Mcp-Session-Id: "; memset(t + 16, 's', 120); t[136] = 0; line(t); } line(""); put("{}"); in_end = HC_SILENT;
    static char q[5000]; int ln = sx_choose(2) ? 3000 : 10; memset(q, 'q', (size_t)ln);
    for (int k = 0; k < 2; k++) {
        in_pos = 0; int r; if (k) { unsigned char pre[4] = {0, 0, 0, 9}; mcp_buffer_t v[2] = {{pre, 4}, {q, (size_t)ln}}; r = T->client.sendv(T, v, 2); } else r = T->client.send(T, q, (size_t)ln);
        SX_CHECK(r == 0, "refused", "the request fails"); char *h = strstr(out, "\r\n\r\n"); SX_CHECK(h && out + out_n - (h + 4) == ln && !memcmp(h + 4, q, (size_t)ln), "request", "the body sent differs"); char want[8000];
        snprintf(want, sizeof want, "POST %s HTTP/1.1\r\n", big[1]); SX_CHECK(!strncmp(out, want, strlen(want)), "request", "another request line");
        snprintf(want, sizeof want, "%s:8080", big[0]); const char *g = field("Host", FB); SX_CHECK(g && !strcmp(g, want), "request", "another host"); g = field("User-Agent", FB); SX_CHECK(g && !strcmp(g, big[2]), "request", "another agent");
        g = field("Content-Length", FB); SX_CHECK(g && atoi(g) == ln, "request", "another length: %s", g ? g : "none"); snprintf(want, sizeof want, "Bearer %s", big[3]); g = field("Authorization", FB); SX_CHECK(li[3] ? g && !strcmp(g, want) : !g, "request", "another key"); g = field("Xy", FB); SX_CHECK(li[4] ? g && !strcmp(g, big[4] + 4) : !g, "request", "another custom header");
    }
    end();
}
static void s_memory(void) {
    begin(NULL); in_n = 0; int fl = sx_choose(3); E1 = "\r\n"; set_body(BODY[1]); (status = 200, line("HTTP/1.1 200 OK")); line("Mcp-Session-Id: s1"); char t[64]; if (fl == FL_LENGTH) { snprintf(t, sizeof t, "Content-Length: %d", body_n); line(t); } if (fl == FL_CHUNKS) line("Transfer-Encoding: chunked"); line("Content-Type: application/json"); line(""); rest(fl, 2); in_end = HC_CLOSE; wholes = sx_choose(2);
    int k = sx_choose(60); sx_alloc_fail(k); int r = ask(); int hit = sx_alloc_count() > k; sx_alloc_fail(-1);
    if (!hit) { expect(r, "no failure"); end(); return; }
    SX_CHECK(msgs == 0 || ((int)msg_n == body_n && !memcmp(msg, body, msg_n)), "wrong-body", "another body after memory ran out"); SX_CHECK(msgs || r != 0, "refused", "an answer is lost without an error");
    expect(ask(), "after memory ran out"); end();
}
static void s_refused(void) {
    begin(NULL); in_n = 0; set_body("{}"); E1 = "\r\n"; in_end = HC_SILENT; (status = 200, line("HTTP/1.1 200 OK")); line("Content-Length: 2"); line(""); put("{}");
    for (int k = 0; k < 4; k++) { int o = sx_choose(4); msgs = errs = 0; if (o == 0) expect(ask(), "connected"); if (o == 1) { refuse = 1; expect_not(ask(), "no connection"); refuse = 0; } if (o == 2) { T->client.stop(T); SX_CHECK(ask() != 0 && !msgs, "stopped", "a stopped client sends"); SX_CHECK(T->client.start(T, on_message, NULL, on_error) == 0, "restart", "a stopped client does not start again"); } if (o == 3) SX_CHECK(T->client.send(T, "", 0) != 0, "empty", "nothing is sent"); }
    end();
}
static const sx_scenario SC[] = {
    {"cuts", NULL, s_cuts, 0, "every kind of answer whole, bytewise, cut at every place, followed by another"},
    {"twice", NULL, s_twice, 0, "answers of each framing cut at every two places"},
    {"truncated", NULL, s_truncated, 0, "every kind of answer ending after every byte, in three ways"},
    {"malformed", NULL, s_malformed, 0, "malformed answers, cut at every place"},
    {"sizes", NULL, s_sizes, 0, "headers and bodies around the sizes of the buffers"},
    {"sessions", NULL, s_sessions, 0, "4 (5) steps of answers with and without session and terminations"},
    {"requests", NULL, s_requests, 0, "requests with parts of every length"},
    {"memory", NULL, s_memory, 0, "every allocation of a request fails"},
    {"refused", NULL, s_refused, 0, "4 steps of refused connections, stops and starts"},
};
int main(int argc, char **argv) { return sx_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
