/* J03: every encoder of JSON-RPC messages against every decoder and against the reference reader. */
#include "seqx.h"
#include "refjson_mcp.h"
#include "mcp_json_rpc.h"
#include "mcp_json_message.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include <inttypes.h>

static const char *TEXT[] = {"ping", "", "a\"b\\c", "\x01\x1f\n\t\r\b\f", "caf\xc3\xa9 \xf0\x9f\x98\x80", "}{][,:", "read/resource", "\x7f/", "\\u0041"};
#define NTEXT 9
static const char *PARAMS[] = {NULL, "{}", "[]", "{\"a\":1}", "[1,\"x\",null,{\"b\":[true]}]", "{\"t\":\"\\u0001\\\"\\\\\",\"\":{\"\":[]}}", "{\"n\":-1.5e-7,\"m\":9007199254740991}"};
#define NPARAMS 7
static const char *RESULT[] = {"null", "true", "false", "0", "-12.5", "\"\"", "\"x\\u0002\\\"\"", "[]", "{}", "{\"contents\":[{\"text\":\"a\"}]}", "[[],{},[null]]"};
#define NRESULT 11
static uint64_t ident(int k) {          /* every digit count, its boundaries, and the limit of exact numbers */
    uint64_t p = 1; for (int i = 0; i < k / 3; i++) p *= 10;
    uint64_t v = k % 3 == 0 ? p - 1 : k % 3 == 1 ? p : p + 1;
    return v > (1ULL << 53) ? (1ULL << 53) - (uint64_t)(k % 3) : v;
}
#define NID 51
static long live0;
static void begin(void) { live0 = sx_live(); mcp_arena_init_current_thread(1024); rj_used = 0; }
static void end(void) {
    mcp_arena_destroy_current_thread();
    SX_CHECK(sx_live() <= live0, "leak", "%ld blocks not released", sx_live() - live0);
}
static int text_eq(const char *a, const char *b) { return a && b && !strcmp(a, b); }
static int json_eq(const char *a, const char *b) {
    if (!a || !b) return a == b;
    rj *x = rj_parse_keep(a), *y = rj_parse_keep(b);
    return x && y && rj_same(x, y);
}
typedef struct { int kind; uint64_t id; const char *method, *params, *result, *msg; int code; } want_t;
/* the text is a well-formed JSON-RPC message with exactly these members */
static void judge_text(const char *t, const want_t *w, const char *how) {
    SX_CHECK(t, "encode-failed", "%s failed for a valid message", how);
    rj *m = rj_parse_keep(t);
    SX_CHECK(m && m->t == 'o' && !(rj_flags & (RJ_RAWCTL | RJ_DUP)), "malformed", "%s wrote malformed JSON: %s", how, t);
    rj *v = rj_get(m, "jsonrpc"), *id = rj_get(m, "id"), *me = rj_get(m, "method"), *pa = rj_get(m, "params"), *re = rj_get(m, "result"), *er = rj_get(m, "error");
    SX_CHECK(v && v->t == 's' && !strcmp(v->s, "2.0"), "version", "%s: no version: %s", how, t);
    SX_CHECK(w->kind == 2 ? !id : id && id->t == '#' && id->n == (double)w->id, "id", "%s: wrong id: %s", how, t);
    SX_CHECK(w->method ? me && me->t == 's' && !strcmp(me->s, w->method) : !me, "method", "%s: wrong method: %s", how, t);
    rj *wp = w->params ? rj_parse_keep(w->params) : NULL;
    SX_CHECK(wp ? pa && rj_same(wp, pa) : !pa, "params", "%s: wrong params: %s", how, t);
    rj *wr = w->result ? rj_parse_keep(w->result) : NULL;
    SX_CHECK(wr ? re && rj_same(wr, re) : !re, "result", "%s: wrong result: %s", how, t);
    if (w->msg) {
        SX_CHECK(er && er->t == 'o', "error", "%s: no error: %s", how, t);
        rj *c = rj_get(er, "code"), *ms = rj_get(er, "message");
        SX_CHECK(c && c->t == '#' && c->n == w->code && ms && ms->t == 's' && !strcmp(ms->s, w->msg), "error", "%s: wrong error: %s", how, t);
    } else SX_CHECK(!er, "error", "%s: error in: %s", how, t);
}
static void judge_message(const mcp_message_t *m, const want_t *w, const char *how, const char *t) {
    if (w->kind == 0) {
        SX_CHECK(m->type == MCP_MESSAGE_TYPE_REQUEST, "kind", "%s: not a request: %s", how, t);
        SX_CHECK(m->request.id == w->id, "decoded-id", "%s: id %" PRIu64 ": %s", how, m->request.id, t);
        SX_CHECK(text_eq(m->request.method, w->method), "decoded-method", "%s: method: %s", how, t);
        SX_CHECK(json_eq(m->request.params, w->params), "decoded-params", "%s: params %s: %s", how, (char *)m->request.params, t);
    } else if (w->kind == 2) {
        SX_CHECK(m->type == MCP_MESSAGE_TYPE_NOTIFICATION, "kind", "%s: not a notification: %s", how, t);
        SX_CHECK(text_eq(m->notification.method, w->method), "decoded-method", "%s: method: %s", how, t);
        SX_CHECK(json_eq(m->notification.params, w->params), "decoded-params", "%s: params: %s", how, t);
    } else {
        SX_CHECK(m->type == MCP_MESSAGE_TYPE_RESPONSE, "kind", "%s: not a response: %s", how, t);
        SX_CHECK(m->response.id == w->id, "decoded-id", "%s: id %" PRIu64 ": %s", how, m->response.id, t);
        if (w->msg) SX_CHECK((int)m->response.error_code == w->code && text_eq(m->response.error_message, w->msg) && !m->response.result, "decoded-error", "%s: error: %s", how, t);
        else SX_CHECK(m->response.error_code == MCP_ERROR_NONE && json_eq(m->response.result, w->result), "decoded-result", "%s: result: %s", how, t);
    }
}
/* all decoders on one text */
static void decode(const char *text, const want_t *w) {
    char *t = strdup(text);
    mcp_message_t m; memset(&m, 0xa5, sizeof m);
    SX_CHECK(mcp_json_parse_message(t, &m) == 0, "decode-failed", "parse_message rejects %s", t);
    judge_message(&m, w, "parse_message", t);
    char *again = mcp_json_stringify_message(&m);
    judge_text(again, w, "stringify_message");
    free(again);
    mcp_message_release_contents(&m);
    mcp_message_t *ms = NULL; size_t n = 99;
    SX_CHECK(mcp_json_parse_message_or_batch(t, &ms, &n) == 0 && n == 1 && ms, "decode-failed", "parse_message_or_batch rejects %s", t);
    judge_message(ms, w, "parse_message_or_batch", t);
    mcp_json_free_message_array(ms, n);
    if (w->kind == 1) {
        uint64_t id = 77; mcp_error_code_t code = 77; char *msg = (char *)1, *res = (char *)1;
        SX_CHECK(mcp_json_parse_response(t, &id, &code, &msg, &res) == 0, "decode-failed", "parse_response rejects %s", t);
        SX_CHECK(id == w->id, "decoded-id", "parse_response: id %" PRIu64 ": %s", id, t);
        if (w->msg) SX_CHECK((int)code == w->code && text_eq(msg, w->msg) && !res, "decoded-error", "parse_response: %s", t);
        else SX_CHECK(code == MCP_ERROR_NONE && !msg && json_eq(res, w->result), "decoded-result", "parse_response: %s", t);
        free(msg); free(res);
    }
    sx_ops(3);
    free(t);
}
static void via(char *t, const want_t *w, const char *how) {
    judge_text(t, w, how);
    decode(t, w);
    free(t);
}
static void request_run(void) {
    want_t w = {.kind = 0, .id = ident(sx_choose(NID)), .method = TEXT[sx_choose(NTEXT)], .params = PARAMS[sx_choose(NPARAMS)]};
    begin();
    sx_note("request %" PRIu64 " %s %s", w.id, w.method, w.params ? w.params : "-");
    via(mcp_json_format_request(w.id, w.method, w.params), &w, "format_request");
    via(mcp_json_format_request_direct(w.id, w.method, w.params), &w, "format_request_direct");
    via(mcp_json_create_request(w.method, w.params, w.id), &w, "create_request");
    mcp_message_t m = {.type = MCP_MESSAGE_TYPE_REQUEST}; m.request.id = w.id; m.request.method = (char *)w.method; m.request.params = (void *)w.params;
    via(mcp_json_stringify_message(&m), &w, "stringify_message");
    end();
}
static void notification_run(void) {
    want_t w = {.kind = 2, .method = TEXT[sx_choose(NTEXT)], .params = PARAMS[sx_choose(NPARAMS)]};
    begin();
    mcp_message_t m = {.type = MCP_MESSAGE_TYPE_NOTIFICATION}; m.notification.method = (char *)w.method; m.notification.params = (void *)w.params;
    via(mcp_json_stringify_message(&m), &w, "stringify_message");
    end();
}
static void result_run(void) {
    want_t w = {.kind = 1, .id = ident(sx_choose(NID)), .result = RESULT[sx_choose(NRESULT)]};
    begin();
    sx_note("response %" PRIu64 " %s", w.id, w.result);
    via(mcp_json_format_response(w.id, w.result), &w, "format_response");
    via(mcp_json_create_response(w.id, w.result), &w, "create_response");
    mcp_message_t m = {.type = MCP_MESSAGE_TYPE_RESPONSE}; m.response.id = w.id; m.response.error_code = MCP_ERROR_NONE; m.response.result = (void *)w.result;
    via(mcp_json_stringify_message(&m), &w, "stringify_message");
    w.result = "null";
    via(mcp_json_format_response(w.id, NULL), &w, "format_response");
    via(mcp_json_create_response(w.id, NULL), &w, "create_response");
    m.response.result = NULL;
    via(mcp_json_stringify_message(&m), &w, "stringify_message");
    end();
}
static void error_run(void) {
    static const int CODE[] = {-32700, -32603, -32000, -1, 1, 2147483647, -2147483647 - 1};
    want_t w = {.kind = 1, .id = ident(sx_choose(NID)), .code = CODE[sx_choose(7)], .msg = TEXT[sx_choose(NTEXT)]};
    begin();
    via(mcp_json_format_error_response(w.id, (mcp_error_code_t)w.code, w.msg), &w, "format_error_response");
    via(mcp_json_create_error_response(w.id, w.code, w.msg), &w, "create_error_response");
    mcp_message_t m = {.type = MCP_MESSAGE_TYPE_RESPONSE}; m.response.id = w.id; m.response.error_code = (mcp_error_code_t)w.code; m.response.error_message = w.msg;
    via(mcp_json_stringify_message(&m), &w, "stringify_message");
    end();
}
/* methods of every one and two ASCII characters, and of every length */
static void methods_run(void) {
    char s[600] = {0};
    int kind = sx_choose(2), a = 1 + sx_choose(127);
    for (int b = 0; b < 128; b++) {
        if (kind) { s[0] = (char)a; s[1] = (char)b; s[2] = 0; }
        else { int n = (a * 128 + b) % 599; memset(s, a & 1 ? 'm' : '"', (size_t)n); s[n] = 0; if (a > 10) break; }
        want_t w = {.kind = 0, .id = 7, .method = s, .params = "{}"};
        want_t e = {.kind = 1, .id = 7, .code = -5, .msg = s};
        begin();
        via(mcp_json_format_request(7, s, "{}"), &w, "format_request");
        via(mcp_json_format_request_direct(7, s, "{}"), &w, "format_request_direct");
        via(mcp_json_create_request(s, "{}", 7), &w, "create_request");
        mcp_message_t m = {.type = MCP_MESSAGE_TYPE_REQUEST}; m.request.id = 7; m.request.method = s; m.request.params = (void *)"{}";
        via(mcp_json_stringify_message(&m), &w, "stringify_message");
        via(mcp_json_format_error_response(7, (mcp_error_code_t)-5, s), &e, "format_error_response");
        via(mcp_json_create_error_response(7, -5, s), &e, "create_error_response");
        mcp_message_t m2 = {.type = MCP_MESSAGE_TYPE_RESPONSE}; m2.response.id = 7; m2.response.error_code = (mcp_error_code_t)-5; m2.response.error_message = s;
        via(mcp_json_stringify_message(&m2), &e, "stringify_message");
        end();
    }
}
/* messages assembled from every combination of members: what is no message is refused, by every decoder alike */
static void members_run(void) {
    static const char *ID[] = {NULL, "1", "0", "-1", "1.5", "\"1\"", "null", "18446744073709551616", "1e300", "9007199254740992", "[1]"};
    static const int IDOK[] = {0, 1, 1, 0, 0, 0, 0, 0, 0, 1, 0};
    static const double IDV[] = {0, 1, 0, 0, 0, 0, 0, 0, 0, 9007199254740992.0, 0};
    static const char *ME[] = {NULL, "\"m\"", "5", "null"};
    static const char *PA[] = {NULL, "{\"a\":1}", "[2]", "3", "null", "\"x\""};
    static const char *RE[] = {NULL, "null", "{\"r\":1}"};
    static const char *ER[] = {NULL, "null", "{}", "{\"code\":-3,\"message\":\"e\"}", "{\"code\":\"x\",\"message\":\"e\"}", "{\"code\":1.5,\"message\":\"e\"}", "{\"code\":-3,\"message\":4}", "{\"code\":1e10,\"message\":\"e\"}"};
    int i = sx_choose(11), m = sx_choose(4), p = sx_choose(6), r = sx_choose(3), e = sx_choose(8), order = sx_choose(2);
    char t[512]; int n = 0; int first = 1;
#define MEMB(k, v) do { if (v) { n += sprintf(t + n, "%s\"%s\":%s", first ? "" : ",", k, v); first = 0; } } while (0)
    n += sprintf(t, "{");
    MEMB("jsonrpc", "\"2.0\"");
    if (order) { MEMB("error", ER[e]); MEMB("result", RE[r]); MEMB("params", PA[p]); MEMB("method", ME[m]); MEMB("id", ID[i]); }
    else { MEMB("id", ID[i]); MEMB("method", ME[m]); MEMB("params", PA[p]); MEMB("result", RE[r]); MEMB("error", ER[e]); }
    sprintf(t + n, "}");
    sx_note("%s", t);
    want_t w = {.kind = -1, .id = (uint64_t)IDV[i]};
    int paok = !PA[p] || p == 1 || p == 2;
    if (m == 1) {
        if (ID[i]) { if (IDOK[i] && paok) w.kind = 0; }
        else if (paok) w.kind = 2;
        w.method = "m"; w.params = PA[p];
    } else if (IDOK[i] && (r || e)) {
        if (e >= 2) { if (!r && e == 3) { w.kind = 1; w.code = -3; w.msg = "e"; } }
        else if (r) { w.kind = 1; w.result = RE[r]; }
    }
    begin();
    mcp_message_t mm; memset(&mm, 0, sizeof mm);
    int rc = mcp_json_parse_message(t, &mm);
    sx_op();
    SX_CHECK((rc == 0) == (w.kind >= 0), "validity", "parse_message %s %s", rc ? "rejects" : "accepts", t);
    if (!rc) { judge_message(&mm, &w, "parse_message", t); mcp_message_release_contents(&mm); }
    else SX_CHECK(mm.type == MCP_MESSAGE_TYPE_INVALID, "validity", "parse_message rejects but reports type %d: %s", mm.type, t);
    mcp_message_t *ms = NULL; size_t cnt = 0;
    rc = mcp_json_parse_message_or_batch(t, &ms, &cnt);
    sx_op();
    SX_CHECK((rc == 0) == (w.kind >= 0), "validity", "parse_message_or_batch %s %s", rc ? "rejects" : "accepts", t);
    if (!rc) { judge_message(ms, &w, "parse_message_or_batch", t); mcp_json_free_message_array(ms, cnt); }
    else SX_CHECK(!ms && !cnt, "validity", "messages with an error");
    sx_class("%s", w.kind < 0 ? "invalid" : w.kind == 0 ? "request" : w.kind == 1 ? "response" : "notification");
    end();
}
/* batches: every element keeps its place, invalid ones included */
static void batch_run(void) {
    static const char *E[] = {"{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"m\",\"params\":{\"a\":\"\\u0001\"}}", "{\"jsonrpc\":\"2.0\",\"method\":\"n\"}",
        "{\"jsonrpc\":\"2.0\",\"id\":4,\"result\":[1]}", "5", "{\"id\":1}", "[]", "{\"jsonrpc\":\"2.0\",\"id\":9,\"error\":{\"code\":-1,\"message\":\"x\"}}"};
    static const want_t W[] = {{0, 3, "m", "{\"a\":\"\\u0001\"}"}, {2, 0, "n"}, {1, 4, 0, 0, "[1]"}, {-1}, {-1}, {-1}, {1, 9, 0, 0, 0, "x", -1}};
    int n = sx_choose(sx_thorough() ? 6 : 5), el[8]; char t[1024]; int o = sprintf(t, sx_choose(2) ? " [" : "[");
    for (int i = 0; i < n; i++) { el[i] = sx_choose(7); o += sprintf(t + o, "%s%s", i ? "," : "", E[el[i]]); }
    sprintf(t + o, "]");
    sx_note("%s", t);
    begin();
    mcp_message_t *ms = NULL; size_t cnt = 99;
    int rc = mcp_json_parse_message_or_batch(t, &ms, &cnt);
    sx_op();
    SX_CHECK(rc == 0 && (int)cnt == n && (n == 0) == (ms == NULL), "batch-count", "batch of %d gives %zu messages (%d): %s", n, cnt, rc, t);
    for (int i = 0; i < n; i++) {
        if (W[el[i]].kind < 0) SX_CHECK(ms[i].type == MCP_MESSAGE_TYPE_INVALID, "batch-kind", "element %d is no message: %s", i, t);
        else judge_message(&ms[i], &W[el[i]], "batch element", t);
    }
    mcp_json_free_message_array(ms, cnt);
    end();
}
static void bigbatch_run(void) {
    int n = sx_choose(70) + 1, bad = sx_choose(3);
    static char t[8192]; int o = sprintf(t, "[");
    for (int i = 0; i < n; i++) o += sprintf(t + o, "%s{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":%s}", i ? "," : "", i + 1, bad && i % (bad * 7) == 3 ? "1" : "\"m\"");
    sprintf(t + o, "]");
    begin();
    mcp_message_t *ms = NULL; size_t cnt = 0;
    SX_CHECK(mcp_json_parse_message_or_batch(t, &ms, &cnt) == 0 && (int)cnt == n, "batch-count", "batch of %d gives %zu", n, cnt);
    sx_op();
    for (int i = 0; i < n; i++) {
        if (bad && i % (bad * 7) == 3) SX_CHECK(ms[i].type == MCP_MESSAGE_TYPE_INVALID, "batch-kind", "element %d", i);
        else SX_CHECK(ms[i].type == MCP_MESSAGE_TYPE_REQUEST && ms[i].request.id == (uint64_t)i + 1 && text_eq(ms[i].request.method, "m"), "batch-kind", "element %d of %d", i, n);
    }
    mcp_json_free_message_array(ms, cnt);
    end();
}
/* parameters of the calls, and the lists and contents a client decodes */
static void calls_run(void) {
    const char *a = TEXT[sx_choose(NTEXT)]; const char *p = PARAMS[sx_choose(NPARAMS)];
    begin();
    char *t = mcp_json_format_read_resource_params(a);
    SX_CHECK(t, "encode-failed", "read_resource params");
    rj *m = rj_parse_keep(t), *u = rj_get(m, "uri");
    SX_CHECK(m && m->cnt == 1 && u && u->t == 's' && !strcmp(u->s, a), "call-params", "%s", t);
    free(t);
    t = mcp_json_format_call_tool_params(a, p);
    SX_CHECK(t, "encode-failed", "call_tool params");
    m = rj_parse_keep(t); u = rj_get(m, "name"); rj *g = rj_get(m, "arguments");
    SX_CHECK(m && u && u->t == 's' && !strcmp(u->s, a), "call-params", "%s", t);
    SX_CHECK(p ? g && rj_same(g, rj_parse_keep(p)) : !g, "call-params", "%s", t);
    free(t);
    sx_ops(2);
    end();
}
static char *enc(const char *s, char *o) {     /* JSON string, escaping by hand */
    char *q = o; *q++ = '"';
    for (; *s; s++) { if ((unsigned char)*s < 32) q += sprintf(q, "\\u%04x", *s); else { if (*s == '"' || *s == '\\') *q++ = '\\'; *q++ = *s; } }
    *q++ = '"'; *q = 0; return o;
}
static int opt_eq(const char *a, const char *b) { return (!a && !b) || (a && b && !strcmp(a, b)); }
static void lists_run(void) {
    int kind = sx_choose(4), n = sx_choose(4), o = 0;
    char t[4096], b1[128], b2[128], b3[128], b4[128];
    const char *A[4], *B[4], *C[4], *D[4]; int ty[4], req[4], bad = -1;
    static const char *KEY[] = {"resources", "resourceTemplates", "contents", "tools"};
    o = sprintf(t, "{\"%s\":[", KEY[kind]);
    for (int i = 0; i < n; i++) {
        int v = sx_choose(NTEXT), shape = sx_choose(5);
        A[i] = TEXT[v]; B[i] = shape & 1 ? TEXT[(v + 1) % NTEXT] : NULL; C[i] = shape & 2 ? TEXT[(v + 2) % NTEXT] : NULL; D[i] = shape == 3 ? TEXT[(v + 3) % NTEXT] : NULL;
        ty[i] = shape % 3; req[i] = shape & 1;
        if (shape == 4 && bad < 0) bad = i;
        if (i) t[o++] = ',';
        if (shape == 4 && kind != 2) { o += sprintf(t + o, "{\"name\":7}"); continue; }   /* lacks its key */
        if (shape == 4) { o += sprintf(t + o, "[]"); continue; }
        static const char *PK[] = {"uri", "uriTemplate", "text", "name"};
        static const char *TY[] = {"text", "json", "binary"};
        o += sprintf(t + o, "{\"%s\":%s", PK[kind], enc(A[i], b1));
        if (kind < 2) {
            if (B[i]) o += sprintf(t + o, ",\"name\":%s", enc(B[i], b2));
            if (C[i]) o += sprintf(t + o, ",\"mimeType\":%s", enc(C[i], b3));
            if (D[i]) o += sprintf(t + o, ",\"description\":%s", enc(D[i], b4));
        } else if (kind == 2) {
            o += sprintf(t + o, ",\"type\":\"%s\"", TY[ty[i]]);
            if (C[i]) o += sprintf(t + o, ",\"mimeType\":%s", enc(C[i], b3));
        } else {
            if (B[i]) o += sprintf(t + o, ",\"description\":%s", enc(B[i], b2));
            o += sprintf(t + o, ",\"inputSchema\":{\"type\":\"object\",\"properties\":{%s:{\"type\":\"string\",\"description\":%s}},\"required\":[%s]}", enc(A[i], b1), enc(A[i], b2), req[i] ? enc(A[i], b3) : "");
        }
        t[o++] = '}';
    }
    sprintf(t + o, "]}");
    sx_note("%s", t);
    begin();
    void **items = NULL; size_t cnt = 99; int rc;
    if (kind == 0) rc = mcp_json_parse_resources(t, (mcp_resource_t ***)&items, &cnt);
    else if (kind == 1) rc = mcp_json_parse_resource_templates(t, (mcp_resource_template_t ***)&items, &cnt);
    else if (kind == 2) rc = mcp_json_parse_content(t, (mcp_content_item_t ***)&items, &cnt);
    else rc = mcp_json_parse_tools(t, (mcp_tool_t ***)&items, &cnt);
    sx_op();
    SX_CHECK((rc == 0) == (bad < 0), "list-validity", "list %s: %s", rc ? "rejected" : "accepted", t);
    if (rc) SX_CHECK(!items && !cnt, "list-validity", "items with an error: %s", t);
    else {
        SX_CHECK((int)cnt == n, "list-count", "%zu items: %s", cnt, t);
        for (int i = 0; i < n; i++) {
            if (kind == 0) { mcp_resource_t *r = items[i]; SX_CHECK(opt_eq(r->uri, A[i]) && opt_eq(r->name, B[i]) && opt_eq(r->mime_type, C[i]) && opt_eq(r->description, D[i]), "list-item", "resource %d: %s", i, t); }
            else if (kind == 1) { mcp_resource_template_t *r = items[i]; SX_CHECK(opt_eq(r->uri_template, A[i]) && opt_eq(r->name, B[i]) && opt_eq(r->mime_type, C[i]) && opt_eq(r->description, D[i]), "list-item", "template %d: %s", i, t); }
            else if (kind == 2) { mcp_content_item_t *r = items[i]; SX_CHECK((int)r->type == ty[i] && opt_eq(r->mime_type, C[i]) && opt_eq(r->data, A[i]), "list-item", "content %d: %s", i, t); }
            else { mcp_tool_t *r = items[i]; SX_CHECK(opt_eq(r->name, A[i]) && opt_eq(r->description, B[i]) && r->input_schema_count == 1 && opt_eq(r->input_schema[0].name, A[i]) && opt_eq(r->input_schema[0].type, "string") && opt_eq(r->input_schema[0].description, A[i]) && r->input_schema[0].required == req[i], "list-item", "tool %d: %s", i, t); }
        }
        for (int i = 0; i < n; i++) { if (kind == 0) mcp_resource_free(items[i]); else if (kind == 1) mcp_resource_template_free(items[i]); else if (kind == 2) mcp_content_item_free(items[i]); else mcp_tool_free(items[i]); }
        free(items);
    }
    end();
}
static void toolresult_run(void) {
    static const char *IE[] = {"", "\"isError\":true,", "\"isError\":false,", "\"isError\":1,"};
    int e = sx_choose(4), n = sx_choose(4), bad = sx_choose(2); char t[1024], b[128]; int v = sx_choose(NTEXT);
    int o = sprintf(t, "{%s\"content\":[", IE[e]);
    for (int i = 0; i < n; i++) o += sprintf(t + o, "%s{\"type\":\"text\",\"text\":%s}", i ? "," : "", enc(TEXT[(v + i) % NTEXT], b));
    if (bad) o += sprintf(t + o, "%s3", n ? "," : "");
    sprintf(t + o, "]}");
    begin();
    mcp_content_item_t **items = NULL; size_t cnt = 9; bool ie = true;
    int rc = mcp_json_parse_tool_result(t, &items, &cnt, &ie);
    sx_op();
    SX_CHECK((rc == 0) == !bad, "list-validity", "tool result %s: %s", rc ? "rejected" : "accepted", t);
    if (!rc) {
        SX_CHECK((int)cnt == n && ie == (e == 1), "tool-result", "%s", t);
        for (int i = 0; i < n; i++) { SX_CHECK(opt_eq(items[i]->data, TEXT[(v + i) % NTEXT]), "tool-result", "item %d: %s", i, t); mcp_content_item_free(items[i]); }
        free(items);
    } else SX_CHECK(!items && !cnt, "list-validity", "items with an error");
    end();
}
static void oom_run(void) {
    int what = sx_choose(9), k = sx_choose(40);
    begin();
    want_t q = {.kind = 0, .id = 5, .method = "m\x01", .params = "{\"a\":\"b\"}"}, r = {.kind = 1, .id = 5, .result = "{\"a\":\"b\"}"}, e = {.kind = 1, .id = 5, .code = -2, .msg = "x\"y"};
    mcp_message_t m = {.type = MCP_MESSAGE_TYPE_REQUEST}; m.request.id = 5; m.request.method = (char *)q.method; m.request.params = (void *)q.params;
    sx_note("allocation %d fails in case %d", k, what);
    sx_alloc_fail(k);
    char *t = NULL; want_t *w = &q;
    mcp_message_t *ms = NULL; size_t cnt = 0; int rc = -1;
    switch (what) {
    case 0: t = mcp_json_format_request_direct(5, q.method, q.params); break;
    case 1: t = mcp_json_create_request(q.method, q.params, 5); break;
    case 2: t = mcp_json_create_error_response(5, -2, e.msg); w = &e; break;
    case 3: t = mcp_json_stringify_message(&m); break;
    case 4: rc = mcp_json_parse_message_or_batch("[{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"m\",\"params\":{\"a\":1}},{\"jsonrpc\":\"2.0\",\"id\":4,\"result\":[1]}]", &ms, &cnt); break;
    case 5: { uint64_t id; mcp_error_code_t c; char *msg = 0, *res = 0; rc = mcp_json_parse_response("{\"id\":5,\"result\":{\"a\":\"b\"}}", &id, &c, &msg, &res); if (!rc) { sx_alloc_fail(-1); SX_CHECK(json_eq(res, r.result), "oom-wrong", "result"); } free(msg); free(res); break; }
    case 6: { mcp_tool_t **tl = 0; rc = mcp_json_parse_tools("{\"tools\":[{\"name\":\"a\"},{\"name\":\"b\",\"description\":\"d\"}]}", &tl, &cnt); if (!rc && tl) { for (size_t i = 0; i < cnt; i++) mcp_tool_free(tl[i]); free(tl); } cnt = 0; break; }
    case 7: { mcp_content_item_t **cl = 0; bool ie; rc = mcp_json_parse_tool_result("{\"content\":[{\"text\":\"a\"},{\"text\":\"b\"}]}", &cl, &cnt, &ie); if (!rc && cl) { for (size_t i = 0; i < cnt; i++) mcp_content_item_free(cl[i]); free(cl); } cnt = 0; break; }
    default: t = mcp_json_create_response(5, r.result); w = &r; break;
    }
    sx_alloc_fail(-1);
    sx_op();
    /* what is produced must still be whole (a rejected result or params may be missing, never wrong) */
    if (t) { rj *x = rj_parse_keep(t); SX_CHECK(x && x->t == 'o', "oom-malformed", "malformed: %s", t); if (what == 0 || what == 3) judge_text(t, w, "encoder"); free(t); }
    if (ms) mcp_json_free_message_array(ms, cnt);
    mcp_arena_destroy_current_thread();
    /* memory may be reported exhausted, but it must not crash; leaks on these paths are not part of the property */
}
static const sx_scenario S[] = {
    {"request", 0, request_run, 0, "51 identifiers (every digit count and its neighbours) x 9 methods x 7 params, 4 encoders x all decoders"},
    {"notification", 0, notification_run, 0, "9 methods x 7 params"},
    {"result", 0, result_run, 0, "51 identifiers x 11 results, 3 encoders x all decoders"},
    {"error", 0, error_run, 0, "51 identifiers x 7 codes x 9 messages, 3 encoders x all decoders"},
    {"methods", 0, methods_run, 0, "every text of one and two ASCII characters as method and error message, and lengths up to 600"},
    {"members", 0, members_run, 0, "every combination of present, absent and ill-typed members: messages are decoded, the rest refused"},
    {"batch", 0, batch_run, 0, "batches of up to 4 of 7 kinds of elements"},
    {"bigbatch", 0, bigbatch_run, 0, "batches of every size up to 70"},
    {"calls", 0, calls_run, 0, "call parameters"},
    {"lists", 0, lists_run, 0, "lists of up to 3 resources, templates, contents and tools"},
    {"toolresult", 0, toolresult_run, 0, "tool results"},
    {"oom", 0, oom_run, 0, "every allocation failing in turn"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
