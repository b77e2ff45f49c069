/* S01: every message and batch up to a bound, against a reference that says which answers are due. */
#include <stdarg.h>
#include "srv.h"

static int caps_r, caps_t, have_rh, have_th;
static int hits;                                     /* handler calls due */
static struct { char kind; const char *name; rj *args; } due[SV_CALLS];
static sv_exp error_due(double id, int code) { return (sv_exp){1, id, code, NULL, 0}; }
static sv_exp request(double id, const char *m, rj *p) {
    sv_exp e = {1, id, 0, NULL, 0};
    int code;
    if (!strcmp(m, "ping")) { e.result = sv_json("{\"message\":\"pong\"}"); return e; }
    if (!strcmp(m, "list_tools")) { if (!caps_t) return error_due(id, MCP_ERROR_METHOD_NOT_FOUND); e.result = sv_json("{\"tools\":[]}"); return e; }
    if (!strcmp(m, "list_resources")) { if (!caps_r) return error_due(id, MCP_ERROR_METHOD_NOT_FOUND); e.result = sv_json("{\"resources\":[]}"); return e; }
    if (!strcmp(m, "list_resource_templates")) { if (!caps_r) return error_due(id, MCP_ERROR_METHOD_NOT_FOUND); e.result = sv_json("{\"resourceTemplates\":[]}"); return e; }
    if (!strcmp(m, "get_performance_metrics")) { e.lax = 2; return e; }
    if (!strcmp(m, "reset_performance_metrics")) { e.result = sv_json("{\"success\":true}"); return e; }
    if (!strcmp(m, "call_tool")) {
        if (!caps_t) return error_due(id, MCP_ERROR_METHOD_NOT_FOUND);
        rj *n = p && p->t == 'o' ? rj_get(p, "name") : NULL, *a = p && p->t == 'o' ? rj_get(p, "arguments") : NULL;
        if (!n || n->t != 's') return error_due(id, MCP_ERROR_INVALID_PARAMS);
        if (!have_th) return error_due(id, MCP_ERROR_INTERNAL_ERROR);
        due[hits].kind = 't'; due[hits].name = n->s; due[hits++].args = a;
        e.result = sv_tool_result(n->s, a, &code); e.code = code;
        return e;
    }
    if (!strcmp(m, "read_resource")) {
        if (!caps_r) return error_due(id, MCP_ERROR_METHOD_NOT_FOUND);
        rj *u = p && p->t == 'o' ? rj_get(p, "uri") : NULL;
        if (!u || u->t != 's') return error_due(id, MCP_ERROR_INVALID_PARAMS);
        if (!have_rh) return error_due(id, MCP_ERROR_RESOURCE_NOT_FOUND);
        e.result = sv_resource_result('r', u->s, 0, &code); e.code = code;
        due[hits].kind = 'r'; due[hits].name = u->s; due[hits++].args = NULL;
        return e;
    }
    return error_due(id, MCP_ERROR_METHOD_NOT_FOUND);
}
/* what is due for one message; *bad: it is no message at all */
static sv_exp message(rj *v, int *bad) {
    sv_exp none = {0}; *bad = 0;
    if (!v || v->t != 'o') { *bad = 1; return none; }
    rj *id = rj_get(v, "id"), *me = rj_get(v, "method"), *pa = rj_get(v, "params"), *re = rj_get(v, "result"), *er = rj_get(v, "error"), *ve = rj_get(v, "jsonrpc");
    sv_exp e = none;
    int paok = !pa || pa->t == 'o' || pa->t == 'a';
    if (me && me->t == 's') {
        if (!paok || (id && !sv_okid(id))) { *bad = 1; return none; }
        if (id) e = request(id->n, me->s, pa);
    } else if (!(sv_okid(id) && ((er && er->t == 'o') || re))) { *bad = 1; return none; }
    else if (er && er->t == 'o' && (re || !rj_get(er, "code") || !rj_get(er, "message"))) { *bad = 1; return none; }
    if (!ve || ve->t != 's' || strcmp(ve->s, "2.0")) e.lax |= 1;   /* the version is not part of the property */
    return e;
}
static const char *T;
static void judge_one(rj *r, const sv_exp *e, int bad, rj *el, const char *all) {
    SX_CHECK(r && r->t == 'o', "not-an-answer", "answer to %s: %s", T, all);
    rj *id = rj_get(r, "id"), *re = rj_get(r, "result"), *er = rj_get(r, "error"), *ve = rj_get(r, "jsonrpc");
    SX_CHECK(ve && ve->t == 's' && !strcmp(ve->s, "2.0"), "version", "answer to %s: %s", T, all);
    SX_CHECK((re != NULL) != (er != NULL), "result-or-error", "answer to %s: %s", T, all);
    rj *c = er ? rj_get(er, "code") : NULL;
    if (er) SX_CHECK(er->t == 'o' && c && c->t == '#' && rj_get(er, "message") && rj_get(er, "message")->t == 's', "error-shape", "answer to %s: %s", T, all);
    if (bad) {
        rj *own = el && el->t == 'o' ? rj_get(el, "id") : NULL;
        SX_CHECK(er, "malformed-accepted", "answer to %s: %s", T, all);
        SX_CHECK(c->n == MCP_ERROR_PARSE_ERROR || c->n == MCP_ERROR_INVALID_REQUEST, "malformed-code", "answer to %s: %s", T, all);
        SX_CHECK(id && (id->t == 'n' || (id->t == '#' && id->n == 0) || (own && rj_same(id, own))), "malformed-id", "answer to %s: %s", T, all);
        return;
    }
    SX_CHECK(id && id->t == '#' && id->n == e->id, "wrong-id", "answer to %s: %s", T, all);
    if (e->lax & 1 && er && (c->n == MCP_ERROR_INVALID_REQUEST || c->n == MCP_ERROR_PARSE_ERROR)) return;
    if (e->lax & 2) { SX_CHECK(!er || c->n == MCP_ERROR_INTERNAL_ERROR, "wrong-code", "answer to %s: %s", T, all); return; }
    if (e->code) { SX_CHECK(er, "no-error", "error %d expected for %s: %s", e->code, T, all); SX_CHECK(c->n == e->code, "wrong-code", "error %d expected for %s: %s", e->code, T, all); }
    else { SX_CHECK(re, "no-result", "a result expected for %s: %s", T, all); SX_CHECK(rj_same(re, e->result), "wrong-result", "wrong result for %s: %s", T, all); }
}
/* sends the text and judges everything about the answer */
static void exchange(const char *text, size_t n) {
    T = text; hits = 0; sv_ncall = 0;
    rj *v = rj_parse_keep(text);
    int err; char *ans = sv_send_n(text, n, &err);
    rj *r = ans ? rj_parse_keep(ans) : NULL;
    SX_CHECK(!ans || (r && !(rj_flags & (RJ_RAWCTL | RJ_DUP))), "answer-malformed", "answer to %s: %s", text, ans);
    int lax = 0;
    if (!v || v->t != 'a') {
        int bad; sv_exp e = message(v, &bad); lax = e.lax & 1;
        if (!bad && !e.kind) SX_CHECK(!r || lax, "uncalled-for", "answer to %s: %s", text, ans);
        else { SX_CHECK(r, "no-answer", "no answer to %s (%d)", text, err); judge_one(r, &e, bad, v, ans); }
        sx_class("%s", bad ? v ? "malformed" : "not JSON" : !e.kind ? "no answer due" : e.code ? "error" : "result");
    } else if (v->cnt == 0) {
        SX_CHECK(r, "no-answer", "no answer to %s (%d)", text, err);
        judge_one(r->t == 'a' && r->cnt == 1 ? r->it[0] : r, NULL, 1, NULL, ans);
    } else {
        int k = 0;
        for (int i = 0; i < v->cnt; i++) {
            int bad; sv_exp e = message(v->it[i], &bad); lax |= e.lax & 1;
            if (!bad && !e.kind) { if (e.lax & 1 && r && r->t == 'a' && k < r->cnt && rj_get(r->it[k], "error")) k++; continue; }
            SX_CHECK(r && r->t == 'a', "no-batch-answer", "answer to %s: %s", text, ans ? ans : "none");
            SX_CHECK(k < r->cnt, "missing-answer", "element %d of %s not answered: %s", i, text, ans);
            judge_one(r->it[k++], &e, bad, v->it[i], ans);
        }
        if (k) SX_CHECK(k == r->cnt, "uncalled-for", "too many answers to %s: %s", text, ans);
        else SX_CHECK(!r || lax, "uncalled-for", "answer to %s: %s", text, ans);
        sx_class("batch, %d answers", k);
    }
    /* the handlers ran exactly as called for (cached resources need not be asked again) */
    int j = 0;
    for (int i = 0; i < hits; i++) {
        if (j < sv_ncall && sv_call[j].kind == due[i].kind && !strcmp(sv_call[j].name, due[i].name)) {
            rj *a = sv_call[j].args[0] ? rj_parse_keep(sv_call[j].args) : NULL;
            if (due[i].kind == 't') SX_CHECK(due[i].args ? a && rj_same(a, due[i].args) : !a, "wrong-arguments", "handler of %s was given %s: %s", due[i].name, sv_call[j].args, text);
            j++;
        } else SX_CHECK(due[i].kind == 'r' || lax, "handler-not-called", "handler of %s not called: %s", due[i].name, text);
    }
    SX_CHECK(j == sv_ncall || lax, "handler-calls", "handler of %s called without reason: %s", j < sv_ncall ? sv_call[j].name : "", text);
    free(ans);
}

static const char *REQ[] = { /* %s is the identifier */
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"ping\"}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"call_tool\",\"params\":{\"name\":\"echo\",\"arguments\":{\"x\":\"h\\\"i\"}}}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"read_resource\",\"params\":{\"uri\":\"r:two\"}}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"nope\"}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"call_tool\",\"params\":{\"name\":\"bad\"}}",
    "{\"jsonrpc\":\"2.0\",\"method\":\"call_tool\",\"params\":{\"name\":\"echo\"}}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"result\":{}}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s}",
    "7",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"list_tools\",\"params\":{}}",
    "{\"jsonrpc\":\"2.0\",\"id\":\"a\",\"method\":\"ping\"}",
    "[]",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"call_tool\"}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"read_resource\",\"params\":{\"uri\":\"r:fail\"}}",
    "{\"jsonrpc\":\"2.0\",\"method\":\"nope\"}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"error\":{\"code\":-1,\"message\":\"m\"}}",
    "null",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"call_tool\",\"params\":{\"name\":\"soft\",\"arguments\":null}}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"call_tool\",\"params\":[]}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"ping\",\"params\":5}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"list_resources\"}",
    "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"reset_performance_metrics\"}",
};
#define NREQ ((int)(sizeof REQ / sizeof *REQ))
static void config(int r, int t, int rh, int th) { caps_r = r; caps_t = t; have_rh = rh; have_th = th; sv_new(NULL, r, t, rh, th); sv_run(); }

static void single_run(void) {
    static const char *M[] = {"ping", "call_tool", "read_resource", "list_tools", "list_resources", "list_resource_templates", "get_performance_metrics", "reset_performance_metrics",
        "", "pin", "pingx", "Ping", "call_tools", "call_too", "xall_tool", "read_resourcf", "list_toolz", "list_resource", "list_resource_templatez", "nope", "get_performance_metrick", "reset_performance_metricz", "get_performance_metric", "ping\\u0001",
        "list_toolsx", "list_resourcesx", "list_resource_templatesx", "get_performance_metricsx", "reset_performance_metricsx", "read_resourcex", "list_tools ", "PING"};
    static const char *P[] = {NULL, "{}", "[]", "[\"echo\"]", "null", "\"x\"", "{\"name\":\"echo\",\"uri\":\"r:a\"}", "{\"name\":\"echo\",\"arguments\":{\"x\":\"y\"},\"uri\":\"\"}",
        "{\"name\":5,\"uri\":[]}", "{\"name\":null,\"uri\":null}", "{\"name\":\"\",\"uri\":\"r:two\"}", "{\"name\":\"two\",\"arguments\":[1],\"uri\":\"r:none\"}", "{\"name\":\"zero\",\"arguments\":7,\"uri\":\"r:fail\"}",
        "{\"name\":\"hole\",\"uri\":\"r:empty\"}", "{\"name\":\"bare\",\"uri\":\"r:hole\"}", "{\"name\":\"soft\",\"uri\":\"r:bin\"}", "{\"name\":\"bad\",\"uri\":\"r:\\\"q\\u0001\"}", "{\"name\":\"badmix\"}", "{\"name\":\"gone\",\"Name\":\"echo\"}"};
    static const char *ID[] = {"1", "0", "9007199254740992", "-1", "1.5", "\"1\"", "null", "1e400", NULL};
    int cfg = sx_choose(4), m = sx_choose(sizeof M / sizeof *M), p = sx_choose(sizeof P / sizeof *P), i = sx_choose(sizeof ID / sizeof *ID), form = sx_choose(3);
    char t[512]; int n = sprintf(t, "%s{\"jsonrpc\":\"2.0\"", form == 2 ? " \n" : "");
    if (ID[i]) n += sprintf(t + n, ",\"id\":%s", ID[i]);
    n += sprintf(t + n, ",\"method\":\"%s\"", M[m]);
    if (P[p]) n += sprintf(t + n, ",\"params\":%s", P[p]);
    n += sprintf(t + n, "}%s", form == 2 ? " " : "");
    sx_note("%s", t);
    config(cfg != 1, cfg != 2, cfg != 3, cfg != 3);
    exchange(t, (size_t)n + (form == 1));
    if (form == 0) exchange(t, (size_t)n);        /* asked again: the same answer */
    sv_end();
}
static int build(char *t, int el, int pos, int same) {
    char id[8]; sprintf(id, "%d", same ? 5 : 10 + pos);
    return sprintf(t, REQ[el], id);
}
static void batch_run(void) {
    int thor = sx_thorough(), len = sx_choose(5 + thor), alpha = len <= 3 ? NREQ : len == 4 ? (thor ? 17 : 12) : 10, same = len > 1 ? sx_choose(2) : 0, el[8];
    char t[2048]; int n = sprintf(t, sx_choose(2) ? " [" : "[");
    for (int i = 0; i < len; i++) { if (i) t[n++] = ','; el[i] = sx_choose(alpha); n += build(t + n, el[i], i, same); }
    n += sprintf(t + n, "]");
    sx_note("%s", t);
    config(1, 1, 1, 1);
    exchange(t, (size_t)n);
    sv_end();
}
/* several messages to one server: each is answered as if it were the first */
static void history_run(void) {
    int len = 3;
    config(1, 1, 1, 1);
    for (int i = 0; i < len; i++) {
        int b = sx_choose(3); char t[1024]; int n = 0;
        if (b) t[n++] = '[';
        n += build(t + n, sx_choose(sx_thorough() ? i == 2 ? 10 : NREQ : i == 2 ? 5 : 12), i, 0);
        if (b == 2) { t[n++] = ','; n += build(t + n, sx_choose(6), 7, 0); }
        if (b) t[n++] = ']';
        t[n] = 0;
        sx_note("%s", t);
        exchange(t, (size_t)n);
    }
    sv_end();
}
/* texts put together from pieces: JSON or not, messages or not */
static void pieces_run(void) {
    static const char *P[] = {"{", "}", "[", "]", ",", "\"id\":4", "\"method\":\"ping\"", "\"jsonrpc\":\"2.0\"", "\"params\":", "{}", "\"result\":1", "5"};
    char t[256]; int n = 0, len = sx_thorough() ? 7 : 6;
    for (int i = 0; i < len; i++) { int c = sx_choose(13); if (c == 12) { if (!i) return; break; } n += sprintf(t + n, "%s", P[c]); }
    sx_note("%s", t);
    if (!SV) { config(1, 1, 1, 1); }
    rj_used = 0;
    exchange(t, (size_t)n);
}
static int cmp_obj(const void *a, const void *b) {
    static const char *K[] = {"name", "uri", "uriTemplate"};
    for (int i = 0; i < 3; i++) { rj *x = rj_get(*(rj **)a, K[i]), *y = rj_get(*(rj **)b, K[i]); if (x && y && x->t == 's' && y->t == 's') { int c = strcmp(x->s, y->s); if (c) return c; } }
    return 0;
}
/* the lists hold exactly what was registered, the latest definition of each */
static void lists_run(void) {
    static const char *N[] = {"a", "b\"", "\xc3\xa9"};
    int depth = sx_thorough() ? 4 : 3;
    sv_new(NULL, caps_r = 1, caps_t = 1, 0, 0); sv_run();
    char def[3][3][256]; memset(def, 0, sizeof def);
    for (int d = 0; d < depth; d++) {
        int op = sx_choose(10);
        if (op == 9) break;
        int kind = op / 3, i = op % 3, v = sx_choose(3);
        const char *desc = v == 0 ? NULL : v == 1 ? "" : "d\n";
        char dj[64]; if (desc) sprintf(dj, ",\"description\":%s", desc[0] ? "\"d\\n\"" : "\"\""); else dj[0] = 0;
        const char *q = i == 0 ? "\"a\"" : i == 1 ? "\"b\\\"\"" : "\"\xc3\xa9\"";
        int rc;
        sx_note("%s %s v%d", kind == 0 ? "tool" : kind == 1 ? "resource" : "template", N[i], v);
        if (kind == 0) {
            mcp_tool_t *t = mcp_tool_create(N[i], desc);
            if (v) mcp_tool_add_param(t, "p", "string", v == 2 ? "pd" : NULL, v == 2);
            if (v == 2) mcp_tool_add_param(t, "q", "number", NULL, false);
            rc = mcp_server_add_tool(SV, t); mcp_tool_free(t);
            sprintf(def[0][i], "{\"name\":%s%s%s}", q, dj, v == 0 ? "" : v == 1 ? ",\"inputSchema\":{\"type\":\"object\",\"properties\":{\"p\":{\"type\":\"string\"}}}"
                : ",\"inputSchema\":{\"type\":\"object\",\"properties\":{\"p\":{\"type\":\"string\",\"description\":\"pd\"},\"q\":{\"type\":\"number\"}},\"required\":[\"p\"]}");
        } else if (kind == 1) {
            mcp_resource_t *r = mcp_resource_create(N[i], v ? "nm" : NULL, v == 1 ? "text/plain" : NULL, desc);
            rc = mcp_server_add_resource(SV, r); mcp_resource_free(r);
            sprintf(def[1][i], "{\"uri\":%s%s%s%s}", q, v ? ",\"name\":\"nm\"" : "", v == 1 ? ",\"mimeType\":\"text/plain\"" : "", dj);
        } else {
            mcp_resource_template_t *r = mcp_resource_template_create(N[i], v ? "nm" : NULL, v == 1 ? "text/plain" : NULL, desc);
            rc = mcp_server_add_resource_template(SV, r); mcp_resource_template_free(r);
            sprintf(def[2][i], "{\"uriTemplate\":%s%s%s%s}", q, v ? ",\"name\":\"nm\"" : "", v == 1 ? ",\"mimeType\":\"text/plain\"" : "", dj);
        }
        SX_CHECK(rc == 0, "add", "adding fails");
        sx_op();
    }
    static const char *M[] = {"list_tools", "list_resources", "list_resource_templates"}, *F[] = {"tools", "resources", "resourceTemplates"};
    for (int k = 0; k < 3; k++) {
        char t[128]; int n = sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"%s\"}", k + 3, M[k]);
        char *a = sv_send_n(t, (size_t)n, NULL);
        SX_CHECK(a, "no-answer", "no answer to %s", t);
        rj *r = rj_parse_keep(a), *l = r ? rj_get(r, "result") : NULL; l = l && l->t == 'o' && l->cnt == 1 ? rj_get(l, F[k]) : NULL;
        SX_CHECK(l && l->t == 'a' && rj_get(r, "id")->n == k + 3, "list-shape", "%s: %s", M[k], a);
        char want[1024] = "["; for (int i = 0; i < 3; i++) if (def[k][i][0]) { if (want[1]) strcat(want, ","); strcat(want, def[k][i]); } strcat(want, "]");
        rj *w = rj_parse_keep(want);
        qsort(l->it, (size_t)l->cnt, sizeof *l->it, cmp_obj); qsort(w->it, (size_t)w->cnt, sizeof *w->it, cmp_obj);
        SX_CHECK(rj_same(l, w), "list-content", "%s gives %s, registered: %s", M[k], a, want);
        free(a);
    }
    sv_end();
}
/* more tools than the tables first have room for */
static void manylists_run(void) {
    int n = sx_choose(60), dup = sx_choose(3);
    sv_new(NULL, 1, 1, 0, 0); sv_run();
    for (int round = 0; round <= (dup > 0); round++)
        for (int i = round ? n - 1 : 0; round ? i >= 0 : i < n; round ? i-- : i++) {
            char nm[16], de[16]; sprintf(nm, "tool%d", i); sprintf(de, "d%d", round);
            if (round && dup == 2 && i % 2) continue;
            mcp_tool_t *t = mcp_tool_create(nm, de); SX_CHECK(mcp_server_add_tool(SV, t) == 0, "add", "adding %s fails", nm); mcp_tool_free(t);
        }
    const char *t = "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"list_tools\"}";
    char *a = sv_send_n(t, strlen(t), NULL); rj *r = a ? rj_parse_keep(a) : NULL, *l = r && rj_get(r, "result") ? rj_get(rj_get(r, "result"), "tools") : NULL;
    SX_CHECK(l && l->t == 'a' && l->cnt == n, "list-content", "%d tools registered, %d listed", n, l ? l->cnt : -1);
    char seen[64] = {0};
    for (int i = 0; i < n; i++) {
        rj *nm = rj_get(l->it[i], "name"), *de = rj_get(l->it[i], "description"); int k = nm && nm->t == 's' ? atoi(nm->s + 4) : -1;
        SX_CHECK(k >= 0 && k < n && !seen[k]++, "list-content", "tool listed wrongly: %s", nm ? nm->s : "-");
        SX_CHECK(de && de->t == 's' && de->s[1] == (dup == 0 || (dup == 2 && k % 2) ? '0' : '1'), "list-content", "%s has description %s", nm->s, de ? de->s : "-");
    }
    free(a); sv_end();
}
/* the size limit: larger messages are refused, the server keeps answering */
static void limit_run(void) {
    mcp_server_config_t c; memset(&c, 0, sizeof c); c.max_message_size = 80;
    caps_r = caps_t = have_rh = have_th = 1; sv_new(&c, 1, 1, 1, 1); sv_run();
    for (int i = 0; i < 3; i++) {
        int pad = sx_choose(8), nul = sx_choose(2); char t[256]; int n = sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"ping\"}");
        while (n < 77 + pad) t[n++] = ' ';
        t[n] = 0;
        sx_note("%d bytes%s", n, nul ? " and a NUL" : "");
        if (n + nul <= 80) exchange(t, (size_t)(n + nul));
        else {
            int err = 0; char *a = sv_send_n(t, (size_t)(n + nul), &err);
            if (n > 80) SX_CHECK((!a && err) || (a && strstr(a, "error")), "over-limit", "a message of %d bytes is accepted: %s", n, a);
            free(a);
        }
    }
    sv_end();
}
/* long texts and many elements */
static void big_run(void) {
    static char t[40000]; static const int L[] = {1, 100, 239, 240, 241, 255, 256, 257, 511, 512, 1000, 4095, 4096, 8000};
    int what = sx_choose(3);
    config(1, 1, 1, 1);
    if (what == 0) { int n = sx_choose(40) + 1, el = sx_choose(6), k = 0; t[k++] = '['; for (int i = 0; i < n; i++) { if (i) t[k++] = ','; k += build(t + k, el, i, 0); } t[k++] = ']'; t[k] = 0; exchange(t, (size_t)k); }
    else if (what == 1) { /* one long argument alone or with short neighbours */
        int len = L[sx_choose(14)], b = sx_choose(3), k = 0; if (len > 450) len = 450 + len % 7;
        if (b) k += sprintf(t + k, "[");
        if (b == 2) k += sprintf(t + k, "{\"jsonrpc\":\"2.0\",\"id\":2,\"method\":\"ping\"},");
        k += sprintf(t + k, "{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"call_tool\",\"params\":{\"name\":\"echo\",\"arguments\":{\"x\":\"");
        memset(t + k, 'y', (size_t)len); k += len; k += sprintf(t + k, "\"}}}");
        if (b == 2) k += sprintf(t + k, ",{\"jsonrpc\":\"2.0\",\"id\":4,\"method\":\"ping\"}");
        if (b) k += sprintf(t + k, "]");
        /* the handler log keeps only the beginning of the arguments */
        T = t; hits = 0; sv_ncall = 0; rj *v = rj_parse_keep(t); char *a = sv_send_n(t, (size_t)k, NULL); rj *r = a ? rj_parse_keep(a) : NULL;
        SX_CHECK(r, "no-answer", "no answer"); sv_exp e; int bad;
        if (!b) { e = message(v, &bad); judge_one(r, &e, bad, v, a); }
        else { SX_CHECK(r->t == 'a' && r->cnt == v->cnt, "missing-answer", "answer to %s: %s", t, a); for (int i = 0; i < v->cnt; i++) { e = message(v->it[i], &bad); judge_one(r->it[i], &e, bad, v->it[i], a); } }
        free(a);
    } else { /* long unknown method */
        int len = L[sx_choose(14)], k = sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\""); memset(t + k, 'm', (size_t)len); k += len; k += sprintf(t + k, "\"}"); exchange(t, (size_t)k);
    }
    sv_end();
}
static size_t arena_used(void) { size_t used = 0, held = 0, blocks = 0; mcp_arena_t *a = mcp_arena_get_current(); if (a) mcp_arena_get_stats(a, &used, &held, &blocks); return used; }
/* the same message over and over: what the server holds does not grow */
static void steady_run(void) {
    int b = sx_choose(3), el = sx_choose(NREQ); char t[1024]; int n = 0; long held = 0; size_t used = 0;
    if (b) t[n++] = '[';
    n += build(t + n, el, 0, 0);
    if (b == 2) { t[n++] = ','; n += build(t + n, sx_choose(NREQ), 1, 0); }
    if (b) t[n++] = ']';
    t[n] = 0;
    sx_note("%s", t);
    config(1, 1, 1, 1);
    for (int i = 0; i < 500; i++) {
        int err; char *a = sv_send_n(t, (size_t)n, &err); free(a); sv_ncall = 0;
        if (i == 99) held = sx_live(), used = arena_used();
    }
    SX_CHECK(arena_used() <= used, "grows", "%d bytes of the thread's arena in use after 100 times %s, %d after 500 times", (int)used, t, (int)arena_used());
    SX_CHECK(sx_live() <= held, "grows", "%d blocks held after 100 times %s, %d after 500 times", (int)held, t, (int)sx_live());
    sv_end();
}
static const sx_scenario S[] = {
    {"single", sv_warm, single_run, 0, "32 methods x 19 parameters x 9 identifiers x 4 configurations x 3 forms"},
    {"batch", sv_warm, batch_run, 0, "all batches of up to 4 (thorough 5) elements over 22 kinds of elements, same or different identifiers"},
    {"history", sv_warm, history_run, 0, "all sequences of 3 messages, single or batches, to one server"},
    {"pieces", sv_warm, pieces_run, 0, "all texts of up to 6 (thorough 7) pieces of messages"},
    {"lists", sv_warm, lists_run, 0, "all sequences of 3 (thorough 4) registrations of tools, resources and templates"},
    {"manylists", sv_warm, manylists_run, 0, "0-59 tools, some registered again"},
    {"steady", sv_warm, steady_run, 0, "every message and pair of messages sent 500 times: memory held after 100 and after 500"},
    {"limit", sv_warm, limit_run, 0, "three messages of sizes around the limit"},
    {"big", sv_warm, big_run, 0, "batches of up to 40 elements; long arguments and methods"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
