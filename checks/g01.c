/* G01: all small gateway configurations against all requests, and forwarding through a server with a stand-in for the backends. */
#include <stdarg.h>
#include <regex.h>
#include "srv.h"
#include "mcp_gateway.h"
#include "mcp_gateway_routing.h"
#include "mcp_gateway_pool.h"
#include "mcp_client.h"
#include "internal/server_internal.h"

/* ---- patterns and what they match, by hand ---- */
static const char *PAT[] = {"^a.*b$", "b", "^$", "^(a|b)1", "^a[0-9]+$", "1$", "^ab?$"};
static int p0(const char *s) { size_t n = strlen(s); return n >= 2 && s[0] == 'a' && s[n - 1] == 'b'; }
static int p1(const char *s) { return strchr(s, 'b') != NULL; }
static int p2(const char *s) { return !*s; }
static int p3(const char *s) { return (s[0] == 'a' || s[0] == 'b') && s[1] == '1'; }
static int p4(const char *s) { if (s[0] != 'a' || !s[1]) return 0; for (s++; *s; s++) if (*s != '1') return 0; return 1; }
static int p5(const char *s) { size_t n = strlen(s); return n && s[n - 1] == '1'; }
static int p6(const char *s) { return !strcmp(s, "a") || !strcmp(s, "ab"); }
static int (*const PF[])(const char *) = {p0, p1, p2, p3, p4, p5, p6};
static const char *PRE[] = {"a", "ab", "", "b", "a1b", "1"};
#define NPAT 7
#define NPRE 6
typedef struct { int np, pre[2], nr, re[2]; int nt; const char *tool[3]; } rule;
static rule R[3]; static int nb;
static void pick_rule(rule *r, int small) {      /* prefixes and patterns of a backend */
    memset(r, 0, sizeof *r);
    int k = sx_choose(small ? 8 : 1 + NPRE + NPAT + 4);
    if (k == 0) return;
    if (small) { static const int P[] = {0, 1, 2, 4}, Q[] = {0, 3, 6}; if (k <= 4) { r->np = 1; r->pre[0] = P[k - 1]; } else { r->nr = 1; r->re[0] = Q[k - 5]; } return; }
    if (k <= NPRE) { r->np = 1; r->pre[0] = k - 1; return; } k -= NPRE;
    if (k <= NPAT) { r->nr = 1; r->re[0] = k - 1; return; } k -= NPAT;
    if (k == 1) { r->np = 2; r->pre[0] = 4; r->pre[1] = 1; }
    if (k == 2) { r->nr = 2; r->re[0] = 4; r->re[1] = 6; }
    if (k == 3) { r->np = 1; r->pre[0] = 3; r->nr = 1; r->re[0] = 3; }
    if (k == 4) { r->np = 2; r->pre[0] = 3; r->pre[1] = 4; r->nr = 2; r->re[0] = 2; r->re[1] = 0; }
}
static int rule_reads(const rule *r, const char *u) {
    for (int i = 0; i < r->np; i++) if (!strncmp(u, PRE[r->pre[i]], strlen(PRE[r->pre[i]]))) return 1;
    for (int i = 0; i < r->nr; i++) if (PF[r->re[i]](u)) return 1;
    return 0;
}
static int rule_calls(const rule *r, const char *t) { for (int i = 0; i < r->nt; i++) if (!strcmp(r->tool[i], t)) return 1; return 0; }
static int due(const char *method, const char *uri, const char *tool) {
    for (int i = 0; i < nb; i++) if (!strcmp(method, "read_resource") ? uri && rule_reads(&R[i], uri) : !strcmp(method, "call_tool") ? tool && rule_calls(&R[i], tool) : 0) return i;
    return -1;
}
static char *put(char *o, const char *key, const char **v, int n) { o += sprintf(o, "\"%s\":[", key); for (int i = 0; i < n; i++) o += sprintf(o, "%s\"%s\"", i ? "," : "", v[i]); return o + sprintf(o, "]"); }
static char text[4096];
static void describe(void) {
    char *o = text + sprintf(text, "[");
    for (int i = 0; i < nb; i++) {
        const char *a[3], *b[3]; for (int j = 0; j < R[i].np; j++) a[j] = PRE[R[i].pre[j]]; for (int j = 0; j < R[i].nr; j++) b[j] = PAT[R[i].re[j]];
        o += sprintf(o, "%s{\"name\":\"n%d\",\"address\":\"tcp://h:%d\",\"timeout_ms\":%d,\"routing\":{", i ? "," : "", i, i, i * 100);
        if (R[i].np) o = put(o, "resource_prefixes", a, R[i].np), *o++ = ',';
        if (R[i].nr) o = put(o, "resource_regexes", b, R[i].nr), *o++ = ',';
        o = put(o, "tool_names", R[i].tool, R[i].nt); o += sprintf(o, "}}");
    }
    sprintf(o, "]"); sx_note("%s", text);
}
static mcp_backend_info_t *B; static size_t BN;
static const char *path(void) { static char p[256]; snprintf(p, sizeof p, "%s/gw.json", sx_scratch()); return p; }
static mcp_error_code_t load(const char *t) { FILE *f = fopen(path(), "wb"); fwrite(t, 1, strlen(t), f); fclose(f); sx_op(); return load_gateway_config(path(), &B, &BN); }
static void build(void) {      /* the same without a file */
    B = calloc((size_t)nb + 1, sizeof *B); BN = (size_t)nb;
    for (int i = 0; i < nb; i++) {
        char t[16]; sprintf(t, "n%d", i); B[i].name = strdup(t); sprintf(t, "tcp://h:%d", i); B[i].address = strdup(t);
        mcp_backend_routing_t *q = &B[i].routing;
        if (R[i].np) { q->resource_prefixes = calloc(2, sizeof(char *)); for (int j = 0; j < R[i].np; j++) q->resource_prefixes[j] = strdup(PRE[R[i].pre[j]]); q->resource_prefix_count = (size_t)R[i].np; }
        if (R[i].nt) { q->tool_names = calloc(3, sizeof(char *)); for (int j = 0; j < R[i].nt; j++) q->tool_names[j] = strdup(R[i].tool[j]); q->tool_name_count = (size_t)R[i].nt; }
        if (R[i].nr) {
            q->resource_regex_patterns = calloc(2, sizeof(char *)); q->compiled_resource_regexes = calloc(2, sizeof(regex_t)); q->resource_regex_count = (size_t)R[i].nr;
            for (int j = 0; j < R[i].nr; j++) { q->resource_regex_patterns[j] = strdup(PAT[R[i].re[j]]); if (regcomp(&q->compiled_resource_regexes[j], PAT[R[i].re[j]], REG_EXTENDED | REG_NOSUB)) abort(); }
        }
    }
}
static void unload(void) { mcp_free_backend_list(B, BN); B = NULL; BN = 0; }
static int routed(const char *method, const char *params) {       /* which backend the code picks */
    mcp_request_t q; memset(&q, 0, sizeof q); q.id = 1; q.method = (char *)method;
    mcp_json_t *p = params ? mcp_json_parse(params) : NULL; q.params = p;
    const mcp_backend_info_t *b = find_backend_for_request(&q, B, BN); sx_op();
    mcp_json_destroy(p); mcp_arena_reset_current_thread();
    if (!b) return -1;
    SX_CHECK(b >= B && b < B + BN, "not-a-backend", "a backend outside the list");
    return (int)(b - B);
}
static void want(int got, int d, const char *m, const char *p) {
    SX_CHECK(got == d, d < 0 ? "routed" : got < 0 ? "not-routed" : "wrong-backend", "%s %s goes to backend %d instead of %d", m, p ? p : "", got, d);
    sx_class("%s", d < 0 ? "none" : d == 0 ? "first" : "later");
}
static void warm(void) { sv_warm(); mcp_arena_init_current_thread(4096); }
static void words(void) {            /* every address of up to 3 characters */
    for (int n = 0; n <= 3; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 3;
        for (int k = 0; k < tot; k++) { char u[8], p[64]; int x = k; for (int i = 0; i < n; i++) { u[i] = "ab1"[x % 3]; x /= 3; } u[n] = 0; sprintf(p, "{\"uri\":\"%s\"}", u); want(routed("read_resource", p), due("read_resource", u, NULL), "read_resource", p); } }
}
static void resources_run(void) { nb = 1 + sx_choose(3); for (int i = 0; i < nb; i++) pick_rule(&R[i], 0); describe(); build(); words(); unload(); }
static const char *TN[] = {"t", "tt", "T"};
static void pick_tools(rule *r) { int m = sx_choose(8); r->nt = 0; for (int i = 2; i >= 0; i--) if (m & (1 << i)) r->tool[r->nt++] = TN[i]; }
static void tools_run(void) {
    static const char *N[] = {"t", "tt", "T", "", "ttt", "TT", "t ", "a"};
    nb = 1 + sx_choose(3); for (int i = 0; i < nb; i++) { memset(&R[i], 0, sizeof R[i]); pick_tools(&R[i]); if (i == 0 && sx_flip()) { R[0].np = 1; R[0].pre[0] = 2; } }
    describe(); build();
    for (int i = 0; i < 8; i++) { char p[64]; sprintf(p, "{\"name\":\"%s\",\"uri\":\"a\"}", N[i]); want(routed("call_tool", p), due("call_tool", NULL, N[i]), "call_tool", p); }
    unload();
}
static void shapes_run(void) {
    static const char *M[] = {"read_resource", "call_tool", "ping", "list_tools", "read_resources", "read_resourc", "Read_resource", "call_tools", "", "call_too"};
    static const char *P[] = {NULL, "{}", "[]", "[{\"uri\":\"a\",\"name\":\"t\"}]", "{\"uri\":5,\"name\":5}", "{\"uri\":null,\"name\":null}", "{\"uri\":[\"a\"],\"name\":[\"t\"]}", "{\"URI\":\"a\",\"Name\":\"t\"}", "{\"uri\":{\"uri\":\"a\"},\"name\":{}}",
        "{\"uri\":\"a\",\"name\":\"t\"}", "{\"name\":\"t\"}", "{\"uri\":\"a\"}", "\"a\"", "7", "true", "{\"arguments\":{\"uri\":\"a\",\"name\":\"t\"}}", "{\"uri\":\"\",\"name\":\"\"}"};
    nb = sx_choose(3); for (int i = 0; i < nb; i++) { memset(&R[i], 0, sizeof R[i]); R[i].np = 1; R[i].pre[0] = i ? 0 : sx_flip() ? 0 : 1; R[i].nt = 1; R[i].tool[0] = i ? "t" : "tt"; }
    describe(); build();
    int m = sx_choose(10), p = sx_choose(17); const char *uri = p == 9 || p == 11 ? "a" : p == 16 ? "" : NULL, *tool = p == 9 || p == 10 ? "t" : p == 16 ? "" : NULL;
    sx_note("%s %s", M[m], P[p] ? P[p] : "");
    want(routed(M[m], P[p]), due(M[m], uri, tool), M[m], P[p]);
    unload();
}
/* configurations read from a file */
static void config_run(void) {
    nb = 1 + sx_choose(2 + sx_thorough()); for (int i = 0; i < nb; i++) { pick_rule(&R[i], i > 0); pick_tools(&R[i]); } describe();
    long l0 = sx_live();
    SX_CHECK(load(text) == MCP_ERROR_NONE && BN == (size_t)nb, "load", "%s is not accepted", text);
    mcp_arena_reset_current_thread();
    for (int i = 0; i < nb; i++) { char n[16], a[16]; sprintf(n, "n%d", i); sprintf(a, "tcp://h:%d", i); SX_CHECK(!strcmp(B[i].name, n) && !strcmp(B[i].address, a) && B[i].timeout_ms == (uint32_t)i * 100, "load", "backend %d is read as %s %s %u", i, B[i].name, B[i].address, B[i].timeout_ms); }
    static const char *A[] = {"", "a", "ab", "b", "a1", "a1b", "b1", "1"};
    for (int i = 0; i < 8; i++) { char p[64]; sprintf(p, "{\"uri\":\"%s\"}", A[i]); want(routed("read_resource", p), due("read_resource", A[i], NULL), "read_resource", p); }
    for (int i = 0; i < 3; i++) { char p[64]; sprintf(p, "{\"name\":\"%s\"}", TN[i]); want(routed("call_tool", p), due("call_tool", NULL, TN[i]), "call_tool", p); }
    unload(); mcp_thread_cache_flush();
    SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left of a configuration", sx_live() - l0);
}
static void badconfig_run(void) {
    static const char *E[] = {"{\"name\":\"n\",\"address\":\"a\",\"routing\":{}}", "{\"name\":\"n\",\"address\":\"a\",\"routing\":{\"resource_prefixes\":[\"p\"],\"tool_names\":[\"t\"],\"resource_regexes\":[\"r\"]}}",
        "{\"address\":\"a\",\"routing\":{}}", "{\"name\":\"n\",\"routing\":{}}", "{\"name\":\"n\",\"address\":\"a\"}", "{\"name\":5,\"address\":\"a\",\"routing\":{}}", "{\"name\":\"n\",\"address\":\"a\",\"routing\":[]}",
        "{\"name\":\"n\",\"address\":\"a\",\"routing\":{\"resource_prefixes\":[\"p\",5]}}", "{\"name\":\"n\",\"address\":\"a\",\"routing\":{\"resource_prefixes\":[\"p\"],\"tool_names\":[\"t\",null]}}",
        "{\"name\":\"n\",\"address\":\"a\",\"routing\":{\"resource_prefixes\":[\"p\"],\"resource_regexes\":[\"r\",\"(\"]}}", "{\"name\":\"n\",\"address\":\"a\",\"routing\":{\"tool_names\":[\"p\"],\"resource_regexes\":[\"r\",7]}}", "7", "[]", "null"};
    char t[2048]; int n = sx_choose(4), bad = 0, k = sprintf(t, "[");
    for (int i = 0; i < n; i++) { int e = sx_choose(14); bad |= e >= 2; k += sprintf(t + k, "%s%s", i ? "," : "", E[e]); }
    int form = sx_choose(4); sprintf(t + k, "]");
    if (form == 1) t[k] = 0, bad = 1;               /* cut */
    if (form == 2) { char u[2048]; sprintf(u, "{\"x\":%s}", t); strcpy(t, u); bad = 1; }
    if (form == 3) { char u[2048]; sprintf(u, " \n%s \n", t); strcpy(t, u); }
    sx_note("%s", t);
    long l0 = sx_live(); B = (void *)1; BN = 9;
    mcp_error_code_t e = load(t); mcp_arena_reset_current_thread();
    if (bad) SX_CHECK(e != MCP_ERROR_NONE && !B && !BN, "malformed-accepted", "%s: %zu backends", t, BN);
    else { SX_CHECK(e == MCP_ERROR_NONE && BN == (size_t)n, "load", "%s: %zu backends", t, BN); unload(); }
    mcp_thread_cache_flush();
    SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left of %s", sx_live() - l0, t);
}
/* ---- forwarding ---- */
static struct { int backend; char method[64]; char params[256]; unsigned long long id; } sent[16]; static int nsent, out_conn, outcome;
static char dummy[3];
void *__wrap_gateway_pool_get_connection(gateway_pool_manager_t *m, const mcp_backend_info_t *b) { (void)m; if (outcome == 4) return NULL; out_conn++; return &dummy[b->name[1] - '0']; }
void __wrap_gateway_pool_release_connection(gateway_pool_manager_t *m, const mcp_backend_info_t *b, void *c) { (void)m; SX_CHECK(c == &dummy[b->name[1] - '0'] && out_conn > 0, "release", "a connection is released that was not taken"); out_conn--; }
int __wrap_mcp_client_send_raw_request(mcp_client_t *c, const char *method, const char *params, uint64_t id, char **res, mcp_error_code_t *ec, char **em) {
    SX_CHECK(out_conn == 1 && nsent < 16, "forward", "a request is sent without a connection");
    sent[nsent].backend = (int)((char *)c - dummy); snprintf(sent[nsent].method, 64, "%s", method); snprintf(sent[nsent].params, 256, "%s", params); sent[nsent++].id = id;
    *res = NULL; *ec = MCP_ERROR_NONE; *em = NULL;
    if (outcome == 0) { *res = strdup("{\"from\":\"backend\",\"q\":\"\\\"\"}"); return 0; }
    if (outcome == 1) { *ec = -32042; *em = strdup("no \"luck\""); return 0; }
    if (outcome == 2) { *res = strdup("[1,null]"); return 0; }
    if (outcome == 5) { *ec = -32043; return 0; }
    return -1;
}
static void judge(rj *r, const char *m, double id, rj *params, const char *t, const char *a, int *s, int *loc) {
    rj *u = params && params->t == 'o' ? rj_get(params, "uri") : NULL, *n = params && params->t == 'o' ? rj_get(params, "name") : NULL;
    int d = due(m, u && u->t == 's' ? u->s : NULL, n && n->t == 's' ? n->s : NULL), code = 0; rj *w = NULL;
    SX_CHECK(r && r->t == 'o', "not-an-answer", "answer to %s: %s", t, a);
    rj *re = rj_get(r, "result"), *er = rj_get(r, "error"), *i = rj_get(r, "id"), *ve = rj_get(r, "jsonrpc"), *c = er ? rj_get(er, "code") : NULL;
    SX_CHECK(ve && ve->t == 's' && i && i->t == '#' && i->n == id && (re != NULL) != (er != NULL), "not-an-answer", "answer to %s: %s", t, a);
    if (d >= 0) {
        if (outcome != 4) {
            SX_CHECK(*s < nsent && sent[*s].backend == d, "wrong-backend", "%s is forwarded to %d instead of %d", t, *s < nsent ? sent[*s].backend : -1, d);
            rj *p = rj_parse_keep(sent[*s].params);
            SX_CHECK(!strcmp(sent[*s].method, m) && sent[*s].id == (unsigned long long)id && p && rj_same(p, params), "forwarded-differently", "%s is forwarded as %s %s %llu", t, sent[*s].method, sent[*s].params, sent[*s].id);
            (*s)++;
        }
        if (outcome == 0) w = sv_json("{\"from\":\"backend\",\"q\":\"\\\"\"}");
        else if (outcome == 2) w = sv_json("[1,null]");
        else code = outcome == 1 ? -32042 : outcome == 5 ? -32043 : outcome == 3 ? MCP_ERROR_TRANSPORT_ERROR : MCP_ERROR_INTERNAL_ERROR;
        sx_class("forwarded");
    } else {
        sx_class("local");
        if (!strcmp(m, "ping")) w = sv_json("{\"message\":\"pong\"}");
        else if (!strcmp(m, "call_tool")) { if (!n || n->t != 's') code = MCP_ERROR_INVALID_PARAMS; else { (*loc)++; w = sv_tool_result(n->s, NULL, &code); } }
        else if (!strcmp(m, "read_resource")) { if (!u || u->t != 's') code = MCP_ERROR_INVALID_PARAMS; else { (*loc)++; w = sv_resource_result('r', u->s, 0, &code); } }
        else code = MCP_ERROR_METHOD_NOT_FOUND;
    }
    if (w) SX_CHECK(re && rj_same(re, w), "wrong-result", "answer to %s: %s", t, a); else SX_CHECK(er && c && c->t == '#' && c->n == code, "wrong-code", "error %d expected for %s: %s", code, t, a);
}
static void forward_run(void) {
    static const char *Q[] = {"\"method\":\"read_resource\",\"params\":{\"uri\":\"ab\"}", "\"method\":\"call_tool\",\"params\":{\"name\":\"two\",\"arguments\":{\"uri\":\"a\"}}", "\"method\":\"ping\"", "\"method\":\"read_resource\",\"params\":{\"uri\":\"b1\"}",
        "\"method\":\"call_tool\",\"params\":{\"name\":\"echo\"}", "\"method\":\"read_resource\",\"params\":{\"uri\":7}", "\"method\":\"call_tool\"", "\"method\":\"nope\",\"params\":{\"uri\":\"ab\"}", "\"method\":\"read_resource\",\"params\":[\"ab\"]", "\"method\":\"call_tool\",\"params\":{\"uri\":\"ab\"}", "\"method\":\"read_resource\",\"params\":{\"uri\":\"\"}", "\"method\":\"call_tool\",\"params\":{\"name\":\"zzz\"}"};
    static const char *TL[] = {"echo", "two"};
    nb = 1 + sx_choose(2); for (int i = 0; i < nb; i++) { pick_rule(&R[i], 1); int k = sx_choose(4); if (k & 1) R[i].tool[R[i].nt++] = TL[0]; if (k & 2) R[i].tool[R[i].nt++] = TL[1]; }
    describe(); outcome = sx_choose(6);
    sv_new(NULL, 1, 1, 1, 1);
    SX_CHECK(load(text) == MCP_ERROR_NONE && BN == (size_t)nb, "load", "%s is not accepted", text);
    SV->is_gateway_mode = true; SV->backends = B; SV->backend_count = BN; sv_run();
    char t[1024]; int b = sx_choose(2 + sx_thorough()), q0 = sx_choose(12), q1 = b ? sx_choose(b == 1 ? 4 : 12) : 0, n;
    if (b) n = sprintf(t, "[{\"jsonrpc\":\"2.0\",\"id\":0,%s},{\"jsonrpc\":\"2.0\",\"id\":8,%s}]", Q[q0], Q[q1]); else n = sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":7,%s}", Q[q0]);
    sx_note("%s, outcome %d", t, outcome);
    nsent = out_conn = 0; int s = 0, loc = 0;
    rj *v = rj_parse_keep(t); char *a = sv_send_n(t, (size_t)n, NULL); rj *r = a ? rj_parse_keep(a) : NULL;
    SX_CHECK(r, "no-answer", "no answer to %s: %s", t, a ? a : "");
    for (int i = 0; i <= (b > 0); i++) {
        rj *e = b ? v->it[i] : v; if (b) SX_CHECK(r->t == 'a' && r->cnt == 2, "no-answer", "answer to %s: %s", t, a);
        judge(b ? r->it[i] : r, rj_get(e, "method")->s, rj_get(e, "id")->n, rj_get(e, "params"), t, a, &s, &loc);
    }
    SX_CHECK(s == nsent, "forwarded-again", "%d requests forwarded for %s", nsent, t); SX_CHECK(out_conn == 0, "connection-kept", "%d connections not given back", out_conn);
    SX_CHECK(sv_ncall <= loc, "handled-locally", "%s: %d local handler calls", t, sv_ncall);
    free(a); sv_end();
}
static const sx_scenario S[] = {
    {"resources", warm, resources_run, 0, "all configurations of 1-3 backends over 6 prefixes, 7 patterns and combinations, against all 40 addresses of up to 3 characters"},
    {"tools", warm, tools_run, 0, "all configurations of 1-3 backends listing any of 3 tools, against 8 names"},
    {"shapes", warm, shapes_run, 0, "10 methods x 17 shapes of parameters"},
    {"config", warm, config_run, 0, "all configurations of up to 2 (thorough 3) backends read from a file"},
    {"badconfig", warm, badconfig_run, 0, "all lists of up to 3 backends, well formed or malformed in 12 ways"},
    {"forward", warm, forward_run, 0, "all configurations of up to 2 backends, single requests and batches through a server, 6 outcomes of the backend"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
