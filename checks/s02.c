/* S02: with an API key configured, every message and batch up to a bound: nothing but a ping is served without exactly that key. */
#include <stdarg.h>
#include "srv.h"

static const char *KEY;
/* does this element carry the key */
static int holds(rj *v) {
    rj *p = v && v->t == 'o' ? rj_get(v, "params") : NULL, *k = p && p->t == 'o' ? rj_get(p, "apiKey") : NULL;
    return k && k->t == 's' && !strcmp(k->s, KEY);
}
static int is_request(rj *v) { rj *m = v && v->t == 'o' ? rj_get(v, "method") : NULL; return m && m->t == 's' && sv_okid(rj_get(v, "id")); }
static int runs(rj *v) { rj *m = v && v->t == 'o' ? rj_get(v, "method") : NULL; return m && m->t == 's' && (!strcmp(m->s, "call_tool") || !strcmp(m->s, "read_resource")); }
static int is_ping(rj *v) { return is_request(v) && !strcmp(rj_get(v, "method")->s, "ping"); }
/* the answer r to element v: ok: it may be served, must: it has to be */
static void judge(rj *r, rj *v, int ok, int must, const char *t, const char *all) {
    rj *re = rj_get(r, "result"), *er = rj_get(r, "error"), *id = rj_get(r, "id");
    SX_CHECK((re != NULL) != (er != NULL), "result-or-error", "answer to %s: %s", t, all);
    if (is_request(v)) SX_CHECK(id && rj_same(id, rj_get(v, "id")), "wrong-id", "answer to %s: %s", t, all);
    if (is_ping(v)) {
        if (must) SX_CHECK(re && rj_same(re, sv_json("{\"message\":\"pong\"}")), "ping", "answer to %s: %s", t, all);
        else if (re) SX_CHECK(rj_same(re, sv_json("{\"message\":\"pong\"}")), "ping", "answer to %s: %s", t, all);
        return;
    }
    if (!ok) {
        SX_CHECK(er, "served-without-key", "key \"%s\": answer to %s: %s", KEY, t, all);
        rj *c = rj_get(er, "code");
        if (is_request(v)) SX_CHECK(c && c->t == '#' && c->n == MCP_ERROR_INVALID_REQUEST, "not-an-authentication-error", "key \"%s\": answer to %s: %s", KEY, t, all);
        sx_class("refused");
    } else if (must && is_request(v)) {
        rj *c = er ? rj_get(er, "code") : NULL;
        SX_CHECK(!er || (c && c->t == '#' && c->n != MCP_ERROR_INVALID_REQUEST), "refused-with-key", "key \"%s\": answer to %s: %s", KEY, t, all);
        sx_class("served");
    }
}
static void exchange(const char *t, size_t n) {
    sv_ncall = 0;
    rj *v = rj_parse_keep(t);
    char *a = sv_send_n(t, n, NULL);
    rj *r = a ? rj_parse_keep(a) : NULL;
    SX_CHECK(!a || r, "answer-malformed", "answer to %s: %s", t, a);
    int may = 0;            /* elements that may run a handler */
    if (!v || v->t != 'a') {
        int ok = v && holds(v);
        if (is_request(v)) SX_CHECK(r && r->t == 'o', "no-answer", "no answer to %s", t);
        if (r) judge(r, v, ok, ok, t, a);
        may = ok && runs(v);
    } else {
        int first = v->cnt && holds(v->it[0]), k = 0, req = 0;
        for (int i = 0; i < v->cnt; i++) req += is_request(v->it[i]);
        for (int i = 0; i < v->cnt; i++) {
            int ok = first || holds(v->it[i]);
            may += ok && runs(v->it[i]);
            if (!is_request(v->it[i])) continue;
            /* a batch refused as a whole gets one answer */
            if (r && r->t == 'o' && !first) { SX_CHECK(rj_get(r, "error"), "served-without-key", "key \"%s\": answer to %s: %s", KEY, t, a); continue; }
            SX_CHECK(r && r->t == 'a', "no-answer", "answer to %s: %s", t, a ? a : "none");
            while (k < r->cnt && !(rj_get(r->it[k], "id") && rj_same(rj_get(r->it[k], "id"), rj_get(v->it[i], "id")))) {
                SX_CHECK(rj_get(r->it[k], "error"), "wrong-id", "answer to %s: %s", t, a); k++;
            }
            SX_CHECK(k < r->cnt, "no-answer", "element %d of %s not answered: %s", i, t, a);
            judge(r->it[k++], v->it[i], ok, first && is_request(v->it[0]) && holds(v->it[i]), t, a);
        }
        if (r && r->t == 'a') for (; k < r->cnt; k++) SX_CHECK(rj_get(r->it[k], "error"), "uncalled-for", "answer to %s: %s", t, a);
    }
    SX_CHECK(sv_ncall <= may, "handler-without-key", "key \"%s\": %d handlers ran: %s", KEY, sv_ncall, t);
    free(a);
}
static void config(const char *key) {
    KEY = key; mcp_server_config_t c; memset(&c, 0, sizeof c); c.api_key = key;
    sv_new(&c, 1, 1, 1, 1);
    mcp_tool_t *t = mcp_tool_create("echo", "d"); mcp_server_add_tool(SV, t); mcp_tool_free(t);
    mcp_resource_t *s = mcp_resource_create("r:a", "n", NULL, NULL); mcp_server_add_resource(SV, s); mcp_resource_free(s);
    mcp_resource_template_t *e = mcp_resource_template_create("r:{x}", "n", NULL, NULL); mcp_server_add_resource_template(SV, e); mcp_resource_template_free(e);
    sv_run();
}
static const char *M[] = {"ping", "call_tool", "read_resource", "list_tools", "list_resources", "list_resource_templates", "get_performance_metrics", "reset_performance_metrics", "nope", "pingx", "Ping", ""};
#define NM 12
/* the ways to give, or not to give, the key "ab" */
static const char *K[] = {NULL, "\"apiKey\":\"ab\"", "\"apiKey\":\"a\"", "\"apiKey\":\"abc\"", "\"apiKey\":\"\"", "\"apiKey\":null", "\"apiKey\":\"AB\"", "\"apiKey\":[\"ab\"]", "\"apikey\":\"ab\"", "\"apiKey\":\"a\\u0062\"", "\"apiKey\":5", "\"x\":{\"apiKey\":\"ab\"}", "\"apiKey\":\" ab\"", "\"apiKey\":\"ac\"", "\"apiKey\":true", "\"apiKey\":{}"};
#define NK 16
static int element(char *t, int m, int k, int id, int outer) {   /* outer: the key beside the parameters instead of in them */
    int n = sprintf(t, "{\"jsonrpc\":\"2.0\"");
    if (id >= 0) n += sprintf(t + n, ",\"id\":%d", id);
    n += sprintf(t + n, ",\"method\":\"%s\"", M[m]);
    if (outer && K[k]) n += sprintf(t + n, ",%s", K[k]);
    if (m == 1 || m == 2 || (K[k] && !outer)) {
        n += sprintf(t + n, ",\"params\":{%s", m == 1 ? "\"name\":\"echo\"" : m == 2 ? "\"uri\":\"r:a\"" : "");
        if (K[k] && !outer) n += sprintf(t + n, "%s%s", m == 1 || m == 2 ? "," : "", K[k]);
        n += sprintf(t + n, "}");
    }
    return n + sprintf(t + n, "}");
}
static void single_run(void) {
    char t[512]; int m = sx_choose(NM), k = sx_choose(NK), id = sx_choose(3) - 1, outer = sx_choose(2), wrap = sx_choose(3), n = 0;
    if (wrap) n += sprintf(t, wrap == 2 ? " [" : "[");
    n += element(t + n, m, k, id, outer);
    if (wrap) n += sprintf(t + n, "]");
    sx_note("%s", t);
    config("ab"); exchange(t, (size_t)n); sv_end();
}
/* every key against every credential up to a length */
static void keys_run(void) {
    char key[8], cr[8], t[256]; int L = sx_thorough() ? 5 : 4, i, n;
    n = 1 + sx_choose(L); for (i = 0; i < n; i++) key[i] = "aAb"[sx_choose(3)]; key[n] = 0;
    n = sx_choose(L + 2); for (i = 0; i < n; i++) cr[i] = "aAb"[sx_choose(3)]; cr[n] = 0;
    sx_note("key %s, given %s", key, cr);
    config(key);
    n = sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"call_tool\",\"params\":{\"name\":\"echo\",\"apiKey\":\"%s\"}}", cr);
    exchange(t, (size_t)n); sv_end();
}
/* long keys: the same, one shorter, one longer, one byte different, up to the longest accepted and beyond */
static void longkeys_run(void) {
    static const int L[] = {15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024};
    static char key[2048], cr[2048], t[4096]; int n = L[sx_choose(17)], how = sx_choose(8), m = n;
    for (int i = 0; i < n; i++) key[i] = (char)('a' + i % 26);
    key[n] = 0; strcpy(cr, key);
    if (how == 1) cr[m = n - 1] = 0;
    if (how == 2) { strcat(cr, "a"); m++; }
    if (how == 3) cr[n - 1] = '-';
    if (how == 4) cr[0] = '-';
    if (how == 5) cr[n / 2] = '-';
    if (how == 6) { m = n + 256; for (int i = n; i < m; i++) cr[i] = 'x'; cr[m] = 0; }
    if (how == 7) cr[m = n / 2] = 0;
    sx_note("key of %d, given %d, way %d", n, m, how);
    config(key);
    n = sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"call_tool\",\"params\":{\"name\":\"echo\",\"apiKey\":\"%s\"}}", cr);
    exchange(t, (size_t)n); sv_end();
}
static int pick(char *t, int i, int alpha) {      /* an element of a batch */
    static const struct { int m, k, id; } E[] = {{0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}, {1, 2, 1}, {2, 0, 1}, {3, 0, 1}, {1, 0, 0}, {-1, 0, 0}, {2, 1, 1}, {1, 1, 0}, {-2, 0, 0}, {3, 1, 1}, {0, 4, 1}, {6, 0, 1}, {0, 0, 0}, {-3, 0, 0}, {4, 3, 1}, {5, 0, 1}, {7, 0, 1}, {8, 0, 1}};
    int e = sx_choose(alpha > 21 ? 21 : alpha);
    if (E[e].m == -1) return sprintf(t, "7");
    if (E[e].m == -2) return sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"result\":{\"apiKey\":\"ab\"}}", 10 + i);
    if (E[e].m == -3) return sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"params\":{\"apiKey\":\"ab\"}}", 10 + i);
    return element(t, E[e].m, E[e].k, E[e].id ? 10 + i : -1, 0);
}
static void batch_run(void) {
    int thor = sx_thorough(), len = 1 + sx_choose(5), alpha = len <= 3 ? 21 : len == 4 ? 15 + thor * 3 : 8 + thor * 2, n = 1; char t[1024] = "[";
    for (int i = 0; i < len; i++) { if (i) t[n++] = ','; n += pick(t + n, i, alpha); }
    n += sprintf(t + n, "]");
    sx_note("%s", t);
    config("ab"); exchange(t, (size_t)n); sv_end();
}
/* authenticating one message does not authenticate the next; what was cached for one caller is not given to another */
static void history_run(void) {
    int len = 3, thor = sx_thorough();
    config("ab");
    for (int i = 0; i < len; i++) {
        char t[1024]; int n = 0, b = sx_choose(3);
        if (b) t[n++] = '[';
        n += pick(t + n, i, thor ? 15 : i < 2 ? 10 : 7);
        if (b == 2) { t[n++] = ','; n += pick(t + n, i + 40, thor ? 7 : 4); }
        if (b) t[n++] = ']';
        t[n] = 0;
        sx_note("%s", t);
        exchange(t, (size_t)n);
        if (i == 0 && sx_flip()) sx_ms += 1000;
    }
    sv_end();
}
static const sx_scenario S[] = {
    {"single", sv_warm, single_run, 0, "12 methods x 16 ways to give or not to give the key x 3 identifiers, in or beside the parameters, alone or as a batch"},
    {"keys", sv_warm, keys_run, 0, "all keys of up to 4 (thorough 5) characters against all credentials one longer"},
    {"longkeys", sv_warm, longkeys_run, 0, "keys of 17 lengths up to 1024 against 8 variations"},
    {"batch", sv_warm, batch_run, 0, "all batches of up to 5 elements over 21 kinds of elements"},
    {"history", sv_warm, history_run, 0, "all sequences of 3 messages to one server"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
