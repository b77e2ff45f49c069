/* H05: which origins may use the HTTP endpoint. */
#include "seqx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fakelws.h"

/* the entries of a configured list: the parts between commas without the blanks around them */
static int ref_list(const char *s, char e[][64]) {
    int n = 0;
    for (;;) {
        const char *c = strchr(s, ','); size_t l = c ? (size_t)(c - s) : strlen(s);
        const char *a = s, *b = s + l;
        while (a < b && (*a == ' ' || *a == '\t')) a++;
        while (b > a && (b[-1] == ' ' || b[-1] == '\t')) b--;
        if (b > a) { memcpy(e[n], a, (size_t)(b - a)); e[n][b - a] = 0; n++; }
        if (!c) return n;
        s = c + 1;
    }
}
static int ref_ok(char e[][64], int n, const char *o) {
    if (!n) return 1;
    for (int i = 0; i < n; i++) {
        size_t l = strlen(e[i]);
        if (!strcmp(e[i], o)) return 1;
        if (e[i][l - 1] == '*' && !strncmp(o, e[i], l - 1)) return 1;
    }
    return 0;
}
static void check_list(const char *cfg, char e[][64], int n, char ***got, size_t *ng) {
    bool r = parse_allowed_origins(cfg, got, ng); sx_op();
    SX_CHECK(r, "list-refused", "the list \"%s\" is refused", cfg);
    SX_CHECK(*ng == (size_t)n, "list-length", "the list \"%s\" gives %zu entries instead of %d", cfg, *ng, n);
    for (int i = 0; i < n; i++) SX_CHECK(!strcmp((*got)[i], e[i]), "list-entry", "entry %d of \"%s\" is \"%s\"", i, cfg, (*got)[i]);
}
static sthttp_transport_data_t D;
static void judge(const char *cfg, char e[][64], int n, const char *o) {
    int want = ref_ok(e, n, o), is = validate_origin(&D, o); sx_op();
    SX_CHECK(want == is, is ? "origin-admitted" : "origin-refused", "origin \"%s\" with allowed origins \"%s\"", o, cfg);
}
static const char *OA[400]; static int nOA;
static void mk_origins(void) {
    static const char AL[] = "ab*"; static char buf[400][6];
    for (int len = 0; len <= 4; len++) {
        int tot = 1; for (int i = 0; i < len; i++) tot *= 3;
        for (int v = 0; v < tot; v++) { int x = v; char *s = buf[nOA]; for (int i = 0; i < len; i++, x /= 3) s[i] = AL[x % 3]; s[len] = 0; OA[nOA++] = s; }
    }
}
static void run_lists(void) {
    static const char AL[] = "ab*, \t";
    char cfg[16]; int n = 0, max = sx_thorough() ? 9 : 8;
    while (n < max) { int c = sx_choose(7); if (c == 6) break; cfg[n++] = AL[c]; }
    cfg[n] = 0;
    char e[10][64]; int ne = ref_list(cfg, e);
    sx_note("list \"%s\"", cfg); sx_class("entries %d", ne); sx_state(cfg, (size_t)n);
    memset(&D, 0, sizeof D);
    check_list(cfg, e, ne, &D.allowed_origins, &D.allowed_origins_count);
    D.validate_origin = true;
    for (int i = 0; i < nOA; i++) judge(cfg, e, ne, OA[i]);
    free_allowed_origins(D.allowed_origins, D.allowed_origins_count);
    SX_CHECK(sx_live() == 0, "leak", "%ld blocks left", sx_live());
}
static const char *ENT[] = {"http://localhost:3000", "http://localhost:*", "https://example.com", "https://example.co", "https://*", "*", "http://localhost", "HTTPS://EXAMPLE.COM", "https://example.com*", "null"};
#define NE ((int)(sizeof ENT / sizeof *ENT))
static void run_names(void) {
    char cfg[200] = ""; int k = sx_choose(4);
    for (int i = 0; i < k; i++) { if (i) strcat(cfg, sx_flip() ? ", " : ","); strcat(cfg, ENT[sx_choose(NE)]); }
    char e[10][64]; int ne = ref_list(cfg, e);
    sx_note("list \"%s\"", cfg); sx_class("entries %d", ne); sx_state(cfg, strlen(cfg));
    memset(&D, 0, sizeof D);
    check_list(cfg, e, ne, &D.allowed_origins, &D.allowed_origins_count);
    D.validate_origin = true;
    static const char ALT[] = "ax:/.*0 Z\x80";
    for (int i = 0; i < NE; i++) {
        size_t l = strlen(ENT[i]); char o[80];
        judge(cfg, e, ne, ENT[i]);
        for (size_t j = 0; j < l; j++) { memcpy(o, ENT[i], l + 1); o[j] = 0; judge(cfg, e, ne, o); judge(cfg, e, ne, ENT[i] + j); }
        for (size_t j = 0; j <= l; j++) for (const char *a = ALT; *a; a++) {
            memcpy(o, ENT[i], l + 1); o[j] = *a; if (j == l) o[j + 1] = 0; judge(cfg, e, ne, o);
            memcpy(o, ENT[i], j); o[j] = *a; strcpy(o + j + 1, ENT[i] + j); judge(cfg, e, ne, o);
        }
        snprintf(o, sizeof o, "%s.evil.com", ENT[i]); judge(cfg, e, ne, o);
        snprintf(o, sizeof o, "evil%s", ENT[i]); judge(cfg, e, ne, o);
    }
    free_allowed_origins(D.allowed_origins, D.allowed_origins_count);
}

/* the endpoint itself */
static int served;
static char *on_msg(void *u, const void *d, size_t n, int *err) { (void)u; (void)d; (void)n; *err = 0; served++; return strdup("{\"r\":1}"); }
static char LONG[3][600];
static void run_endpoint(void) {
    static const char *LISTS[] = {NULL, "http://good.example", "http://good.example,http://local:*", ""};
    static const char *METH[] = {"POST", "GET", "DELETE"};
    int li = sx_choose(4), val = sx_flip(), m = sx_choose(3), legacy = m < 2 ? sx_choose(2) : 0;
    const char *OR[] = {NULL, "http://good.example", "http://local:80", "http://bad.example", "http://good.example.bad", "null", LONG[0], LONG[1], LONG[2], "http://good.exampl", "HTTP://GOOD.EXAMPLE"};
    int oi = sx_choose(11);
    mcp_sthttp_config_t c; memset(&c, 0, sizeof c);
    c.host = "127.0.0.1"; c.port = 1; c.enable_sessions = true; c.validate_origin = val; c.allowed_origins = LISTS[li]; c.max_stored_events = 4; c.max_sse_clients = 4;
    c.enable_legacy_endpoints = true;
    mcp_transport_t *t = mcp_transport_sthttp_create(&c);
    SX_CHECK(t, "create", "no transport");
    fk_data = t->transport_data;
    fk_data->message_callback = on_msg; served = 0;
    char sid[MCP_SESSION_ID_MAX_LENGTH] = "";
    if (m == 2) SX_CHECK(mcp_session_manager_create_session(fk_data->session_manager, sid, 0), "create", "no session");
    static fakewsi f; fk_init(&f);
    f.method = METH[m]; f.origin = OR[oi]; f.accept = m == 1 ? "text/event-stream" : NULL; f.session = m == 2 ? sid : NULL;
    if (legacy && m == 1) f.uri = "/events";
    if (legacy && m == 0) f.uri = "/mcp";
    sx_note("list %s, %s, %s %s from %.40s", LISTS[li] ? LISTS[li] : "(none)", val ? "checked" : "not checked", f.method, f.uri, OR[oi] ? OR[oi] : "(none)");
    fk_request(&f, "{\"m\":1}", NULL, 0);
    char e[10][64]; int ne = LISTS[li] ? ref_list(LISTS[li], e) : 0;
    int want = !val || !OR[oi] || ref_ok(e, ne, OR[oi]);
    int did = m == 0 ? served : m == 1 ? dynamic_sse_clients_count(fk_data->sse_clients) > 0 : mcp_session_manager_get_session(fk_data->session_manager, sid) == NULL;
    if (OR[oi] && strlen(OR[oi]) > 255 && want && val) return;    /* may be refused for its length alone */
    SX_CHECK(!!did == !!want, did ? "endpoint-served" : "endpoint-refused", "%s %s with origin \"%.40s\" (%zu characters), allowed \"%s\": %s", f.method, f.uri, OR[oi] ? OR[oi] : "(none)", OR[oi] ? strlen(OR[oi]) : 0, LISTS[li] ? LISTS[li] : "(none)", did ? "served" : "refused");
    if (!want) SX_CHECK(f.status >= 400, "endpoint-status", "a refused request is answered with status %d", f.status);
    sx_class("%s %s", f.method, want ? "served" : "refused");
    fk_close(&f);
    t->server.destroy(t);
}
static void setup(void) {
    mk_origins();
    int L[3] = {255, 256, 500};
    for (int i = 0; i < 3; i++) { memset(LONG[i], 'a', (size_t)L[i]); memcpy(LONG[i], "http://", 7); LONG[i][L[i]] = 0; }
}
static const sx_scenario S[] = {
    {"lists", setup, run_lists, 0, "every configured list of up to 8 (9) characters over a, b, *, comma, blank, tab, with every origin of up to 4 characters over a, b, *"},
    {"names", setup, run_names, 0, "every list of up to 3 real entries, with every prefix, suffix, single-character change, insertion and extension of each"},
    {"endpoint", setup, run_endpoint, 0, "the endpoint with every list, method and origin, up to origins longer than any buffer"},
};
int main(int argc, char **argv) { return sx_main(argc, argv, S, (int)(sizeof S / sizeof *S)); }
