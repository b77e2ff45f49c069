/* S03: all permission lists up to a bound against all names, around the expiry; directly and through the server. */
#include <stdarg.h>
#include "srv.h"
#include "mcp_auth.h"

static mcp_auth_context_t C;
static char *lst[2][4]; static char pat[2][4][8];
int __real_mcp_auth_verify(mcp_server_t *s, mcp_auth_type_t t, const char *c, mcp_auth_context_t **o);
static char **copy(char **l, size_t n) { if (!l) return NULL; char **r = malloc((n + 1) * sizeof *r); for (size_t i = 0; i < n; i++) r[i] = l[i] ? strdup(l[i]) : NULL; return r; }
static int use_c;
int __wrap_mcp_auth_verify(mcp_server_t *s, mcp_auth_type_t t, const char *c, mcp_auth_context_t **o) {   /* callers with permissions of their own */
    if (!use_c) return __real_mcp_auth_verify(s, t, c, o);
    mcp_auth_context_t *x = malloc(sizeof *x); *x = C;
    x->identifier = strdup("caller"); x->allowed_resources = copy(C.allowed_resources, C.allowed_resources_count); x->allowed_tools = copy(C.allowed_tools, C.allowed_tools_count);
    *o = x; return 0;
}
static int matches(const char *p, const char *t) {
    size_t n = strlen(p);
    if (n && p[n - 1] == '*') return strlen(t) >= n - 1 && !memcmp(p, t, n - 1);
    return !strcmp(p, t);
}
static int word(char *o, int max, const char *alpha) {   /* a word of up to max letters */
    int n = 0, a = (int)strlen(alpha);
    while (n < max) { int c = sx_choose(a + 1); if (c == 0) break; o[n++] = alpha[c - 1]; }
    o[n] = 0; return n;
}
static int reach(char **l, size_t n, const char *t) { if (l) for (size_t i = 0; i < n; i++) if (l[i] && matches(l[i], t)) return 1; return 0; }
static int now_s(void) { return (int)((SX_EPOCH_MS + sx_ms) / 1000); }
static void ask(const char *t) {
    sx_op();
    int due_r = reach(C.allowed_resources, C.allowed_resources_count, t), due_t = reach(C.allowed_tools, C.allowed_tools_count, t), exp = C.expiry && now_s() > C.expiry;
    int r = mcp_auth_check_resource_access(&C, t), u = mcp_auth_check_tool_access(&C, t);
    SX_CHECK(r == (due_r && !exp), due_r && !exp ? "resource-refused" : "resource-granted", "resource \"%s\" %s%s", t, r ? "granted" : "refused", exp ? " after the expiry" : "");
    SX_CHECK(u == (due_t && !exp), due_t && !exp ? "tool-refused" : "tool-granted", "tool \"%s\" %s%s", t, u ? "granted" : "refused", exp ? " after the expiry" : "");
    sx_class("%s", exp ? "expired" : r || u ? "granted" : "refused");
}
static void list(int which, int n, int max) {
    for (int i = 0; i < n; i++) { word(pat[which][i], max, "ab*"); lst[which][i] = pat[which][i]; sx_note("%s \"%s\"", which ? "tools" : "resources", pat[which][i]); }
    if (which) C.allowed_tools = lst[1], C.allowed_tools_count = (size_t)n; else C.allowed_resources = lst[0], C.allowed_resources_count = (size_t)n;
}
static void fresh(void) { memset(&C, 0, sizeof C); C.type = MCP_AUTH_TOKEN; C.identifier = "caller"; }
/* one pattern for each kind */
static void one_run(void) {
    fresh(); int L = sx_thorough() ? 4 : 3; list(0, 1, L); 
    static char other[] = "b*"; static char *ol[] = {other}; C.allowed_tools = ol; C.allowed_tools_count = 1;
    char t[8]; word(t, L, "ab*"); sx_note("name \"%s\"", t); ask(t);
    C.allowed_tools = C.allowed_resources; C.allowed_resources = ol; ask(t);
}
static void lists_run(void) {
    fresh(); int n = sx_choose(4), max = n <= 2 ? 3 : 2; list(0, n, max); list(1, sx_choose(2), 1);
    int hole = n ? sx_choose(n + 1) : 0; if (hole) lst[0][hole - 1] = NULL;
    char t[8]; word(t, 3, "ab*"); sx_note("name \"%s\"%s", t, hole ? ", one pattern missing" : ""); ask(t);
}
static void expiry_run(void) {
    static const long long E[] = {0, -3, -2, -1, 0, 1, 2, 3, 3600, -3600, -1000000000, 2000000000};
    fresh(); int e = sx_choose(12), empty = sx_choose(4), adv = sx_choose(5); C.type = (mcp_auth_type_t)sx_choose(4); static char anon[] = "anonymous", auth[] = "authenticated_client"; int w = sx_choose(4); C.identifier = w == 0 ? "caller" : w == 1 ? anon : w == 2 ? auth : NULL;
    C.expiry = e ? now_s() + E[e] : 0;
    static char star[] = "*"; static char *al[] = {star}; C.allowed_resources = al; C.allowed_tools = al; C.allowed_resources_count = empty & 1 ? 0 : 1; C.allowed_tools_count = empty & 2 ? 0 : 1;
    sx_note("expires %+lld, %d then advance", e ? E[e] : 0, adv);
    ask("x"); sx_ms += adv * 500; ask("x"); sx_ms += adv * 500; ask("");
    if (empty & 1) C.allowed_resources = NULL;
    if (empty & 2) C.allowed_tools = NULL;
    ask("x");
    SX_CHECK(!mcp_auth_check_resource_access(NULL, "x") && !mcp_auth_check_tool_access(NULL, "x"), "no-caller", "granted without a caller");
    SX_CHECK(!mcp_auth_check_resource_access(&C, NULL) && !mcp_auth_check_tool_access(&C, NULL), "no-name", "granted without a name");
}
/* long names: everything but the end or the beginning equal */
static void long_run(void) {
    static const int L[] = {8, 63, 64, 65, 127, 128, 255, 256, 257, 1024}; static char p[1100], t[1100];
    fresh(); C.type = (mcp_auth_type_t)sx_choose(4); int n = L[sx_choose(10)], star = sx_choose(2), how = sx_choose(6);
    memset(p, 'p', (size_t)n); p[n] = 0; strcpy(t, p); if (star) strcat(p, "*");
    if (how == 1) t[n - 1] = 'q';
    if (how == 2) t[n - 1] = 0;
    if (how == 3) strcat(t, "r");
    if (how == 4) t[0] = 'P';
    if (how == 5) strcat(t, "*");
    static char *al[1]; al[0] = p; C.allowed_resources = C.allowed_tools = al; C.allowed_resources_count = C.allowed_tools_count = 1;
    sx_note("%d characters, way %d", n, how); ask(t);
}
static char kt = 'm';
static void server_run(void) {
    static char *P[] = {"*", "r:*", "r:a", "r:m:*", "echo", "e*", "*o", "r:", ""};
    static const char *N[] = {"r:a", "r:m:1", "r:two", "echo", "two", "r:fail"};
    fresh(); use_c = 0;
    sv_new(NULL, 1, 1, 1, 1);
    SX_CHECK(mcp_server_register_template_handler(SV, "r:m:{x}", sv_resource, &kt) == 0, "register", "a template cannot be registered");
    sv_run(); use_c = 1;
    int len = 3, thor = sx_thorough();
    for (int i = 0; i < len; i++) {
        static char *al[2][2];
        int a = sx_choose(i == 2 ? 3 : 9), b = sx_choose(i == 2 ? 1 : 3), m = sx_choose(i < 2 ? 6 : thor ? 4 : 2), isr = N[m][1] == ':', ex = sx_choose(i ? 2 : 3);
        al[isr][0] = P[a]; al[!isr][0] = P[b == 1 ? 0 : 8]; al[isr][1] = P[2]; al[!isr][1] = P[4];
        int two = b == 2 ? 2 : 1;
        C.allowed_resources = al[1]; C.allowed_tools = al[0]; C.allowed_resources_count = C.allowed_tools_count = (size_t)two;
        C.expiry = ex == 0 ? 0 : now_s() + (ex == 1 ? -1 : 1);
        char t[256]; int n = isr ? sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"read_resource\",\"params\":{\"uri\":\"%s\"}}", i, N[m])
            : sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"call_tool\",\"params\":{\"name\":\"%s\"}}", i, N[m]);
        int ok = reach(al[isr], (size_t)two, N[m]) && ex != 1, code = 0; rj_used = 0; sv_ncall = 0;
        sx_note("%s with \"%s\"%s: %s", isr ? "resource" : "tool", P[a], ex == 1 ? " expired" : "", N[m]);
        char *ans = sv_send_n(t, (size_t)n, NULL); rj *r = ans ? rj_parse_keep(ans) : NULL;
        SX_CHECK(r && r->t == 'o', "no-answer", "no answer to %s", t);
        rj *er = rj_get(r, "error"), *re = rj_get(r, "result"), *c = er ? rj_get(er, "code") : NULL;
        if (!ok) { SX_CHECK(er && c && c->n == MCP_ERROR_FORBIDDEN, "served-without-permission", "%s: %s", t, ans); SX_CHECK(!sv_ncall, "handler-without-permission", "%s: %s was called", t, sv_call[0].name); }
        else if (isr) { rj *w = sv_resource_result(N[m][2] == 'm' ? 'm' : 'r', N[m], 0, &code); SX_CHECK(code ? er && c->n == code : re && rj_same(re, w), "wrong-answer", "%s: %s", t, ans); }
        else { rj *w = sv_tool_result(N[m], NULL, &code); SX_CHECK(re && rj_same(re, w), "wrong-answer", "%s: %s", t, ans); }
        sx_class("%s", ok ? "served" : "refused");
        free(ans);
    }
    use_c = 0; sv_end();
}
static const sx_scenario S[] = {
    {"one", NULL, one_run, 0, "all patterns against all names of up to 3 (thorough 4) characters over {a,b,*}"},
    {"lists", NULL, lists_run, 0, "lists of 0-3 patterns, one possibly missing, against all names of up to 3 characters"},
    {"expiry", NULL, expiry_run, 0, "12 expiry times around now, the clock advanced, empty and missing lists, every kind of authentication, four identifiers"},
    {"long", NULL, long_run, 0, "long names equal but for one character"},
    {"server", sv_warm, server_run, 0, "all sequences of 3 calls by callers with different permissions to one server, cached and templated resources included"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
