/* P02: all sequences of rules, validators and defaults up to a bound, with every check after each step; the same through a server. */
#include <stdarg.h>
#include "srv.h"
#include "mcp_template_security.h"

static const char *T[] = {"m:{x}", "m:{x}/e", "m:{y}"};           /* the last never gets a rule of its own in the short scenarios */
static const char *ROLE[] = {"a", "b", "", "*", "A", "ab", "*a", NULL};
static const char *L[][2] = {{"a"}, {"b"}, {"a", "b"}, {"*"}, {"b", "a"}, {""}, {0}, {"*a"}, {"a*", "b"}}; static const int LN[] = {1, 1, 2, 1, 2, 1, 0, 1, 2};
typedef struct { int has, nl; char roles[2][4]; int val; } ref;   /* val: 0 none, otherwise which */
static ref R[64]; static int dval, nt;
static const char *NM[64];
static mcp_template_security_t *X;
/* validators: 1 accepts, 2 refuses, 3 accepts "ok"; each checks that it is asked about what it was set for */
static const char *asked_uri; static const mcp_json_t *asked_params; static int asked;
static bool validate(const char *uri, const mcp_json_t *params, void *ud) {
    int v = (int)(long)ud & 3; asked++;
    SX_CHECK(asked_uri && !strcmp(uri, asked_uri) && params == asked_params, "validator-arguments", "the validator is asked about %s", uri);
    if (v == 1) return true; if (v == 2) return false;
    const char *s = NULL; mcp_json_t *p = params ? mcp_json_object_get_property(params, "x") : NULL;
    return p && mcp_json_get_string(p, &s) == 0 && s && !strcmp(s, "ok");
}
static bool validate2(const char *uri, const mcp_json_t *params, void *ud) { SX_CHECK(((long)ud & 4) != 0, "validator-data", "a validator gets the data of another"); return validate(uri, params, ud); }
static mcp_template_validator_t fn(int v) { return v & 4 ? validate2 : validate; }
static int accepts(int v, int p) { v &= 3; return v == 1 ? 1 : v == 2 ? 0 : v == 3 ? p == 1 : 1; }     /* p: 0 none, 1 ok, 2 other */
static int listed(const ref *r, const char *role) { if (!r->nl) return 1; if (!role) return 0; for (int i = 0; i < r->nl; i++) if (!strcmp(r->roles[i], role) || !strcmp(r->roles[i], "*")) return 1; return 0; }
static mcp_json_t *P[3]; static int norole;
static void check_one(int t, int ro, int p) {
    const ref *r = &R[t]; int v = r->val ? r->val : dval;
    asked_uri = NM[t]; asked_params = P[p]; sx_op();
    if (!ROLE[ro] && r->has && r->nl && !norole) return;         /* decided by the scenario norole */
    int want = !r->has ? ROLE[ro] == NULL : listed(r, ROLE[ro]) && accepts(v, p), got;
    got = mcp_template_security_check_access(X, NM[t], ROLE[ro], P[p]);
    SX_CHECK(got == want, norole ? "no-role-admitted" : want ? "refused" : "admitted", "%s for role %s with parameters %d: %s", NM[t], ROLE[ro] ? ROLE[ro] : "(none)", p, got ? "admitted" : "refused");
    sx_class("%s", got ? "admitted" : "refused");
    if (ro == 0) {
        int w = P[p] ? accepts(v, p) : 0; got = mcp_template_security_validate_params(X, NM[t], P[p]);
        SX_CHECK(got == w, w ? "parameters-refused" : "parameters-accepted", "parameters %d of %s", p, NM[t]);
    }
}
static void check_all(void) { for (int t = 0; t < nt; t++) for (int ro = 0; ro < 8; ro++) for (int p = 0; p < 3; p++) check_one(t, ro, p); }
static void acl(int t, int l) {
    char a[2][4]; const char *q[2] = {a[0], a[1]}; for (int i = 0; i < LN[l]; i++) strcpy(a[i], L[l][i]);     /* the list is the caller's: it is not kept */
    char u[32]; strcpy(u, NM[t]);
    SX_CHECK(mcp_template_security_add_acl(X, u, LN[l] ? q : NULL, (size_t)LN[l]) == 0, "add", "a list cannot be added"); sx_op();
    memset(a, 'z', sizeof a); memset(u, 'z', sizeof u);
    R[t].has = 1; R[t].nl = LN[l]; for (int i = 0; i < LN[l]; i++) strcpy(R[t].roles[i], L[l][i]);
}
static void validator(int t, int v) { SX_CHECK(mcp_template_security_set_validator(X, NM[t], fn(v), (void *)(long)v) == 0, "set", "a validator cannot be set"); R[t].has = 1; R[t].val = v; sx_op(); }
static void begin(int n) {
    memset(R, 0, sizeof R); dval = 0; nt = n; norole = 0;
    static char names[64][16]; for (int i = 0; i < n; i++) { if (i < 3) NM[i] = T[i]; else { sprintf(names[i], "t%d:{x}", i); NM[i] = names[i]; } }
    mcp_arena_init_current_thread(4096);
    P[0] = NULL; for (int i = 1; i < 3; i++) { P[i] = mcp_json_object_create(); mcp_json_object_set_property(P[i], "x", mcp_json_string_create(i == 1 ? "ok" : "no")); }
    X = mcp_template_security_create(); SX_CHECK(X, "create", "no context");
}
static void end(void) { mcp_template_security_destroy(X); for (int i = 1; i < 3; i++) mcp_json_destroy(P[i]); mcp_arena_destroy_current_thread(); mcp_thread_cache_flush(); }
static void history_run(void) {
    mcp_thread_cache_flush(); long l0 = sx_live();
    begin(3); int depth = sx_thorough() ? 5 : 4;
    for (int i = 0; i < depth; i++) {
        int op = sx_choose(24);
        if (op < 14) { int l = op % 7; if (i == 0 && l == 6 && sx_choose(2)) l = 7 + sx_choose(2); sx_note("list %d for %s", l, NM[op / 7]); acl(op / 7, l); }
        else if (op < 20) { int v = 1 + (op - 14) % 3; sx_note("validator %d for %s", v, NM[(op - 14) / 3]); validator((op - 14) / 3, v); }
        else if (op < 23) { dval = 4 + op - 19; sx_note("default validator %d", dval - 4); SX_CHECK(mcp_template_security_set_default_validator(X, fn(dval), (void *)(long)dval) == 0, "set", "a default cannot be set"); sx_op(); }
        else break;
        check_all();
    }
    end();
    SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0);
}
static void many_run(void) {
    int n = 4 + sx_choose(37), again = sx_choose(3), l = sx_choose(9); mcp_thread_cache_flush(); long l0 = sx_live();
    begin(n); sx_note("%d templates", n);
    for (int i = 0; i < n; i++) if (i % 3 == 2) validator(i, 1 + i / 3 % 3); else acl(i, (i + l) % 9);
    check_all();
    if (again) for (int i = n - 1; i >= 0; i -= again) { if (i % 2) validator(i, 2); else acl(i, (i + l + 1) % 9); }
    check_all(); end();
    SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0);
}
/* long lists */
static void roles_run(void) {
    mcp_thread_cache_flush(); long l0 = sx_live(); begin(1); int n = 1 + sx_choose(40), w = sx_choose(2); static char a[40][8]; const char *q[40]; for (int i = 0; i < n; i++) { sprintf(a[i], "r%d", i); q[i] = a[i]; }
    if (w) mcp_template_security_set_validator(X, T[0], validate, (void *)1L);
    SX_CHECK(mcp_template_security_add_acl(X, T[0], q, (size_t)n) == 0, "add", "a list of %d cannot be added", n); asked_uri = T[0]; asked_params = NULL;
    for (int i = 0; i < 42; i++) { char r[8]; sprintf(r, "r%d", i); int got = mcp_template_security_check_access(X, T[0], r, NULL); sx_op(); SX_CHECK(got == (i < n), i < n ? "refused" : "admitted", "role %d of a list of %d", i, n); }
    end(); SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0);
}
/* a caller of whom no role is known */
static void norole_run(void) { begin(3); norole = 1; int l = sx_choose(6), v = sx_choose(4); acl(0, l); if (v) validator(0, v); sx_note("list %d, validator %d", l, v); if (L[l][0][0] != '*' || LN[l] != 1) if (accepts(v, 1)) check_one(0, 7, 1); norole = 0; end(); }
static void invalid_run(void) {
    begin(1); const char *q[2] = {"a", NULL}; int k = sx_choose(8);
    int r = k == 0 ? mcp_template_security_add_acl(NULL, T[0], q, 1) : k == 1 ? mcp_template_security_add_acl(X, NULL, q, 1) : k == 2 ? mcp_template_security_add_acl(X, T[0], NULL, 1) : k == 3 ? mcp_template_security_set_validator(X, T[0], NULL, NULL)
        : k == 4 ? mcp_template_security_set_validator(X, NULL, validate, NULL) : k == 5 ? mcp_template_security_set_default_validator(X, NULL, NULL) : k == 6 ? mcp_template_security_add_acl(X, T[0], q, 2) : mcp_template_security_set_default_validator(NULL, validate, NULL);
    SX_CHECK(r != 0, "nonsense-accepted", "call %d succeeds", k);
    SX_CHECK(!mcp_template_security_check_access(NULL, T[0], "a", NULL) && !mcp_template_security_check_access(X, NULL, NULL, NULL) && !mcp_template_security_validate_params(X, NULL, P[1]), "nonsense-admitted", "access without a template");
    check_all(); end();
}
/* ---- through a server: what the validators refuse is not read ---- */
static bool svalidate(const char *uri, const mcp_json_t *params, void *ud) {
    (void)uri; int v = (int)(long)ud; asked++; if (v == 1) return true; if (v == 2) return false;
    const char *s = NULL; mcp_json_t *p = params ? mcp_json_object_get_property(params, "x") : NULL;
    return p && mcp_json_get_string(p, &s) == 0 && s && !strcmp(s, "ok");
}
static char kt[2] = {'m', 'n'};
static void server_run(void) {
    static const char *TT[] = {"m:{x}", "n:{x}/e"}, *U[] = {"m:ok", "m:no", "n:ok/e", "n:no/e"};
    ref S[2]; memset(S, 0, sizeof S); int dv = 0;
    sv_new(NULL, 1, 1, 1, 1);
    for (int i = 0; i < 2; i++) SX_CHECK(mcp_server_register_template_handler(SV, TT[i], sv_resource, &kt[i]) == 0, "register", "a template cannot be registered");
    sv_run();
    for (int i = 0; i < 3; i++) {
        int op = sx_choose(12);
        if (op < 6) { int t = op / 3, v = 1 + op % 3; sx_note("validator %d for %s", v, TT[t]); SX_CHECK(mcp_server_set_template_validator(SV, TT[t], svalidate, (void *)(long)v) == 0, "set", "a validator cannot be set"); S[t].val = v; }
        else if (op < 9) { dv = op - 5; sx_note("default validator %d", dv); SX_CHECK(mcp_server_set_default_template_validator(SV, svalidate, (void *)(long)dv) == 0, "set", "a default cannot be set"); }
        else if (op < 11) { int t = op - 9; sx_note("empty list for %s", TT[t]); SX_CHECK(mcp_server_add_template_acl(SV, TT[t], NULL, 0) == 0, "add", "a list cannot be added"); S[t].has = 1; }
        int u = sx_choose(4), t = u / 2, p = u % 2 ? 2 : 1; char m[256]; int n = sprintf(m, "{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"read_resource\",\"params\":{\"uri\":\"%s\"}}", U[u]);
        int seen = S[t].nl & (1 << (u % 2)), ok = accepts(S[t].val ? S[t].val : dv, p), code; sv_ncall = 0; sx_note("read %s", U[u]);
        char *a = sv_send_n(m, (size_t)n, NULL); rj *r = a ? rj_parse_keep(a) : NULL, *re = r ? rj_get(r, "result") : NULL;
        SX_CHECK(r, "no-answer", "no answer to %s", m);
        if (!ok && !seen) { SX_CHECK(!re && !sv_ncall, "read-although-refused", "%s: %s", U[u], a); sx_class("refused"); }     /* what was read before may be cached */
        if (ok) { SX_CHECK(re && rj_same(re, sv_resource_result(kt[t], U[u], 0, &code)), "refused-although-accepted", "%s: %s", U[u], a); S[t].nl |= 1 << (u % 2); sx_class("read"); }
        free(a);
    }
    sv_end();
}
/* a role list restricts who reads a template through the server */
static void server_roles_run(void) {
    sv_new(NULL, 1, 1, 1, 1); SX_CHECK(mcp_server_register_template_handler(SV, "m:{x}", sv_resource, &kt[0]) == 0, "register", "a template cannot be registered");
    const char *q[] = {"admin"}; SX_CHECK(mcp_server_add_template_acl(SV, "m:{x}", q, 1) == 0, "add", "a list cannot be added"); sv_run();
    char m[256]; int n = sprintf(m, "{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"read_resource\",\"params\":{\"uri\":\"m:%s\"}}", sx_flip() ? "a" : "b");
    char *a = sv_send_n(m, (size_t)n, NULL); rj *r = a ? rj_parse_keep(a) : NULL; int served = r && rj_get(r, "result"); free(a);
    SX_CHECK(!served, "no-role-admitted", "a template for admin only is read by an anonymous caller"); sv_end();
}
static const sx_scenario S[] = {
    {"history", sv_warm, history_run, 0, "all sequences of 4 (thorough 5) rules, validators and defaults over 2 templates, every check after each"},
    {"many", sv_warm, many_run, 0, "4-40 templates, some changed again, every check"},
    {"roles", sv_warm, roles_run, 0, "lists of 1-40 roles, every role"},
    {"norole", sv_warm, norole_run, 0, "callers without a role against role lists"},
    {"invalid", sv_warm, invalid_run, 0, "calls without what they need"},
    {"server", sv_warm, server_run, 0, "all sequences of 3 settings and reads through a server"},
    {"server-roles", sv_warm, server_roles_run, 0, "a template restricted to a role read through a server"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
