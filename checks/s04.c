/* S04: all histories of reads, clock steps and registrations up to a bound: each read gives the content of the right handler, new or cached. */
#include <stdarg.h>
#include "srv.h"

static const char *U[] = {"r:a", "m:1/end", "r:fail", "m:none/end", "r:bin", "r:two", "n:7", "n:x", "m:2/end", "r:none", "r:b", "r:A", "m:fail/end", "r:empty", "m:1/en", "r:hole", "n:-7", "m:1/end/", "o:9", "n:"};
#define NU ((int)(sizeof U / sizeof *U))
/* the routes: which addresses they match is spelt out, matching itself is P01's */
static const char *RT[] = {"m:{x}/end", "n:{k:int}", "o:{k:int}"}; static const char RL[2][4] = {"mno", "MNO"};
static char letter[3];        /* the letter of the handler registered, 0: none */
static int route(const char *u) {
    if (!strcmp(u, "m:1/end") || !strcmp(u, "m:none/end") || !strcmp(u, "m:2/end") || !strcmp(u, "m:fail/end")) return 0;
    if (!strcmp(u, "n:7") || !strcmp(u, "n:-7")) return 1;
    if (!strcmp(u, "o:9")) return 2;
    return -1;
}
static struct { int have, serial, kind, ever; long long at; long ttl; int used; } M[32];   /* what each address last gave and when */
static int stamp, cap, rh;
static int expect(int u, char kind, int serial, rj **r) { int c; *r = sv_resource_result(kind, U[u], serial, &c); return c; }
static void read_one(int u) {
    char t[256]; int n = sprintf(t, "{\"jsonrpc\":\"2.0\",\"id\":4,\"method\":\"read_resource\",\"params\":{\"uri\":\"%s\"}}", U[u]), n0 = sv_ncall;
    char *a = sv_send_n(t, (size_t)n, NULL); rj *r = a ? rj_parse_keep(a) : NULL;
    SX_CHECK(r && r->t == 'o', "no-answer", "no answer to %s", t);
    rj *re = rj_get(r, "result"), *er = rj_get(r, "error"), *c = er ? rj_get(er, "code") : NULL;
    SX_CHECK((re != NULL) != (er != NULL), "result-or-error", "%s: %s", t, a);
    int g = route(U[u]), calls = sv_ncall - n0; long age = (long)((sx_ms - M[u].at) / 1000);
    if (g >= 0 && !letter[g]) g = -1;
    for (int i = n0; i < sv_ncall; i++) SX_CHECK(!strcmp(sv_call[i].name, U[u]), "wrong-address", "reading %s asks a handler for %s", U[u], sv_call[i].name);
    if (!calls && (g >= 0 || rh)) {     /* from the cache: it must have been there */
        SX_CHECK(M[u].ever, "not-read", "%s is answered without asking any handler: %s", U[u], a);
        SX_CHECK(M[u].have, "failure-cached", "%s is answered from the cache, its last reading gave an error: %s", U[u], a);
        SX_CHECK(M[u].ttl < 0 || age <= M[u].ttl, "stale", "%s is answered with content %ld s old: %s", U[u], age, a);
        rj *w; expect(u, (char)M[u].kind, M[u].serial, &w);
        SX_CHECK(re && rj_same(re, w), "cached-differs", "%s read again: %s", U[u], a);
        M[u].used = ++stamp; sx_class("cached");
        free(a); return;
    }
    /* fresh: not while it had to be in the cache */
    if (M[u].have && (M[u].ttl < 0 || age < M[u].ttl)) {
        int others = 0; for (int i = 0; i < NU; i++) if (i != u && M[i].ever && M[i].have && M[i].used > M[u].used) others++;
        SX_CHECK(others >= cap, "not-cached", "%s is fetched again after %ld s with %d others read since", U[u], age, others);
    }
    int k = n0, code = MCP_ERROR_RESOURCE_NOT_FOUND, kind = 0; rj *w = NULL;
    if (g >= 0) {
        SX_CHECK(k < sv_ncall && sv_call[k].kind == letter[g], "wrong-handler", "%s is not given to the handler of %s", U[u], RT[g]);
        k++; kind = letter[g]; code = expect(u, letter[g], k, &w);
    }
    if ((g < 0 || code == MCP_ERROR_RESOURCE_NOT_FOUND) && rh) {
        SX_CHECK(k < sv_ncall && sv_call[k].kind == 'r', "wrong-handler", "%s is not given to the resource handler", U[u]);
        k++; kind = 'r'; code = expect(u, 'r', k, &w);
    }
    SX_CHECK(k == sv_ncall, "handler-calls", "reading %s asks handlers %d times", U[u], calls);
    M[u].ever = 1; M[u].have = 0;
    if (code) { SX_CHECK(er, "no-error", "%s: %s", t, a); if (!strstr(U[u], "empty")) SX_CHECK(c && c->n == code, "wrong-code", "error %d expected for %s: %s", code, t, a); sx_class("error"); }
    else {
        SX_CHECK(re && rj_same(re, w), "wrong-content", "%s: %s", t, a);
        if (!strstr(U[u], "hole")) { M[u].have = 1; M[u].kind = kind; M[u].serial = k; M[u].at = sx_ms; M[u].ttl = strstr(U[u], "bin") ? 3600 : 300; M[u].used = ++stamp; }
        sx_class("fresh");
    }
    free(a);
}
static void reg(int i, int v) { letter[i] = RL[v][i]; SX_CHECK(mcp_server_register_template_handler(SV, RT[i], sv_resource, (void *)&RL[v][i]) == 0, "register", "%s cannot be registered", RT[i]); sx_op(); }
static const int D[] = {1, 299, 300, 301, 3301};
static void begin(int capacity, const char **warm, int nwarm) {
    memset(M, 0, sizeof M); stamp = 0; memset(letter, 0, sizeof letter);
    mcp_server_config_t c; memset(&c, 0, sizeof c); c.cache_capacity = (size_t)capacity; c.prewarm_resource_uris = (char **)warm; c.prewarm_count = (size_t)nwarm; cap = capacity ? capacity : 1000;
    sv_new(&c, 1, 1, rh, 0); sv_serial = 1;
}
static void run(int depth, int nu, int nd) {
    for (int i = 0; i < depth; i++) {
        int op = sx_choose(nu + nd + 2 + 1);
        if (op < nu) { sx_note("read %s", U[op]); read_one(op); }
        else if (op < nu + nd) { int d = D[op - nu]; sx_note("%d s later", d); sx_ms += d * 1000; }
        else if (op < nu + nd + 2) { int v = op - nu - nd; sx_note("register %s as %c", RT[0], RL[v][0]); reg(0, v); }
        else break;
        if (sv_ncall > SV_CALLS - 4) break;
    }
}
static void wide_run(void) { rh = 1; begin(0, NULL, 0); reg(0, 0); reg(1, 0); sv_run(); run(4, NU, 5); sv_end(); }
static void deep_run(void) { rh = 1; begin(sx_choose(4), NULL, 0); reg(0, 0); if (sx_flip()) reg(1, 0); sv_run(); run(sx_thorough() ? 6 : 5, 5, 3); sv_end(); }
static void caps_run(void) {   /* more addresses than the cache holds, in every order */
    rh = 1; begin(1 + sx_choose(3), NULL, 0); reg(0, 0); sv_run();
    static const int X[] = {0, 1, 10, 4, 8};
    for (int i = 0; i < 7 + sx_thorough(); i++) { int op = sx_choose(6); if (op == 5) { sx_note("299 s later"); sx_ms += 299000; } else { sx_note("read %s", U[X[op]]); read_one(X[op]); } }
    sv_end();
}
static void nohandler_run(void) {
    rh = 0; begin(2, NULL, 0); reg(0, 0); if (sx_flip()) reg(2, 0);
    mcp_resource_t *s = mcp_resource_create("r:a", "n", NULL, NULL); mcp_server_add_resource(SV, s); mcp_resource_free(s);
    sv_run();
    for (int i = 0; i < 3; i++) { int op = sx_choose(NU); sx_note("read %s", U[op]); read_one(op); }
    sv_end();
}
static void prewarm_run(void) {
    static const int W[] = {0, 4, 2, 5, 9, 13, 15, 1, 12, 3};
    const char *w[3]; int wi[3], n = 1 + sx_choose(2 + sx_thorough());
    for (int i = 0; i < n; i++) { wi[i] = sx_choose(11); w[i] = wi[i] < 10 ? U[W[wi[i]]] : NULL; sx_note("prewarm %s", w[i] ? w[i] : "nothing"); }
    rh = 1; begin(sx_choose(3), w, n); reg(0, 0); sv_run();
    int k = 0;
    for (int i = 0; i < n; i++) {    /* the calls made for it */
        if (!w[i]) continue;
        int u = W[wi[i]], g = route(U[u]), code = MCP_ERROR_RESOURCE_NOT_FOUND; rj *x; char kind = 0;
        SX_CHECK(k < sv_ncall && !strcmp(sv_call[k].name, w[i]), "prewarm", "%s is not fetched at start", w[i]);
        if (g >= 0) { SX_CHECK(sv_call[k].kind == letter[g], "wrong-handler", "%s is not given to the handler of %s", w[i], RT[g]); k++; kind = letter[g]; code = expect(u, kind, k, &x); }
        if (code == MCP_ERROR_RESOURCE_NOT_FOUND) { SX_CHECK(k < sv_ncall && sv_call[k].kind == 'r', "wrong-handler", "%s is not given to the resource handler", w[i]); k++; kind = 'r'; code = expect(u, 'r', k, &x); }
        M[u].ever = 1; M[u].have = 0;
        if (!code && !strstr(w[i], "hole")) { M[u].have = 1; M[u].kind = kind; M[u].serial = k; M[u].at = sx_ms; M[u].ttl = -1; M[u].used = ++stamp; }
    }
    SX_CHECK(k == sv_ncall, "handler-calls", "prewarming asks handlers %d times", sv_ncall);
    for (int i = 0; i < 3; i++) { int op = sx_choose(8); if (op == 7) { sx_note("3700 s later"); sx_ms += 3700000; } else { sx_note("read %s", U[op]); read_one(op); } }
    sv_end();
}
static const sx_scenario S[] = {
    {"wide", sv_warm, wide_run, 0, "all sequences of 4 steps over 20 addresses, 5 clock steps and registrations"},
    {"deep", sv_warm, deep_run, 0, "all sequences of 5 (thorough 6) steps over 5 addresses, 3 clock steps and registrations, room for 1-3 or 1000"},
    {"caps", sv_warm, caps_run, 0, "all sequences of 7 (thorough 8) reads of 5 addresses with room for 1-3"},
    {"nohandler", sv_warm, nohandler_run, 0, "only template handlers: all sequences of 3 reads of 20 addresses"},
    {"prewarm", sv_warm, prewarm_run, 0, "up to 2 (thorough 3) prewarmed addresses, then all sequences of 3 reads"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
