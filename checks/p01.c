/* P01: every template of the alphabet with every tuple of values, and with every address up to a bound, against all ways to divide the address. */
#include "seqx.h"
#include "mcp_template.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_thread_cache.h"
#include <limits.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { STR, INT, FLT, BOO, PAT };
typedef struct { const char *s; int type, req; const char *def, *pat; } kind;
#define LONGP "dabcdefghijklmnopqrstuvwxyzabcdef"
static const kind K[] = {
    {"", STR, 1}, {"?", STR, 0}, {"=d", STR, 0, "d"}, {":int", INT, 1}, {":int?", INT, 0}, {":int=7", INT, 0, "7"},
    {":float", FLT, 1}, {":float=1.5", FLT, 0, "1.5"}, {":bool", BOO, 1}, {":bool?", BOO, 0}, {":bool=true", BOO, 0, "true"},
    {":string", STR, 1}, {":pattern:d*", PAT, 1, 0, "d*"}, {":pattern:*d", PAT, 1, 0, "*d"}, {":pattern:d*x", PAT, 1, 0, "d*x"}, {":pattern:d", PAT, 1, 0, "d"},
    {"?:int", INT, 0}, {"?=d", STR, 0, "d"}, {":float?", FLT, 0}, {":pattern:d*?", PAT, 0, 0, "d*"}, {":int?=7", INT, 0, "7"}, {"?:bool=0", BOO, 0, "0"}, {":pattern:" LONGP "*", PAT, 1, 0, LONGP "*"},
};
#define NK ((int)(sizeof K / sizeof *K))
static const char *L0[] = {"e://", "", "/"};
static const char *LI[] = {"/", "-x", "/x/", "xx"};
typedef struct { int n; const char *lit[5]; const kind *k[4]; char t[256]; } tmpl;

static int pat_ok(const char *p, const char *v) {
    const char *st = strchr(p, '*'); if (!st) return !strcmp(p, v);
    size_t a = (size_t)(st - p), b = strlen(st + 1), n = strlen(v); return n >= a + b && !strncmp(v, p, a) && !strcmp(v + n - b, st + 1);
}
static int text_ok(const kind *k, const char *v) {               /* a value of this kind? */
    if (!*v) return !k->req;
    switch (k->type) {
        case INT: { const char *p = v; int neg = *p == '-'; double d = 0; if (*p == '-' || *p == '+') p++; if (!*p) return 0; for (; *p; p++) { if (*p < '0' || *p > '9') return 0; d = d * 10 + (*p - '0'); } if (neg) d = -d; return d >= INT_MIN && d <= INT_MAX; }
        case FLT: { char *e; float f = strtof(v, &e); return !*e && isfinite(f); }
        case BOO: return !strcmp(v, "true") || !strcmp(v, "false") || !strcmp(v, "0") || !strcmp(v, "1");
        case PAT: return pat_ok(k->pat, v);
        default: return 1;
    }
}
static int splits;                                               /* ways to obtain an address */
static void split(const tmpl *T, int i, const char *u) {
    size_t n = strlen(T->lit[i]); if (strncmp(u, T->lit[i], n)) return; u += n;
    if (i == T->n) { splits += !*u; return; }
    for (size_t l = 0; l <= strlen(u); l++) { char v[600]; memcpy(v, u, l); v[l] = 0; if (text_ok(T->k[i], v)) split(T, i + 1, u + l); }
}
static char V[4][600];
static int first(const tmpl *T, const char *u) {                 /* each value ends where the text after it first occurs */
    size_t n = strlen(T->lit[0]); if (strncmp(u, T->lit[0], n)) return 0; u += n;
    for (int i = 0; i < T->n; i++) {
        const char *e = *T->lit[i + 1] ? strstr(u, T->lit[i + 1]) : u + strlen(u); if (!e) return 0;
        memcpy(V[i], u, (size_t)(e - u)); V[i][e - u] = 0; if (!text_ok(T->k[i], V[i])) return 0; u = e + strlen(T->lit[i + 1]);
    }
    return !*u;
}
static const char *str(const mcp_json_t *j) { const char *s = NULL; return j && mcp_json_get_type(j) == MCP_JSON_STRING && mcp_json_get_string(j, &s) == 0 ? s : NULL; }
static int is_value(const mcp_json_t *j, const kind *k, const char *v) {
    double d; bool b;
    switch (k->type) {
        case INT: return j && mcp_json_get_type(j) == MCP_JSON_NUMBER && mcp_json_get_number(j, &d) == 0 && d == (double)strtol(v, NULL, 10);
        case FLT: return j && mcp_json_get_type(j) == MCP_JSON_NUMBER && mcp_json_get_number(j, &d) == 0 && (float)d == strtof(v, NULL);
        case BOO: return j && mcp_json_get_type(j) == MCP_JSON_BOOLEAN && mcp_json_get_boolean(j, &b) == 0 && b == (*v == 't' || *v == '1');
        default: { const char *s = str(j); return s && !strcmp(s, v); }
    }
}
static void has_values(const tmpl *T, const mcp_json_t *o, const char *u, const char *who) {
    char **names = NULL; size_t n = 0, have = 0; mcp_json_object_get_property_names(o, &names, &n); for (size_t i = 0; i < n; i++) free(names[i]); free(names);
    for (int i = 0; i < T->n; i++) {
        char nm[2] = {(char)('a' + i), 0}; mcp_json_t *j = mcp_json_object_get_property(o, nm); const kind *k = T->k[i]; have += j != NULL;
        int good = *V[i] ? is_value(j, k, V[i]) : (k->def && is_value(j, k, k->def)) || (!(k->def && k->type != STR) && str(j) && !*str(j)) || (!k->def && !j);
        SX_CHECK(good, "value", "%s: the value of {%s} of %s in %s is not %s", who, nm, T->t, u, V[i]);
    }
    SX_CHECK(n == have, "value", "%s: %s in %s gives %d values", who, u, T->t, (int)n);
}
/* the four functions give one answer; returns whether the address matches */
static int ask(const char *t, const char *u, mcp_json_t **p, mcp_json_t **o) {
    int m = mcp_template_matches(u, t), mo = mcp_template_matches_optimized(u, t); *p = mcp_template_extract_params(u, t); *o = mcp_template_extract_params_optimized(u, t); sx_ops(4);
    SX_CHECK((m == 0 || m == 1) && (mo == 0 || mo == 1), "answer", "matching gives %d and %d", m, mo);
    SX_CHECK(m == mo, "matchers-differ", "%s %s %s with the plain matcher and not with the cached one, or the other way round (%d, %d)", u, m ? "matches" : "does not match", t, m, mo);
    SX_CHECK(m == (*p != NULL), "extract-differs", "%s %s %s, and the plain extraction gives %s", u, m ? "matches" : "does not match", t, *p ? "values" : "none");
    SX_CHECK(m == (*o != NULL), "extract-differs", "%s %s %s, and the cached extraction gives %s", u, m ? "matches" : "does not match", t, *o ? "values" : "none");
    return m;
}
static void address(const tmpl *T, const char *u, int must) {
    splits = 0; split(T, 0, u); int f = first(T, u); mcp_json_t *p, *o; int m = ask(T->t, u, &p, &o);
    SX_CHECK(splits || !m, "matches", "%s cannot be obtained from %s and matches it", u, T->t);
    SX_CHECK(!f || m, "no-match", "%s does not match %s", u, T->t); (void)must;
    if (f) { has_values(T, p, u, "plain"); has_values(T, o, u, "cached"); }
    sx_class("%s", f ? "match" : splits ? "ambiguous" : "none"); mcp_json_destroy(p); mcp_json_destroy(o);
}
static void build(tmpl *T) { char *d = T->t; d += sprintf(d, "%s", T->lit[0]); for (int i = 0; i < T->n; i++) d += sprintf(d, "{%c%s}%s", 'a' + i, T->k[i]->s, T->lit[i + 1]); }
static void pick(tmpl *T, int maxn) {
    memset(T, 0, sizeof *T); T->lit[0] = L0[sx_choose(3)]; T->n = sx_choose(maxn + 1); for (int i = 0; i < T->n; i++) { T->k[i] = &K[sx_choose(NK)]; T->lit[i + 1] = i + 1 < T->n ? LI[sx_choose(4)] : sx_choose(2) ? LI[sx_choose(4)] : ""; } build(T);
}
static long l0;
static void begin(void) { mcp_template_cache_cleanup(); mcp_arena_destroy_current_thread(); mcp_thread_cache_flush(); l0 = sx_live(); mcp_arena_init_current_thread(4096); }
static void end(void) { mcp_template_cache_cleanup(); mcp_arena_destroy_current_thread(); mcp_thread_cache_flush(); SX_CHECK(sx_live() == l0, "leak", "%ld blocks are never released", sx_live() - l0); }

static void addr_run(void) {
    static const char *TOK[] = {"e://", "/", "-x", "x", "d", "7", "-", "true", "1.5"}; int nt = 9, depth = sx_thorough() ? 6 : 5; tmpl T; begin(); pick(&T, sx_thorough() ? 2 : 1); if (T.n > 1) depth = 5;
    int idx[8] = {0}, len = 0; char u[64];
    for (;;) {                                                   /* all sequences of up to depth pieces, after the text the template begins with and without it */
        u[0] = 0; for (int i = 0; i < len; i++) strcat(u, TOK[idx[i]]); address(&T, u, 0); if (*T.lit[0] && len < depth) { char w[80]; sprintf(w, "%s%s", T.lit[0], u); address(&T, w, 0); }
        int i = len - 1; while (i >= 0 && ++idx[i] == nt) idx[i--] = 0;
        if (i < 0) { if (++len > depth) break; memset(idx, 0, sizeof idx); }
    }
    end();
}
static void pair_run(void) {                                     /* templates of two parameters with all pairs of values between their texts */
    static const char *TXT[] = {"d", "7", "", "true", "x", "dx", "-", "-5", "1.5", "/", "d/7", "x/x", "+3", "2147483647", "2147483648", "-2147483648", "-2147483649", "nan", "inf", "1e2", "1e99", "TRUE", "0", "dd", "xd", "0x1f", "99999999999999999999", "-0", "é", LONGP "z", "{", "}", "%2F"}; int n = (int)(sizeof TXT / sizeof *TXT);
    tmpl T; memset(&T, 0, sizeof T); T.n = 2; T.lit[0] = L0[sx_choose(2)]; T.k[0] = &K[sx_choose(NK)]; T.lit[1] = LI[sx_choose(4)]; T.k[1] = &K[sx_choose(NK)]; T.lit[2] = sx_choose(2) ? "/" : ""; build(&T); begin();
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { char u[256]; sprintf(u, "%s%s%s%s%s", T.lit[0], TXT[i], T.lit[1], TXT[j], T.lit[2]); address(&T, u, 0); }
    end();
}
static void more_run(void) {                                     /* templates of 3 and 4 parameters: every address of texts, with something missing or left over at the end */
    static const int KS[] = {0, 1, 3, 5, 10, 12}; static const char *TXT[] = {"d", "7", "", "true", "x"}, *TAIL[] = {"", "/", "//", "x", "/x", "-x", "/7/7"};
    tmpl T; memset(&T, 0, sizeof T); T.n = 3 + sx_choose(2); T.lit[0] = "e://"; for (int i = 0; i < T.n; i++) { T.k[i] = &K[KS[sx_choose(T.n == 3 || sx_thorough() ? 6 : 3)]]; T.lit[i + 1] = i + 1 < T.n ? LI[i % 2 ? sx_choose(2) : 0] : sx_choose(2) ? "/x/" : ""; } build(&T); begin();
    int g[4] = {0}; for (;;) {
        char u[256]; int c = sprintf(u, "%s", T.lit[0]); for (int i = 0; i < T.n; i++) c += sprintf(u + c, "%s%s", TXT[g[i]], T.lit[i + 1]);
        for (int k = 0; k < 7; k++) { strcpy(u + c, TAIL[k]); address(&T, u, 0); } for (int k = 1; k < 4 && k < c; k++) { u[c - k] = 0; address(&T, u, 0); }
        int i = T.n - 1; while (i >= 0 && ++g[i] == 5) g[i--] = 0; if (i < 0) break;
    }
    end();
}
/* values given to an expansion */
enum { ABSENT, TEXT, NUM, BOOL, NUL };
typedef struct { int what; const char *s; double d; } given;
static const given G[] = {
    {ABSENT}, {TEXT, "d"}, {TEXT, "7"}, {TEXT, ""}, {TEXT, "true"}, {TEXT, "-5"}, {TEXT, "dx"}, {TEXT, "xd"}, {TEXT, "1.5"}, {TEXT, "2147483648"}, {TEXT, "nan"}, {TEXT, "1e2"}, {TEXT, "0"}, {TEXT, "x/"}, {TEXT, "-x"}, {TEXT, LONGP "z"}, {TEXT, "7 "},
    {NUM, 0, 7}, {NUM, 0, -5}, {NUM, 0, 0}, {NUM, 0, 2147483648.0}, {NUM, 0, 3000000000.0}, {NUM, 0, 123456789012345.0}, {NUM, 0, 1.5}, {NUM, 0, 0.1}, {NUM, 0, 1234567.5}, {NUM, 0, 1e300}, {NUM, 0, -2147483648.0}, {NUM, 0, 1}, {BOOL, "true", 1}, {BOOL, "false", 0}, {NUL},
};
#define NG ((int)(sizeof G / sizeof *G))
static void expand_run(void) {
    int maxn = sx_thorough() ? 3 : 2; tmpl T; memset(&T, 0, sizeof T); T.n = 1 + sx_choose(maxn); T.lit[0] = T.n < 3 ? L0[sx_choose(2)] : "e://"; for (int i = 0; i < T.n; i++) { T.k[i] = &K[sx_choose(NK)]; T.lit[i + 1] = i + 1 < T.n ? (T.n < 3 ? LI[sx_choose(2)] : "/") : sx_choose(2) ? "/" : ""; } build(&T); begin();
    int g[3] = {0}; static const int FEW[] = {0, 1, 2, 3, 4, 17, 23, 29}; int ng = T.n < 3 ? NG : 8;
    for (;;) {
        mcp_json_t *ps = mcp_json_object_create(); int fails = 0, open = 0, odd = 0; char txt[3][600], want[2048]; char *d = want; d += sprintf(d, "%s", T.lit[0]); size_t pre = 0;
        for (int i = 0; i < T.n; i++) {
            const given *v = &G[ng == NG ? g[i] : FEW[g[i]]]; const kind *k = T.k[i]; char nm[2] = {(char)('a' + i), 0};
            mcp_json_t *j = v->what == TEXT ? mcp_json_string_create(v->s) : v->what == NUM ? mcp_json_number_create(v->d) : v->what == BOOL ? mcp_json_boolean_create(v->d != 0) : v->what == NUL ? mcp_json_null_create() : NULL; if (j) mcp_json_object_set_property(ps, nm, j);
            strcpy(txt[i], v->what == TEXT || v->what == BOOL ? v->s : "");
            if (v->what == NUM) { if (v->d == floor(v->d) && fabs(v->d) < 1e15) sprintf(txt[i], "%.0f", v->d); else { odd++; pre = (size_t)(d - want); for (int p = 1; p < 18; p++) { sprintf(txt[i], "%.*g", p, v->d); if (strtod(txt[i], NULL) == v->d) break; } } }
            int given_ = v->what != ABSENT && v->what != NUL; if (!given_) { if (k->req) fails = 1; else strcpy(txt[i], k->def ? k->def : ""); }
            if (given_ && !*txt[i] && k->req) open = 1;          /* an empty value of a required parameter is refused or gives an address that does not match */
            else if (!text_ok(k, txt[i])) { if (k->type == FLT && v->what == TEXT && !strcmp(v->s, "7 ")) open = 1; else fails = 1; }
            d += sprintf(d, "%s%s", txt[i], T.lit[i + 1]);
        }
        char *u = mcp_template_expand(T.t, ps); sx_op();
        if (fails) SX_CHECK(!u, "expanded", "%s is expanded to %s with values that are missing or not allowed", T.t, u);
        else if (!open && odd < 2) {
            SX_CHECK(u, "not-expanded", "%s is not expanded to %s", T.t, want);
            if (odd && strcmp(u, want)) {                        /* another way to write the number will do if it is the same number */
                size_t ul = strlen(u), suf = 0; int i; for (i = 0; i < T.n; i++) { const given *v = &G[ng == NG ? g[i] : FEW[g[i]]]; if (v->what == NUM && !(v->d == floor(v->d) && fabs(v->d) < 1e15)) break; } suf = strlen(want) - pre - strlen(txt[i]);
                SX_CHECK(ul >= pre + suf && !strncmp(u, want, pre) && !strcmp(u + ul - suf, want + strlen(want) - suf), "expansion", "%s is expanded to %s instead of %s", T.t, u, want);
                memcpy(txt[i], u + pre, ul - pre - suf); txt[i][ul - pre - suf] = 0; SX_CHECK(strtod(txt[i], NULL) == G[ng == NG ? g[i] : FEW[g[i]]].d, "expansion", "%s is expanded to %s: the number is another", T.t, u); strcpy(want, u);
            }
            SX_CHECK(!strcmp(u, want), "expansion", "%s is expanded to %s instead of %s", T.t, u, want);
            address(&T, u, 0); if (first(&T, u)) { int same = 1; for (int i = 0; i < T.n; i++) same &= !strcmp(V[i], txt[i]); sx_class(same ? "round trip" : "values holding the text after them"); }
        }
        free(u); mcp_json_destroy(ps);
        int i = T.n - 1; while (i >= 0 && ++g[i] == ng) g[i--] = 0; if (i < 0) break;
    }
    end();
}
static void malformed_run(void) {                                /* every string as a template: the two ways agree and nothing is lost */
    static const char A[] = "{}a?:=/"; int n = sx_thorough() ? 7 : 6; char t[12]; int l = 0; static const char *U[] = {"", "/", "a", "a/", "/a", "}", "{a", "a}", "aa/a", "{", "?:="};
    l = sx_choose(n + 1); int fix = l < 3 ? l : 3; for (int i = 0; i < fix; i++) t[i] = A[sx_choose(7)]; t[l] = 0; begin();
    int idx[8] = {0}; for (;;) {
        for (int i = fix; i < l; i++) t[i] = A[idx[i]];
        for (int i = 0; i < 11; i++) { mcp_json_t *p, *o; int m = ask(t, U[i], &p, &o); sx_class("%d", m); mcp_json_destroy(p); mcp_json_destroy(o); }
        mcp_json_t *ps = mcp_json_object_create(); mcp_json_object_set_property(ps, "a", mcp_json_string_create("v")); char *u = mcp_template_expand(t, ps); sx_op(); free(u); mcp_json_destroy(ps);
        int i = l - 1; while (i >= fix && ++idx[i] == 7) idx[i--] = 0; if (i < fix) break;
    }
    end();
}
static void length_run(void) {                                   /* long values, names, patterns and literal texts */
    static const int LEN[] = {1, 22, 23, 24, 25, 100, 126, 127, 128, 230, 240, 246, 247, 254, 255, 256, 257, 1000}; begin();
    int what = sx_choose(4), len = LEN[sx_choose(18)], tail = sx_choose(2); static char t[3000], u[3000], big[1200]; memset(big, 'd', (size_t)len); big[len] = 0;
    mcp_json_t *p, *o; int m;
    if (what == 0) {                                             /* value */
        sprintf(t, "e://{a}%s", tail ? "/q" : ""); sprintf(u, "e://%s%s", big, tail ? "/q" : ""); m = ask(t, u, &p, &o); if (len < 256) SX_CHECK(m && str(mcp_json_object_get_property(p, "a")) && !strcmp(str(mcp_json_object_get_property(p, "a")), big) && str(mcp_json_object_get_property(o, "a")) && !strcmp(str(mcp_json_object_get_property(o, "a")), big), "value", "a value of %d bytes is lost", len);
        mcp_json_destroy(p); mcp_json_destroy(o); mcp_json_t *ps = mcp_json_object_create(); mcp_json_object_set_property(ps, "a", mcp_json_string_create(big)); char *x = mcp_template_expand(t, ps); SX_CHECK(x && !strcmp(x, u), "expansion", "a value of %d bytes is not put in", len); free(x); mcp_json_destroy(ps);
    } else if (what == 1) {                                      /* name */
        sprintf(t, "e://{%s%s}%s", big, sx_choose(2) ? ":int" : "", tail ? "/q" : ""); sprintf(u, "e://7%s", tail ? "/q" : ""); m = ask(t, u, &p, &o); if (len < 128) SX_CHECK(m && mcp_json_object_get_property(p, big) && mcp_json_object_get_property(o, big), "value", "a parameter with a name of %d bytes is lost", len); mcp_json_destroy(p); mcp_json_destroy(o);
        mcp_json_t *ps = mcp_json_object_create(); mcp_json_object_set_property(ps, big, mcp_json_number_create(7)); char *x = mcp_template_expand(t, ps); if (len < 128) SX_CHECK(x && !strcmp(x, u), "expansion", "a parameter with a name of %d bytes is not put in", len); free(x); mcp_json_destroy(ps);
    } else if (what == 2) {                                      /* pattern */
        int star = sx_choose(3); sprintf(t, "e://{a:pattern:%s%s%s}%s", star == 1 ? "*" : "", big, star == 2 ? "*" : "", tail ? "/q" : ""); int fits = len + 10 + (star != 0) < 256;
        for (int v = 0; v < 4; v++) {                            /* the text itself, one byte more in front, one more behind, one byte less */
            static char w[1300]; sprintf(w, "%s%s%s", v == 1 ? "z" : "", v == 3 ? big + 1 : big, v == 2 ? "z" : ""); sprintf(u, "e://%s%s", w, tail ? "/q" : ""); m = ask(t, u, &p, &o); mcp_json_destroy(p); mcp_json_destroy(o);
            int want = v == 0 || (v == 1 && star == 1) || (v == 2 && star == 2); if (fits && strlen(w) < 256 && (len > 1 || v < 3)) SX_CHECK(m == want, want ? "no-match" : "matches", "a value of %d bytes and a pattern of %d: %s", (int)strlen(w), len + (star != 0), m ? "matches" : "does not match");
        }
    } else {                                                     /* literal text */
        sprintf(t, "%s{a}%s", big, tail ? big : "/"); sprintf(u, "%sz%s", big, tail ? big : "/"); m = ask(t, u, &p, &o); SX_CHECK(m && !strcmp(str(mcp_json_object_get_property(o, "a")), "z"), "no-match", "literal text of %d bytes does not match", len); mcp_json_destroy(p); mcp_json_destroy(o);
        u[len / 2] = 'D'; m = ask(t, u, &p, &o); SX_CHECK(!m, "matches", "an address with other literal text matches"); mcp_json_destroy(p); mcp_json_destroy(o);
    }
    end();
}
static void cache_run(void) {                                    /* more templates than the cache holds, used again in every order of the last steps */
    begin(); int n = 126 + sx_choose(6); char t[40], u[40]; for (int i = 0; i < n; i++) { sprintf(t, "t%d/{a:int}", i); sprintf(u, "t%d/%d", i, i); mcp_json_t *o = mcp_template_extract_params_optimized(u, t); double d = -1; SX_CHECK(o && mcp_json_get_number(mcp_json_object_get_property(o, "a"), &d) == 0 && d == i, "value", "template %d of many gives a wrong value", i); mcp_json_destroy(o); sx_op(); }
    for (int k = 0; k < 3; k++) {
        int w = sx_choose(8), i = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? n - 1 : w == 3 ? n - 128 : w == 4 ? n - 127 : w == 5 ? n - 126 : w == 6 ? n : -1; if (i < 0) { if (w == 7) mcp_template_cache_cleanup(); continue; }
        sprintf(t, "t%d/{a:int}", i); sprintf(u, "t%d/%d", i, i); mcp_json_t *p, *o; SX_CHECK(ask(t, u, &p, &o), "no-match", "template %d does not match", i); mcp_json_destroy(p); mcp_json_destroy(o); sprintf(u, "t%d/x", i); SX_CHECK(!ask(t, u, &p, &o), "matches", "template %d matches", i);
        sprintf(u, "t%d/%d", i + 1, i); SX_CHECK(!ask(t, u, &p, &o), "matches", "template %d matches the address of another", i);
    }
    end();
}
static void memory_run(void) {                                   /* each allocation fails in turn */
    static const char *T[] = {"e://{a}/{b:int=7}", "e://{a:pattern:d*}/{b?}", "e://{a:float}/{b:bool}", "e://x"}, *U[] = {"e://d/7", "e://dx/", "e://1.5/true", "e://x"}, *W[] = {"e://d/x", "e://zz/", "e://x/true", "e://y"};
    begin(); int i = sx_choose(4), f = sx_choose(5); long k = sx_choose(40); mcp_json_t *ps = mcp_json_object_create(); mcp_json_object_set_property(ps, "a", mcp_json_string_create("1.5")); mcp_json_object_set_property(ps, "b", mcp_json_number_create(1)); if (sx_choose(2)) mcp_template_matches_optimized(U[i], T[i]);
    sx_alloc_fail(k); mcp_json_t *j = NULL; char *x = NULL;
    if (f == 0) mcp_template_matches(U[i], T[i]); else if (f == 1) mcp_template_matches_optimized(U[i], T[i]); else if (f == 2) j = mcp_template_extract_params(U[i], T[i]); else if (f == 3) j = mcp_template_extract_params_optimized(U[i], T[i]); else x = mcp_template_expand(T[i], ps);
    sx_alloc_fail(-1); sx_op();
    if (j && i < 3) SX_CHECK(mcp_json_object_get_property(j, "a") && mcp_json_object_get_property(j, "b"), "value", "values of %s are missing when memory runs out", T[i]);
    mcp_json_destroy(j); free(x); mcp_json_destroy(ps); mcp_json_t *p, *o; SX_CHECK(ask(T[i], U[i], &p, &o), "no-match", "%s does not match after memory ran out", T[i]); mcp_json_destroy(p); mcp_json_destroy(o);
    SX_CHECK(!ask(T[i], W[i], &p, &o), "matches", "%s matches %s after memory ran out", W[i], T[i]); if (i == 0) { ask(T[0], "e://d/", &p, &o); double d = 0; SX_CHECK(p && o && mcp_json_get_number(mcp_json_object_get_property(o, "b"), &d) == 0 && d == 7, "value", "the default of %s is lost after memory ran out", T[0]); mcp_json_destroy(p); mcp_json_destroy(o); }
    end();
}
static const sx_scenario SC[] = {
    {"addresses", NULL, addr_run, 0, "templates of up to 1 (thorough: 2) parameters, every address of up to 5 (6) pieces"},
    {"pairs", NULL, pair_run, 0, "templates of 2 parameters, every pair of texts"},
    {"more", NULL, more_run, 0, "templates of 3 and 4 parameters, every tuple of texts, cut short and continued"},
    {"expand", NULL, expand_run, 0, "templates of up to 2 (3) parameters, every tuple of given values, expanded and read back"},
    {"malformed", NULL, malformed_run, 0, "every string of up to 6 (7) bytes of the template syntax as a template"},
    {"lengths", NULL, length_run, 0, "long values, names, patterns and literal texts"},
    {"cache", NULL, cache_run, 0, "up to 131 templates, then 3 more uses"},
    {"memory", NULL, memory_run, 0, "every allocation fails in turn"},
};
int main(int argc, char **argv) { return sx_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
