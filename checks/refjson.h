/* A plain strict JSON (RFC 8259) reader used as reference. Trees live in a bump buffer. */
#ifndef REFJSON_H
#define REFJSON_H
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <math.h>

typedef struct rj {
    char t;                 /* n t f # s a o */
    double n;
    char *s; size_t sl;
    int cnt;
    struct rj **it;
    char **key;
} rj;
enum { RJ_RAWCTL = 1, RJ_NUL = 2, RJ_LONE = 4, RJ_DEEP = 8, RJ_DUP = 16, RJ_UTF8 = 32 };
static char rj_buf[1 << 20];
static size_t rj_used;
static int rj_flags, rj_depth;
static const char *rj_p, *rj_end;
static void *rj_alloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (rj_used + n > sizeof rj_buf) { fprintf(stderr, "refjson: out of space\n"); abort(); }
    void *p = rj_buf + rj_used; rj_used += n; return p;
}
static int rj_c(void) { return rj_p < rj_end ? (unsigned char)*rj_p : -1; }
static void rj_ws(void) { while (rj_c() == ' ' || rj_c() == '\t' || rj_c() == '\n' || rj_c() == '\r') rj_p++; }
static int rj_hex4(unsigned *out) {
    unsigned v = 0;
    for (int i = 0; i < 4; i++) {
        int c = rj_c(), d;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else return 0;
        v = v * 16 + (unsigned)d; rj_p++;
    }
    *out = v; return 1;
}
static size_t rj_utf8(char *o, unsigned c) {
    if (c < 0x80) { o[0] = (char)c; return 1; }
    if (c < 0x800) { o[0] = (char)(0xc0 | c >> 6); o[1] = (char)(0x80 | (c & 63)); return 2; }
    if (c < 0x10000) { o[0] = (char)(0xe0 | c >> 12); o[1] = (char)(0x80 | (c >> 6 & 63)); o[2] = (char)(0x80 | (c & 63)); return 3; }
    o[0] = (char)(0xf0 | c >> 18); o[1] = (char)(0x80 | (c >> 12 & 63)); o[2] = (char)(0x80 | (c >> 6 & 63)); o[3] = (char)(0x80 | (c & 63)); return 4;
}
static int rj_str(char **s, size_t *sl) {
    if (rj_c() != '"') return 0;
    rj_p++;
    const char *q = rj_p;
    while (q < rj_end && *q != '"') q += *q == '\\' && q + 1 < rj_end ? 2 : 1;
    char *o = rj_alloc((size_t)(q - rj_p) + 8); size_t n = 0;
    for (;;) {
        int c = rj_c();
        if (c < 0) return 0;
        if (c == '"') { rj_p++; break; }
        if (c < 32) {
            if (c == '\t' || c == '\n' || c == '\r' || c == '\b' || c == '\f') rj_flags |= RJ_RAWCTL;
            else return 0;
        }
        if (c != '\\') { if (c >= 128) rj_flags |= RJ_UTF8; o[n++] = (char)c; rj_p++; continue; }
        rj_p++;
        c = rj_c(); rj_p++;
        switch (c) {
        case '"': case '\\': case '/': o[n++] = (char)c; break;
        case 'b': o[n++] = '\b'; break;
        case 'f': o[n++] = '\f'; break;
        case 'n': o[n++] = '\n'; break;
        case 'r': o[n++] = '\r'; break;
        case 't': o[n++] = '\t'; break;
        case 'u': {
            unsigned u, l;
            if (!rj_hex4(&u)) return 0;
            if (u >= 0xd800 && u < 0xdc00) {
                const char *save = rj_p;
                if (rj_c() == '\\' && rj_p + 1 < rj_end && rj_p[1] == 'u') {
                    rj_p += 2;
                    if (!rj_hex4(&l)) return 0;
                    if (l >= 0xdc00 && l < 0xe000) { n += rj_utf8(o + n, 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00)); break; }
                    rj_p = save;
                }
                rj_flags |= RJ_LONE;
            } else if (u >= 0xdc00 && u < 0xe000) rj_flags |= RJ_LONE;
            if (!u) rj_flags |= RJ_NUL;
            n += rj_utf8(o + n, u);
            break;
        }
        default: return 0;
        }
    }
    o[n] = 0; *s = o; *sl = n;
    return 1;
}
static rj *rj_value(int depth);
static rj *rj_container(int depth, int close) {
    rj *v = rj_alloc(sizeof *v); memset(v, 0, sizeof *v);
    v->t = close == ']' ? 'a' : 'o';
    rj_p++;
    int cap = 8;
    v->it = rj_alloc((size_t)cap * sizeof *v->it); v->key = rj_alloc((size_t)cap * sizeof *v->key);
    rj_ws();
    if (rj_c() == close) { rj_p++; return v; }
    for (;;) {
        char *k = NULL; size_t kl = 0;
        rj_ws();
        if (close == '}') {
            if (!rj_str(&k, &kl)) return NULL;
            rj_ws();
            if (rj_c() != ':') return NULL;
            rj_p++;
        }
        rj *e = rj_value(depth + 1);
        if (!e) return NULL;
        int at = -1;
        if (k) for (int i = 0; i < v->cnt; i++) if (!strcmp(v->key[i], k)) { at = i; rj_flags |= RJ_DUP; }
        if (at < 0) {
            if (v->cnt == cap) {
                rj **ni = rj_alloc((size_t)cap * 2 * sizeof *ni); char **nk = rj_alloc((size_t)cap * 2 * sizeof *nk);
                memcpy(ni, v->it, (size_t)cap * sizeof *ni); memcpy(nk, v->key, (size_t)cap * sizeof *nk);
                v->it = ni; v->key = nk; cap *= 2;
            }
            at = v->cnt++;
        }
        v->it[at] = e; v->key[at] = k;
        rj_ws();
        if (rj_c() == close) { rj_p++; return v; }
        if (rj_c() != ',') return NULL;
        rj_p++;
    }
}
static rj *rj_value(int depth) {
    rj_ws();
    if (depth > 3000) { rj_flags |= RJ_DEEP; return NULL; }
    if (depth > rj_depth) rj_depth = depth;
    int c = rj_c();
    size_t left = (size_t)(rj_end - rj_p);
    rj *v;
    if (c == '{') return rj_container(depth, '}');
    if (c == '[') return rj_container(depth, ']');
    v = rj_alloc(sizeof *v); memset(v, 0, sizeof *v);
    if (c == '"') { v->t = 's'; return rj_str(&v->s, &v->sl) ? v : NULL; }
    if (left >= 4 && !memcmp(rj_p, "null", 4)) { v->t = 'n'; rj_p += 4; return v; }
    if (left >= 4 && !memcmp(rj_p, "true", 4)) { v->t = 't'; rj_p += 4; return v; }
    if (left >= 5 && !memcmp(rj_p, "false", 5)) { v->t = 'f'; rj_p += 5; return v; }
    const char *st = rj_p;
    if (rj_c() == '-') rj_p++;
    if (rj_c() == '0') rj_p++;
    else if (rj_c() >= '1' && rj_c() <= '9') while (rj_c() >= '0' && rj_c() <= '9') rj_p++;
    else return NULL;
    if (rj_c() == '.') {
        rj_p++;
        if (rj_c() < '0' || rj_c() > '9') return NULL;
        while (rj_c() >= '0' && rj_c() <= '9') rj_p++;
    }
    if (rj_c() == 'e' || rj_c() == 'E') {
        rj_p++;
        if (rj_c() == '+' || rj_c() == '-') rj_p++;
        if (rj_c() < '0' || rj_c() > '9') return NULL;
        while (rj_c() >= '0' && rj_c() <= '9') rj_p++;
    }
    char num[512];
    size_t nl = (size_t)(rj_p - st);
    if (nl >= sizeof num) { fprintf(stderr, "refjson: number too long\n"); abort(); }
    memcpy(num, st, nl); num[nl] = 0;
    v->t = '#'; v->n = strtod(num, NULL);
    return v;
}
/* NULL when the text is not well-formed; rj_flags tells what it used */
static rj *rj_parse_n(const char *text, size_t len, int keep) {
    if (!keep) rj_used = 0;
    rj_flags = 0; rj_depth = 0;
    rj_p = text; rj_end = text + len;
    rj *v = rj_value(0);
    if (!v) return NULL;
    rj_ws();
    return rj_p == rj_end ? v : NULL;
}
__attribute__((unused)) static rj *rj_parse(const char *t) { return rj_parse_n(t, strlen(t), 0); }
__attribute__((unused)) static rj *rj_parse_keep(const char *t) { return rj_parse_n(t, strlen(t), 1); }
__attribute__((unused)) static rj *rj_get(rj *o, const char *k) {
    if (!o || o->t != 'o') return NULL;
    for (int i = 0; i < o->cnt; i++) if (!strcmp(o->key[i], k)) return o->it[i];
    return NULL;
}
__attribute__((unused)) static int rj_same(rj *a, rj *b) {
    if (a->t != b->t) return 0;
    switch (a->t) {
    case '#': return a->n == b->n;
    case 's': return a->sl == b->sl && !memcmp(a->s, b->s, a->sl);
    case 'a':
        if (a->cnt != b->cnt) return 0;
        for (int i = 0; i < a->cnt; i++) if (!rj_same(a->it[i], b->it[i])) return 0;
        return 1;
    case 'o':
        if (a->cnt != b->cnt) return 0;
        for (int i = 0; i < a->cnt; i++) { rj *x = rj_get(b, a->key[i]); if (!x || !rj_same(a->it[i], x)) return 0; }
        return 1;
    }
    return 1;
}
#ifdef MCP_JSON_H
#define RJ_HAVE_MCP
#endif
#endif
