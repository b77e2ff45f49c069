/* J01: the parser against a strict reference reader, on every text of several finite languages. */
#include "seqx.h"
#include "refjson_mcp.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"

static void judge_n(const char *text, size_t n) {
    rj *ref = rj_parse_n(text, n, 0);
    int fl = rj_flags, depth = rj_depth;
    char *copy = malloc(n + 1);          /* exact size: any read past the end is caught */
    memcpy(copy, text, n); copy[n] = 0;
    sx_op();
    long live = sx_live();
    mcp_arena_init_current_thread(512);
    mcp_json_t *j = mcp_json_parse(copy);
    if (!ref) {
        SX_CHECK(!j, "accepted-malformed", "malformed text accepted: %s", text);
    } else if (fl & RJ_NUL) {
        /* a NUL cannot be represented: refused, never cut off */
        SX_CHECK(!j, "nul", "text with an escaped NUL accepted although its value cannot be represented: %s", text);
    } else if (fl & RJ_RAWCTL) {
        if (j) { const char *d = rj_diff(ref, j); SX_CHECK(!d, "wrong-value", "%s: %s", d, text); }
    } else if (fl & RJ_LONE) {
        /* no defined value: anything but a crash or leak */
    } else if (depth > 100) {
        SX_CHECK(!j || depth <= 101, "depth", "nesting of %d accepted", depth);
    } else {
        SX_CHECK(j, "rejected-wellformed", "well-formed text rejected: %s", text);
        const char *d = rj_diff(ref, j);
        SX_CHECK(!d, "wrong-value", "%s: %s", d, text);
    }
    sx_class("%s", j ? "accepted" : "rejected");
    if (j) mcp_json_destroy(j);
    mcp_arena_destroy_current_thread();
    SX_CHECK(sx_live() <= live, j ? "leak-accepted" : "leak-rejected", "%ld blocks not released after %s: %s", sx_live() - live, j ? "destroying the value" : "rejecting the text", text);
    free(copy);
}
static void judge(const char *t) { sx_note("%s", t); judge_n(t, strlen(t)); }
static void setup(void) { mcp_arena_init_current_thread(512); mcp_arena_destroy_current_thread(); }

static char buf[1 << 18];
static void tokens_run(void) {
    static const char *T[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "true", " ", "null"};
    int n = sx_choose((sx_thorough() ? 7 : 6) + 1);
    buf[0] = 0;
    for (int i = 0; i < n; i++) strcat(buf, T[sx_choose(12)]);
    judge(buf);
}
/* longer documents: everything reachable by the grammar with at most one token off */
static int gen_budget;
static void gen(int depth) {
    int k = sx_choose(depth && gen_budget > 0 ? 6 : 4);
    gen_budget--;
    switch (k) {
    case 0: strcat(buf, "0"); return;
    case 1: strcat(buf, "\"x\""); return;
    case 2: strcat(buf, "[]"); return;
    case 3: strcat(buf, "{}"); return;
    case 4: {
        int n = 1 + sx_choose(2);
        strcat(buf, "[");
        for (int i = 0; i < n; i++) { if (i) strcat(buf, ","); gen(depth - 1); }
        strcat(buf, "]");
        return;
    }
    default: {
        int n = 1 + sx_choose(2);
        strcat(buf, "{");
        for (int i = 0; i < n; i++) {
            if (i) strcat(buf, ",");
            strcat(buf, i && sx_choose(2) ? "\"k\":" : i ? "\"l\":" : "\"k\":");
            gen(depth - 1);
        }
        strcat(buf, "}");
    }
    }
}
static void grammar_run(void) {
    buf[0] = 0; gen_budget = sx_thorough() ? 6 : 5;
    gen(3);
    int n = (int)strlen(buf);
    /* unchanged, or one character removed, or doubled */
    int m = sx_choose(2 * n + 1);
    if (m) {
        int at = (m - 1) / 2;
        if (m & 1) memmove(buf + at, buf + at + 1, (size_t)(n - at));
        else { memmove(buf + at + 1, buf + at, (size_t)(n - at + 1)); }
    }
    judge(buf);
}
static void numbers_run(void) {
    static const char A[] = "01-.e9+E";
    int n = 1 + sx_choose(sx_thorough() ? 8 : 6);
    int ctx = sx_choose(2);
    char *o = buf;
    if (ctx) *o++ = '[';
    for (int i = 0; i < n; i++) *o++ = A[sx_choose(8)];
    if (ctx) *o++ = ']';
    *o = 0;
    judge(buf);
}
static void bignum_run(void) {
    static const char *N[] = {"9007199254740993", "0.1", "1e308", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "-1e309", "5e-324", "2e-324", "1e-400", "123456789012345678901234567890", "-0", "-0.0", "0e0", "0.30000000000000004", "4.35", "100000000000000000000000000000000000000000000000000", "1E+2", "1e-2", "2147483648", "-2147483649", "4294967296", "1.00000000000000000000000000000000000000000000000000000001"};
    int i = sx_choose(23), w = sx_choose(3);
    snprintf(buf, sizeof buf, w == 0 ? "%s" : w == 1 ? "{\"a\":%s,\"b\":[%s]}" : " %s ", N[i], N[i]);
    judge(buf);
}
static void strings_run(void) {
    static const char *A[] = {"a", "\\", "\"", "u", "0", "d8", "n", "/", "\xc3\xa9", "\x01", "\n", "\\\"", "\x7f"};
    int n = sx_choose((sx_thorough() ? 6 : 5) + 1);
    int ctx = sx_choose(2);
    strcpy(buf, ctx ? "{\"" : "\"");
    for (int i = 0; i < n; i++) strcat(buf, A[sx_choose(13)]);
    strcat(buf, ctx ? "\":1}" : "\"");
    judge(buf);
}
/* every \uXXXX, in both cases, also after and before other text */
static void unicode_run(void) {
    int hi = sx_choose(256), up = sx_choose(2);
    for (int lo = 0; lo < 256; lo++) {
        snprintf(buf, sizeof buf, up ? "\"x\\u%04Xy\"" : "[\"\\u%04x\"]", hi << 8 | lo);
        judge(buf);
    }
}
static void surrogates_run(void) {
    static const unsigned H[] = {0xd800, 0xd801, 0xd83d, 0xdb7f, 0xdbff};
    int hi = sx_choose(5), lo = sx_choose(64);
    for (int k = 0; k < 16; k++) {
        unsigned l = 0xdc00 + (unsigned)lo * 16 + (unsigned)k;
        snprintf(buf, sizeof buf, "\"\\u%04x\\u%04X\"", H[hi], l); judge(buf);
        snprintf(buf, sizeof buf, "{\"\\u%04x\\u%04x\":\"z\\u%04x\\u%04xz\"}", H[hi], l, H[hi], l); judge(buf);
        snprintf(buf, sizeof buf, "\"\\u%04x\\u%04x\"", l, H[hi]); judge(buf);
        snprintf(buf, sizeof buf, "\"\\u%04xx\"", l); judge(buf);
        snprintf(buf, sizeof buf, "\"\\u%04x\\n\\u%04x\"", H[hi], l); judge(buf);
        snprintf(buf, sizeof buf, "\"\\u%04x\\u%04", H[hi], l); judge(buf);
        snprintf(buf, sizeof buf, "\"\\u%04x\\u%02x\"", H[hi], l & 0xff); judge(buf);
    }
}
/* every single-byte change of typical documents */
static void bytes_run(void) {
    static const char *D[] = {
        "{\"jsonrpc\":\"2.0\",\"id\":12,\"method\":\"ping\"}",
        "[1,-2.5e+3,true,false,null,\"\\u00e9\\\\\"]",
        " { \"a\" : [ { } , [ ] ] , \"b\" : \"\\\"\" } ",
        "\"tab\\t\"", "-0", "[[],[[]]]", "{\"a\":{\"b\":{\"c\":0}}}", "nul", "tru", "falsee", "truefalse", "{\"a\":1,\"a\":[2]}"};
    int d = sx_choose(12);
    int n = (int)strlen(D[d]);
    int pos = sx_choose(n + 1), mode = sx_choose(3);
    for (int b = 1; b < 256; b++) {
        if (mode == 0) { strcpy(buf, D[d]); if (pos < n) buf[pos] = (char)b; else { buf[n] = (char)b; buf[n + 1] = 0; } }
        else if (mode == 1) { memcpy(buf, D[d], (size_t)pos); buf[pos] = (char)b; strcpy(buf + pos + 1, D[d] + pos); }
        else { memcpy(buf, D[d], (size_t)pos); buf[pos] = 0; if (b > 1) break; }   /* cut off */
        judge(buf);
    }
}
static void depth_run(void) {
    static const int N[] = {1, 2, 50, 99, 100, 101, 102, 103, 150, 1000, 2500, 20000};
    int n = N[sx_choose(12)], kind = sx_choose(4), closed = sx_choose(2);
    char *o = buf;
    for (int i = 0; i < n; i++) { int obj = kind == 1 || (kind == 2 && i % 2) || (kind == 3 && i % 3 == 0); if (obj) { memcpy(o, "{\"\":", 4); o += 4; } else *o++ = '['; }
    if (kind == 1 || (kind == 2 && (n - 1) % 2) || (kind == 3 && (n - 1) % 3 == 0)) *o++ = '1';
    if (closed) for (int i = n - 1; i >= 0; i--) { int obj = kind == 1 || (kind == 2 && i % 2) || (kind == 3 && i % 3 == 0); *o++ = obj ? '}' : ']'; }
    *o = 0;
    sx_note("nesting %d kind %d %s", n, kind, closed ? "closed" : "open");
    if (n > 2500) {
        mcp_arena_init_current_thread(4096);
        mcp_json_t *j = mcp_json_parse(buf);
        SX_CHECK(!j, "depth", "nesting of %d accepted", n);
        mcp_arena_destroy_current_thread();
        sx_op();
        return;
    }
    judge_n(buf, (size_t)(o - buf));
}
/* growth of string, array and object storage */
static void sizes_run(void) {
    int kind = sx_choose(5), n = sx_choose(140);
    char *o = buf;
    static const char *E[] = {"\\n", "\\u00e9", "\\u20ac", "\\ud83d\\ude00", "q"};
    if (kind < 2) {
        int e = sx_choose(5), rep = sx_choose(2);
        *o++ = '"';
        if (kind == 0) { for (int i = 0; i < n; i++) *o++ = (char)('a' + i % 26); }
        for (int i = 0; i < (rep ? n + 1 : 1); i++) { strcpy(o, E[e]); o += strlen(o); }
        if (kind == 1) { for (int i = 0; i < n; i++) *o++ = (char)('a' + i % 26); }
        *o++ = '"'; *o = 0;
    } else {
        *o++ = kind == 2 ? '[' : '{';
        for (int i = 0; i < n; i++) {
            if (i) *o++ = ',';
            o += sprintf(o, kind == 2 ? "%d" : kind == 3 ? "\"k%d\":%d" : "\"k%d\":{\"z\":\"%d\"}", i, i);
        }
        *o++ = kind == 2 ? ']' : '}'; *o = 0;
    }
    judge(buf);
}
static void oom_run(void) {
    static const char *D[] = {"{\"a\":\"b\",\"c\":[1,\"two\",{\"d\":null}],\"e\":{\"f\":[]}}", "[\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\",[[\"b\"]]]", "{\"x\":1,\"x\":\"2\",\"x\":[3]}"};
    int d = sx_choose(3), k = sx_choose(60);
    sx_note("%s with allocation %d failing", D[d], k);
    rj *ref = rj_parse(D[d]);
    long live = sx_live();
    mcp_arena_init_current_thread(256);
    sx_alloc_fail(k);
    mcp_json_t *j = mcp_json_parse(D[d]);
    sx_alloc_fail(-1);
    sx_op();
    if (j) { const char *df = rj_diff(ref, j); SX_CHECK(!df, "wrong-value", "%s after a failed allocation: %s", df, D[d]); mcp_json_destroy(j); }
    mcp_arena_destroy_current_thread();
    SX_CHECK(sx_live() <= live, "leak-oom", "%ld blocks leaked when allocation %d fails", sx_live() - live, k);
    sx_class("oom %s", j ? "accepted" : "rejected");
}
static const sx_scenario S[] = {
    {"tokens", setup, tokens_run, 0, "all sequences of up to 6 (quick) of 12 tokens"},
    {"grammar", setup, grammar_run, 0, "all derivations with up to 5 values and depth 3, intact or with any one character removed or doubled"},
    {"numbers", setup, numbers_run, 0, "all number texts up to 6 characters"},
    {"bignum", setup, bignum_run, 0, "extreme and precision-critical numbers"},
    {"strings", setup, strings_run, 0, "all strings of up to 5 of 13 pieces incl. escapes, as value and key"},
    {"unicode", setup, unicode_run, 0, "every four-digit escape"},
    {"surrogates", setup, surrogates_run, 0, "surrogate pairs: 5 high by all 1024 low, swapped, lone, cut"},
    {"bytes", setup, bytes_run, 0, "every one-byte replacement, insertion and cut of typical documents"},
    {"depth", setup, depth_run, 0, "nesting around and far beyond the limit"},
    {"sizes", setup, sizes_run, 0, "strings, arrays and objects of every size up to 140"},
    {"oom", setup, oom_run, 0, "every allocation failing in turn"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
