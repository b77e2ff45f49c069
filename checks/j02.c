/* J02: building values through the interface, writing them, reading them back. */
#include "seqx.h"
#include "refjson_mcp.h"
#include "mcp_json_utils.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"

static rj *mk(char t) { rj *v = rj_alloc(sizeof *v); memset(v, 0, sizeof *v); v->t = t; return v; }
static rj *mks(const char *s) { rj *v = mk('s'); v->sl = strlen(s); v->s = rj_alloc(v->sl + 1); memcpy(v->s, s, v->sl + 1); return v; }
static rj *mkn(double d) { rj *v = mk('#'); v->n = d; return v; }
static rj *mkc(char t, int cap) { rj *v = mk(t); v->it = rj_alloc((size_t)cap * sizeof(rj *) + 1); v->key = rj_alloc((size_t)cap * sizeof(char *) + 1); return v; }
static void mput(rj *o, const char *k, rj *e) {
    for (int i = 0; i < o->cnt; i++) if (k && !strcmp(o->key[i], k)) { o->it[i] = e; return; }
    if (k) { o->key[o->cnt] = rj_alloc(strlen(k) + 1); strcpy(o->key[o->cnt], k); }
    o->it[o->cnt++] = e;
}
static long live0;
static void begin(void) { rj_used = 0; live0 = sx_live(); mcp_arena_init_current_thread(1024); }
static void end(mcp_json_t *j) {
    mcp_json_destroy(j);
    mcp_arena_destroy_current_thread();
    SX_CHECK(sx_live() <= live0, "leak", "%ld blocks not released after destroying the value", sx_live() - live0);
}
/* j is worth ref; the written text is worth ref, for the reference and for the library's own reader */
static void judge_text(rj *ref, char *t, const char *how) {
    SX_CHECK(t, "write-failed", "%s returned nothing", how);
    sx_op();
    size_t n = strlen(t);
    rj *back = rj_parse_n(t, n, 1);
    SX_CHECK(back && !(rj_flags & (RJ_RAWCTL | RJ_NUL | RJ_DUP)), "malformed", "%s wrote malformed JSON: %.300s", how, t);
    SX_CHECK(rj_same(ref, back), "wrong-text", "%s wrote another value: %.300s", how, t);
    char *copy = malloc(n + 1); memcpy(copy, t, n + 1);
    mcp_json_t *j2 = mcp_json_parse(copy);
    SX_CHECK(j2, "not-readable", "the parser rejects what %s wrote: %.300s", how, t);
    const char *d = rj_diff(ref, j2);
    SX_CHECK(!d, "wrong-readback", "%s after writing and reading: %.300s", d, t);
    mcp_json_destroy(j2);
    free(copy); free(t);
}
static void judge(rj *ref, const mcp_json_t *j) {
    const char *d = rj_diff(ref, j);
    SX_CHECK(!d, "wrong-value", "the built value differs: %s", d);
    judge_text(ref, mcp_json_stringify(j), "stringify");
}
static rj *R; static mcp_json_t *J;
static void scalar(int k) {
    switch (k) {
    case 0: R = mk('n'); J = mcp_json_null_create(); break;
    case 1: R = mk('t'); J = mcp_json_boolean_create(true); break;
    case 2: R = mk('f'); J = mcp_json_boolean_create(false); break;
    case 3: R = mkn(-1.5); J = mcp_json_number_create(-1.5); break;
    case 4: R = mks(""); J = mcp_json_string_create(""); break;
    default: R = mks("a\"\\\n\x01\xc3\xa9/"); J = mcp_json_string_create("a\"\\\n\x01\xc3\xa9/"); break;
    }
    SX_CHECK(J, "create-failed", "a scalar could not be created");
}
static int budget;
static void build(int depth) {
    static const char *K[] = {"", "k", "\"q\\", "\t\x1f"};
    int n = 6 + (depth > 0 ? 2 : 0);
    int k = sx_choose(n);
    if (k < 6) { scalar(k); return; }
    int cnt = sx_choose((budget < 3 ? budget : 3) + 1);
    budget -= cnt;
    rj *r = mkc(k == 6 ? 'a' : 'o', 4);
    mcp_json_t *j = k == 6 ? mcp_json_array_create_with_capacity((size_t)(cnt > 1)) : mcp_json_object_create();
    SX_CHECK(j, "create-failed", "a container could not be created");
    int base = k == 7 && cnt ? sx_choose(4) : 0;
    for (int i = 0; i < cnt; i++) {
        build(depth - 1);
        if (k == 6) { SX_CHECK(mcp_json_array_add_item(j, J) == 0, "add", "append failed"); mput(r, NULL, R); }
        else { const char *key = K[(base + i) % 4]; SX_CHECK(mcp_json_object_set_property(j, key, J) == 0, "set", "setting a property failed"); mput(r, key, R); }
    }
    R = r; J = j;
}
static void trees_run(void) {
    begin();
    budget = sx_thorough() ? 6 : 5;
    build(4);
    mcp_json_t *j = J; rj *r = R;
    judge(r, j);
    end(j);
}
static void text_case(const char *s) {
    begin();
    rj *r = mks(s); mcp_json_t *j = mcp_json_string_create(s);
    SX_CHECK(j, "create-failed", "string not created");
    judge(r, j);
    judge_text(r, mcp_json_format_string(s), "format_string");
    /* as a property name */
    rj *o = mkc('o', 1); mput(o, s, mk('n'));
    mcp_json_t *jo = mcp_json_object_create();
    SX_CHECK(mcp_json_object_set_property(jo, s, mcp_json_null_create()) == 0, "set", "setting a property failed");
    judge(o, jo);
    mcp_json_destroy(jo);
    /* the escaping helper, into buffers of every size */
    int need = mcp_json_escape_string(s, NULL, 0);
    SX_CHECK(need > 0, "escape", "no size for the escaped text");
    for (int n = 1; n <= need + 1 && need < 16; n++) {
        char *b = malloc((size_t)n);
        int got = mcp_json_escape_string(s, b, (size_t)n);
        SX_CHECK(got == need, "escape", "size needed changes from %d to %d with a buffer of %d", need, got, n);
        SX_CHECK(memchr(b, 0, (size_t)n), "escape", "no terminator in a buffer of %d", n);
        if (n >= need) {
            SX_CHECK((int)strlen(b) + 1 == need, "escape", "size %d announced, %zu used", need, strlen(b) + 1);
            char q[64]; snprintf(q, sizeof q, "\"%s\"", b);
            rj *back = rj_parse_n(q, strlen(q), 1);
            SX_CHECK(back && rj_same(back, r), "escape", "escaped text is worth another string: %s", q);
        }
        free(b);
    }
    end(j);
}
static void ascii_run(void) {
    char s[4] = {0};
    s[0] = (char)(1 + sx_choose(127));
    for (int b = 0; b < 128; b++) { s[1] = (char)b; s[2] = b ? '"' : 0; text_case(s); s[2] = 0; text_case(s); }
    sx_note("two-byte texts starting %02x", (unsigned char)s[0]);
}
static void unicode_run(void) {
    int hi = sx_choose(0x110);
    for (unsigned lo = 0; lo < 0x1000; lo++) {
        unsigned c = (unsigned)hi << 12 | lo;
        if (c == 0 || (c >= 0xd800 && c < 0xe000)) continue;
        char s[8] = {0}; rj_utf8(s, c);
        begin();
        rj *r = mks(s); mcp_json_t *j = mcp_json_string_create(s);
        judge(r, j); end(j);
    }
    sx_note("code points %x000..", hi);
}
static void number_case(double d) {
    begin();
    mcp_json_t *j = mcp_json_number_create(d);
    judge(mkn(d), j);
    end(j);
}
static void numbers_run(void) {
    int e = sx_choose(2047);           /* every exponent */
    static const uint64_t M[] = {0, 1, 2, 0x8000000000000ULL, 0xfffffffffffffULL, 0x999999999999aULL, 0x5555555555555ULL, 0x123456789abcdULL};
    for (int i = 0; i < 8; i++) for (int s = 0; s < 2; s++) {
        uint64_t b = (uint64_t)s << 63 | (uint64_t)e << 52 | M[i]; double d; memcpy(&d, &b, 8);
        number_case(d);
    }
    sx_note("doubles of exponent %d", e);
}
static void decimals_run(void) {
    int digits = sx_choose(20), k = sx_choose(5), neg = sx_choose(2), scale = sx_choose(25);
    double p = 1; for (int i = 0; i < digits; i++) p *= 10;
    double d = p + (k - 2); if (neg) d = -d;
    double q = 1; for (int i = 0; i < scale; i++) q *= 10;
    number_case(d); number_case(d / q);
}
static void nonfinite_run(void) {
    double d = sx_choose(3); d = d == 0 ? NAN : d == 1 ? INFINITY : -INFINITY;
    begin();
    mcp_json_t *j = mcp_json_array_create();
    mcp_json_array_add_item(j, mcp_json_number_create(d));
    char *t = mcp_json_stringify(j);
    sx_op();
    SX_CHECK(!t || rj_parse_n(t, strlen(t), 1), "malformed", "a number that JSON cannot express is written as malformed JSON: %s", t);
    free(t);
    end(j);
}
/* all sequences of operations on one object and one array, against a map and a sequence */
static void ops_run(void) {
    static const char *K[] = {"a", "b", ""};
    begin();
    rj *ro = mkc('o', 16), *ra = mkc('a', 16);
    mcp_json_t *o = mcp_json_object_create(), *a = mcp_json_array_create();
    char note[256]; int nl = 0; note[0] = 0;
    int n = sx_thorough() ? 6 : 5;
    for (int i = 0; i < n; i++) {
        int op = sx_choose(4);
        if (op == 0) {
            int k = sx_choose(3), v = sx_choose(3);
            nl += snprintf(note + nl, sizeof note - (size_t)nl, "set %s %d; ", K[k], v);
            if (v == 0) scalar(3); else if (v == 1) scalar(5);
            else { J = mcp_json_array_create(); R = mkc('a', 1); mcp_json_array_add_item(J, mcp_json_string_create("deep")); mput(R, NULL, mks("deep")); }
            SX_CHECK(mcp_json_object_set_property(o, K[k], J) == 0, "set", "setting a property failed");
            mput(ro, K[k], R);
        } else if (op == 1) {
            int k = sx_choose(3), had = rj_get(ro, K[k]) != NULL;
            nl += snprintf(note + nl, sizeof note - (size_t)nl, "delete %s; ", K[k]);
            int r = mcp_json_object_delete_property(o, K[k]);
            SX_CHECK((r == 0) == had, "delete", "deleting a property that is%s there returned %d", had ? "" : " not", r);
            for (int q = 0; q < ro->cnt; q++) if (!strcmp(ro->key[q], K[k])) { ro->cnt--; ro->it[q] = ro->it[ro->cnt]; ro->key[q] = ro->key[ro->cnt]; break; }
        } else if (op == 2) {
            int v = sx_choose(2); scalar(v ? 5 : 2);
            nl += snprintf(note + nl, sizeof note - (size_t)nl, "append %d; ", v);
            SX_CHECK(mcp_json_array_add_item(a, J) == 0, "add", "append failed");
            mput(ra, NULL, R);
        } else {
            if (i != n - 1) break;     /* end early */
            break;
        }
        sx_note("%s", note);
        for (int k = 0; k < 3; k++)
            SX_CHECK(mcp_json_object_has_property(o, K[k]) == (rj_get(ro, K[k]) != NULL), "has", "property %s", K[k]);
        SX_CHECK((int)mcp_json_object_size(o) == ro->cnt, "size", "object size");
        const char *d = rj_diff(ro, o); SX_CHECK(!d, "wrong-value", "object: %s", d);
        d = rj_diff(ra, a); SX_CHECK(!d, "wrong-value", "array: %s", d);
        SX_CHECK(!mcp_json_array_get_item(a, -1), "range", "item -1");
    }
    judge(ro, o); judge(ra, a);
    SX_CHECK(mcp_json_object_set_property(a, "x", o) != 0 && mcp_json_array_add_item(o, a) != 0, "type", "operation on the wrong kind accepted");
    mcp_json_destroy(a);
    end(o);
}
/* every size up to growth thresholds, with every initial capacity class */
static void sizes_run(void) {
    int kind = sx_choose(5), n = sx_choose(sx_thorough() ? 700 : 300), cap = sx_choose(3);
    static const size_t C[] = {0, 1, 64};
    begin();
    rj *r; mcp_json_t *j; char buf[4096];
    if (kind == 0) {
        r = mkc('a', n + 1); j = mcp_json_array_create_with_capacity(C[cap]);
        for (int i = 0; i < n; i++) { mcp_json_array_add_item(j, mcp_json_number_create(i)); mput(r, NULL, mkn(i)); }
    } else if (kind == 1) {
        r = mkc('o', n + 1); j = mcp_json_object_create_with_capacity(C[cap]);
        for (int i = 0; i < n; i++) { snprintf(buf, sizeof buf, "k%d", i); SX_CHECK(mcp_json_object_set_property(j, buf, mcp_json_number_create(i)) == 0, "set", "setting property %d failed", i); mput(r, buf, mkn(i)); }
        /* delete every third */
        for (int i = 0; i < n; i += 3) {
            snprintf(buf, sizeof buf, "k%d", i);
            SX_CHECK(mcp_json_object_delete_property(j, buf) == 0, "delete", "deleting property %d failed", i);
            for (int q = 0; q < r->cnt; q++) if (!strcmp(r->key[q], buf)) { r->cnt--; r->it[q] = r->it[r->cnt]; r->key[q] = r->key[r->cnt]; break; }
        }
    } else {
        for (int i = 0; i < n; i++) buf[i] = kind == 2 ? (char)('a' + i % 26) : kind == 4 ? '\x02' : i % 2 ? '\x02' : '"';
        buf[n] = 0;
        int rep = 1 + cap * 3;
        r = mkc('a', rep); j = mcp_json_array_create();
        for (int i = 0; i < rep; i++) { mcp_json_array_add_item(j, mcp_json_string_create(buf)); mput(r, NULL, mks(buf)); }
    }
    sx_note("kind %d size %d", kind, n);
    judge(r, j);
    judge_text(r, mcp_json_stringify_with_capacity(j, C[cap]), "stringify_with_capacity");
    judge_text(r, mcp_json_stringify_with_capacity(j, (size_t)n + 2), "stringify_with_capacity");
    end(j);
}
static void big_run(void) {
    static const int L[] = {255, 256, 257, 1023, 1024, 1025, 1535, 1536, 1537, 2303, 2304, 4095, 4096, 65535, 65536, 65537, 1048575, 1048576};
    int n = L[sx_choose(18)], d = sx_choose(5) - 2, esc = sx_choose(2);
    n += d;
    if (esc && n > 70000) n = 70000 + d;
    begin();
    char *s = malloc((size_t)n + 1);
    for (int i = 0; i < n; i++) s[i] = esc && i % 5 == 0 ? '\n' : (char)('a' + i % 26);
    s[n] = 0;
    mcp_json_t *j = mcp_json_string_create(s);
    char *t = mcp_json_stringify(j);
    SX_CHECK(t, "write-failed", "a string of %d was not written", n);
    sx_op();
    mcp_json_t *b = mcp_json_parse(t); const char *v = NULL;
    SX_CHECK(b && mcp_json_get_string(b, &v) == 0 && !strcmp(v, s), "wrong-readback", "a string of %d changed", n);
    mcp_json_destroy(b); free(t); free(s);
    end(j);
}
/* nodes shared by several parents */
static void shared_run(void) {
    begin();
    int kind = sx_choose(3), n = 1 + sx_choose(3), how = sx_choose(2);
    if (kind == 2) { J = mcp_json_array_create(); R = mkc('a', 1); mcp_json_array_add_item(J, mcp_json_string_create("deep")); mput(R, NULL, mks("deep")); } else scalar(kind ? 5 : 3);
    mcp_json_t *sh = J; rj *rsh = R;
    rj *r = mkc(how ? 'o' : 'a', 4); mcp_json_t *j = how ? mcp_json_object_create() : mcp_json_array_create();
    for (int i = 0; i < n; i++) {
        SX_CHECK(mcp_json_increment_ref_count(sh) == 0, "ref", "increment failed");
        char k[4] = {(char)('a' + i), 0};
        if (how) mcp_json_object_set_property(j, k, sh); else mcp_json_array_add_item(j, sh);
        mput(r, how ? k : NULL, rsh);
    }
    judge(r, j);
    if (how && sx_choose(2)) { mcp_json_object_delete_property(j, "a"); r->cnt--; r->it[0] = r->it[r->cnt]; r->key[0] = r->key[r->cnt]; judge(r, j); }
    mcp_json_destroy(j);
    const char *d = rj_diff(rsh, sh); SX_CHECK(!d, "shared-lost", "a shared node changed when one parent was destroyed: %s", d);
    end(sh);
}
static void oom_run(void) {
    int k = sx_choose(30), what = sx_choose(2);
    begin();
    rj *r = mkc('o', 8); mcp_json_t *j = mcp_json_object_create();
    for (int i = 0; i < 4; i++) { char key[4] = {(char)('a' + i), 0}; scalar(5); mcp_json_object_set_property(j, key, J); mput(r, key, R); }
    sx_alloc_fail(k);
    if (what == 0) {
        char *t = mcp_json_stringify(j);
        sx_alloc_fail(-1);
        if (t) judge_text(r, t, "stringify");
    } else {
        J = mcp_json_string_create("x");
        if (J) {
            if (mcp_json_object_set_property(j, "e", J) == 0) mput(r, "e", mks("x")); else { sx_alloc_fail(-1); mcp_json_destroy(J); }
        }
        sx_alloc_fail(-1);
    }
    sx_note("allocation %d fails while %s", k, what ? "adding a property" : "writing");
    judge(r, j);
    end(j);
}
static const sx_scenario S[] = {
    {"trees", 0, trees_run, 0, "every value of up to 6 nodes (7 thorough) with up to 3 children each over 6 scalars, arrays and objects with awkward names"},
    {"ascii", 0, ascii_run, 0, "every text of one and two ASCII characters, as value, name and through the escaping helper with every buffer size"},
    {"unicode", 0, unicode_run, 0, "every code point"},
    {"numbers", 0, numbers_run, 0, "every exponent with 8 mantissas and both signs"},
    {"decimals", 0, decimals_run, 0, "decimal neighbours of powers of ten, scaled"},
    {"nonfinite", 0, nonfinite_run, 0, "numbers JSON cannot express are never written as malformed text"},
    {"ops", 0, ops_run, 0, "all sequences of up to 5 set/delete/append operations against a map and a sequence"},
    {"sizes", 0, sizes_run, 0, "containers and texts of every size up to 300"},
    {"big", 0, big_run, 0, "texts around the growth thresholds up to 1 MiB"},
    {"shared", 0, shared_run, 0, "nodes with several parents"},
    {"oom", 0, oom_run, 0, "every allocation failing in turn"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
