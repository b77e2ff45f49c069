/* M02: sessions are kept per client exactly as saved, until they expire or are deleted. */
#include "mqs.h"

static const qses S[] = {
    {"A", 7, 1000, 0, 1, 1, {{"a/b", 1}}, {{1, "t", 5, 1, 0, 9, 0}}},
    {"B", 8, 2000, 2, 2, 0, {{"x", 2}, {"y/#", 0}}, {{0}}},
    {"C", 9, 3000, 5, 0, 2, {{0}}, {{2, "u", 0, 2, 1, 8, 3}, {3, "v", 1, 1, 0, 1, 1}}},
};
#define NS 3
static int save(const char *id, const qses *q) { mqtt_session_data_t s; q_make(&s, q); sx_op(); int r = mqtt_session_save(id, &s); const char *d = q_diff(&s, q); SX_CHECK(!d, "saving-changes", "saving changes the session in memory (%s)", d); q_drop(&s); return r; }
static void start(void) { mqtt_session_persistence_cleanup(); SX_CHECK(mqtt_session_persistence_init(MFS) == 0, "init", "the store cannot be set up"); }
static long live0;
static void begin(void) { m_reset(); sx_ms = 1000000; mqtt_session_persistence_cleanup(); live0 = sx_live(); start(); }
static void end(void) { mqtt_session_persistence_cleanup(); SX_CHECK(sx_live() == live0, "leak", "%ld blocks of memory are not released", sx_live() - live0); }

/* ---- reference: per client what was saved and when it was saved or renewed ---- */
typedef struct { const qses *q; uint64_t at; } rec;
#define MAXC 4
static rec R[MAXC]; static const char **N; static int nn;
enum { DEAD, LIVE, OPEN };
static uint64_t wall(void) { return (uint64_t)sx_ms + SX_EPOCH_MS; }
static int state(int c) {
    if (!R[c].q) return DEAD; if (!R[c].q->expiry || wall() <= R[c].at) return LIVE;
    uint64_t e = wall() - R[c].at; return e <= R[c].q->expiry * 1000ull ? LIVE : e >= (R[c].q->expiry + 1) * 1000ull ? DEAD : OPEN;
}
static void loaded(int c) {
    mqtt_session_data_t s; memset(&s, 0, sizeof s); int st = state(c), r = mqtt_session_load(N[c], &s); sx_op();
    if (r == 0) {
        SX_CHECK(st != DEAD, R[c].q ? "expired-loaded" : "not-saved-loaded", "a session is loaded for %s", N[c]);
        const char *d = q_diff(&s, R[c].q); SX_CHECK(!d, "session-differs", "the session of %s differs from the one saved (%s)", N[c], d);
    } else { SX_CHECK(st != LIVE, "session-lost", "the session of %s is not found", N[c]); SX_CHECK(!s.subscriptions && !s.inflight_messages, "partial", "a load that failed leaves part of a session"); if (st != LIVE) R[c].q = NULL; }
    q_drop(&s);
}
static void step(int c, int op) {
    static const char *NM[] = {"save A", "save B", "save C", "load", "delete", "renew", "query"};
    if (sx_noting()) sx_note("%s %s", NM[op], N[c]);
    int st = state(c);
    switch (op) {
    case 0: case 1: case 2: SX_CHECK(save(N[c], &S[op]) == 0, "save", "saving fails"); R[c] = (rec){&S[op], wall()}; break;
    case 3: loaded(c); break;
    case 4: { int had = mqtt_session_exists(N[c]), r = mqtt_session_delete(N[c]); sx_op(); if (st == LIVE) SX_CHECK(r == 0, "delete", "the session of %s cannot be deleted", N[c]); if (!R[c].q) SX_CHECK(r != 0 && !had, "delete", "%s has no session but one is deleted", N[c]); R[c].q = NULL; SX_CHECK(!mqtt_session_exists(N[c]), "delete", "%s exists after being deleted", N[c]); break; }
    case 5: { int r = mqtt_session_update_access_time(N[c]); sx_op(); if (st == LIVE) SX_CHECK(r == 0, "renew", "the session of %s cannot be renewed", N[c]); if (st == DEAD) SX_CHECK(r != 0, "renew", "the session of %s is renewed after it expired", N[c]); if (r == 0) R[c].at = wall(); else R[c].q = NULL; break; }
    default: {
        int e = mqtt_session_exists(N[c]), x = mqtt_session_is_expired(N[c]); uint64_t cr = 0, la = 0; uint32_t iv = 0; int r = mqtt_session_get_info(N[c], &cr, &la, &iv); sx_op();
        if (st == LIVE) { SX_CHECK(e, "exists", "%s does not exist", N[c]); SX_CHECK(!x, "expired", "%s is reported expired", N[c]); }
        if (st == DEAD) { SX_CHECK(x, "expired", "%s is not reported expired", N[c]); if (!R[c].q) SX_CHECK(!e && r, "exists", "%s exists", N[c]); }
        if (r == 0) SX_CHECK(cr == R[c].q->created && iv == R[c].q->expiry && la == R[c].at, "info", "the times of %s are wrong (created %llu, used %llu instead of %llu, interval %u)", N[c], (unsigned long long)cr, (unsigned long long)la, (unsigned long long)R[c].at, iv);
        else SX_CHECK(st != LIVE, "info", "no information about %s", N[c]);
    } }
}
static void all(void) { for (int c = 0; c < nn; c++) { int st = state(c); step(c, 6); if (st != OPEN) loaded(c); } }
static void cleanup(void) {
    int dead = 0, open = 0; for (int c = 0; c < nn; c++) { if (state(c) == OPEN) open++; if (state(c) == DEAD && R[c].q) dead++; }
    int r = mqtt_session_cleanup_expired(); sx_op(); if (sx_noting()) sx_note("clean up");
    SX_CHECK(r >= dead && r <= dead + open, "cleanup", "%d sessions cleaned up, %d expired", r, dead);
    for (int c = 0; c < nn; c++) { if (state(c) == DEAD) { SX_CHECK(!mqtt_session_exists(N[c]), "cleanup", "%s is still there", N[c]); R[c].q = NULL; } if (state(c) == OPEN && !mqtt_session_exists(N[c])) R[c].q = NULL; }
}
static const char *NAMES[] = {"a/b", "a_b", "a%2Fb", "a:b"};
static void hist_run(void) {
    begin(); N = NAMES; nn = sx_thorough() ? 3 : 2; memset(R, 0, sizeof R); int depth = sx_thorough() ? 6 : 5;
    for (int k = 0; k < depth; k++) {
        int c = sx_choose(nn * 7 + 5);
        if (c < nn * 7) step(c / 7, c % 7);
        else switch (c - nn * 7) {
            case 0: cleanup(); break;
            case 1: sx_ms += 2000; if (sx_noting()) sx_note("2 s pass"); break;
            case 2: sx_ms += 3000; if (sx_noting()) sx_note("3 s pass"); break;
            case 3: sx_ms -= 4000; if (sx_noting()) sx_note("the clock is set back 4 s"); break;
            default: start(); if (sx_noting()) sx_note("restart"); break;
        }
int st[4] = {state(0), state(1), R[0].q ? (int)(R[0].q - S) + 1 : 0, R[1].q ? (int)(R[1].q - S) + 1 : 0}; sx_state(st, sizeof st);
    }
    all(); end();
}
/* every client of a set of similar names has a session of its own */
static const char *SIM[] = {"a/b", "a_b", "a%2Fb", "a%2fb", "a\\b", "a:b", "a*b", "a?b", "a\"b", "a<b", "a>b", "a|b", "ab", "a", "b", "A/b", "a/b/", "/a/b", ".", "..", "tmp_a/b", "tmp_a", "a.tmp", "a b", "a%b", "%", "%25", "../a", "\xc3\xa9", "a\nb"};
#define NSIM ((int)(sizeof SIM / sizeof *SIM))
static const char *two[2];
static void names_run(void) {
    begin(); int a = sx_choose(NSIM), b = sx_choose(NSIM); if (a == b) return; N = two; nn = 2; two[0] = SIM[a]; two[1] = SIM[b]; memset(R, 0, sizeof R);
    step(0, 0); step(1, 6); loaded(1); step(1, 1); all();
    switch (sx_choose(4)) { case 0: step(0, 4); break; case 1: sx_ms += 3000; cleanup(); break; case 2: step(1, 5); break; default: step(1, 4); step(0, 2); }
    all(); start(); all(); end();
}
static void contents_run(void) {
    begin(); static const char *T[] = {"a", "b/+", ""}; static const size_t L[] = {0, 1, 300, 5000, 70000};
    qses q = {"q", (uint32_t[]){0, 1, 65535}[sx_choose(3)], (uint64_t[]){0, 1700000000123ull}[sx_choose(2)], (uint32_t[]){0, 1, 0xffffffffu}[sx_choose(3)], 0, 0, {{0}}, {{0}}};
    q.nsub = sx_choose(sx_thorough() ? 4 : 3); for (int i = 0; i < q.nsub; i++) { q.sub[i].topic = T[sx_choose(3)]; q.sub[i].qos = sx_choose(3); }
    q.nmsg = sx_choose(3); for (int i = 0; i < q.nmsg; i++) { int x = sx_choose(i ? 3 : 6); q.msg[i] = (qmsg){(uint16_t[]){1, 65535, 256}[x % 3], T[(x + i) % 3], L[i ? x : sx_choose(5)], x % 3, x & 1, x ? 0xffffffffffull + (uint64_t)x : 0, x ? 0xffffffffu : 0}; }
    SX_CHECK(save("c", &q) == 0, "save", "saving fails");
    if (sx_flip()) { sx_ms += 500; SX_CHECK(mqtt_session_update_access_time("c") == 0, "renew", "the session cannot be renewed"); }
    mqtt_session_data_t s; memset(&s, 0, sizeof s); SX_CHECK(mqtt_session_load("c", &s) == 0, "session-lost", "the session is not found");
    const char *d = q_diff(&s, &q); SX_CHECK(!d, "session-differs", "the session differs from the one saved (%s)", d);
    for (struct mqtt_subscription *u = s.subscriptions; u; u = u->next) SX_CHECK(u->active, "inactive", "a loaded subscription is not active");
    q_drop(&s); end();
}
/* what the file format cannot hold is refused and leaves the old session */
static char *many(size_t n) { char *p = malloc(n + 1); memset(p, 'x', n); p[n] = 0; return p; }
static void limits_run(void) {
    begin(); mqtt_session_data_t s; SX_CHECK(save("c", &S[0]) == 0, "save", "saving fails");
    qses q = S[0]; char *t = NULL, *id = NULL; const char *name = "c"; int extra = 0, ok = -1;
    int c = sx_choose(11);
    switch (c) {
    case 0: t = many(65535); q.sub[0].topic = t; ok = 1; break;
    case 1: t = many(65536); q.sub[0].topic = t; break;
    case 2: t = many(65535); q.msg[0].topic = t; ok = 1; break;
    case 3: t = many(65536); q.msg[0].topic = t; break;
    case 4: extra = 65535; break;
    case 5: extra = -65535; break;
    case 6: id = many(200); name = id; ok = 1; break;
    case 7: id = many(255); name = id; break;
    case 8: id = many(600); name = id; break;
    case 9: id = many(65536); name = id; break;
    default: t = many(65536 + 1); q.sub[0].topic = t; break;
    }
    q_make(&s, &q);
    for (int i = 0; i < extra; i++) { struct mqtt_subscription *u = calloc(1, sizeof *u); u->topic = strdup("m"); u->next = s.subscriptions; s.subscriptions = u; }
    for (int i = 0; i < -extra; i++) { struct mqtt_inflight_message *u = calloc(1, sizeof *u); u->topic = strdup("m"); u->payload = malloc(1); *(char *)u->payload = 1; u->payload_len = 1; u->next = s.inflight_messages; s.inflight_messages = u; }
    int r = mqtt_session_save(name, &s); sx_op(); if (ok == 1) SX_CHECK(r == 0, "save", "a session within the limits (case %d) is refused", c);
    mqtt_session_data_t l; memset(&l, 0, sizeof l);
    if (r) { if (name == id) SX_CHECK(!mqtt_session_exists(name), "exists", "a session that was refused exists"); N = two; two[0] = "c"; nn = 1; R[0] = (rec){&S[0], wall()}; all(); }
    else {
        SX_CHECK(mqtt_session_load(name, &l) == 0, "session-lost", "a session saved with success (case %d) is not found", c);
        long n = 0, m = 0; for (struct mqtt_subscription *a = l.subscriptions, *b = s.subscriptions; a && b; a = a->next, b = b->next, n++) SX_CHECK(!strcmp(a->topic, b->topic), "session-differs", "case %d, subscription %ld", c, n);
        for (struct mqtt_inflight_message *a = l.inflight_messages, *b = s.inflight_messages; a && b; a = a->next, b = b->next, m++) SX_CHECK(!strcmp(a->topic, b->topic) && a->payload_len == b->payload_len, "session-differs", "case %d, message %ld", c, m);
        SX_CHECK(n == q.nsub + (extra > 0 ? extra : 0) && m == q.nmsg + (extra < 0 ? -extra : 0), "session-differs", "case %d: %ld subscriptions and %ld messages", c, n, m);
        if (name == id) { N = two; two[0] = "c"; nn = 1; R[0] = (rec){&S[0], wall()}; all(); }
    }
    q_drop(&l); q_drop(&s); free(t); free(id); end();
}
/* a stored session that is not complete is not taken for one: cut at any place, any byte of its head changed, foreign contents */
static void damaged_run(void) {
    begin(); static const qses D = {"D", 10, 5000, 0, 2, 2, {{"p", 0}, {"q/r", 1}}, {{4, "k1", 3, 1, 0, 2, 0}, {5, "k2", 6, 2, 1, 3, 0}}};
    SX_CHECK(save("c", &D) == 0 && mcur.n == 1, "save", "saving fails"); mino *i = &mi[mcur.e[0].ino]; mqtt_session_data_t s; memset(&s, 0, sizeof s);
    int c = sx_choose((int)i->n + 12); if (c < (int)i->n) i->n = (size_t)c; else if (c < (int)i->n + 6) i->d[c - (int)i->n] ^= 0x40; else { size_t n = (size_t[]){0, 1, 3, 4, 64, 4000}[c - (int)i->n - 6]; __real_free(i->d); i->d = __real_malloc(n ? n : 1); i->n = n; memset(i->d, 0xff, n); }
    int r = mqtt_session_load("c", &s); SX_CHECK(r != 0, "damaged-loaded", "a damaged file (case %d) is loaded as a session", c); SX_CHECK(!s.subscriptions && !s.inflight_messages, "partial", "a load that failed leaves part of a session (case %d)", c);
    SX_CHECK(save("c", &S[1]) == 0, "save", "saving fails after a damaged file"); N = two; two[0] = "c"; nn = 1; R[0] = (rec){&S[1], wall()}; all(); end();
}
/* intervals from a second to a century, and ages around each of them */
static void ages_run(void) {
    static const uint32_t A[] = {1, 60, 3600, 65535, 65536, 4294967, 4294968, 31536000, 0x7fffffffu, 0x80000000u, 0xfffffff0u}; static qses q; begin(); q = S[1]; q.expiry = A[sx_choose(11)];
    SX_CHECK(save("c", &q) == 0 && save("d", &S[0]) == 0, "save", "saving fails"); N = two; two[0] = "c"; two[1] = "d"; nn = 2; R[0] = (rec){&q, wall()}; R[1] = (rec){&S[0], wall()};
    sx_ms += (int64_t)A[sx_choose(11)] * 1000 + (int64_t[]){-1000, 0, 1000}[sx_choose(3)]; int o = sx_choose(3); if (o == 1) cleanup(); if (o == 2) step(0, 5); all(); end();
}
/* without memory */
static void memory_run(void) {
    begin(); SX_CHECK(save("c", &S[2]) == 0, "save", "saving fails"); N = two; two[0] = "c"; nn = 1; R[0] = (rec){&S[2], wall()};
    int op = sx_choose(3), k = sx_choose(12); mqtt_session_data_t s; memset(&s, 0, sizeof s); if (op == 0) q_make(&s, &S[1]); int r;
    sx_alloc_fail(k); if (op == 0) r = mqtt_session_save("c", &s); else if (op == 1) r = mqtt_session_load("c", &s); else r = mqtt_session_update_access_time("c"); sx_alloc_fail(-1);
    if (op == 0) { q_drop(&s); if (r == 0) R[0].q = &S[1]; }
    if (op == 1) { if (r == 0) { const char *d = q_diff(&s, &S[2]); SX_CHECK(!d, "session-differs", "without memory: %s", d); } else SX_CHECK(!s.subscriptions && !s.inflight_messages, "partial", "a load that failed leaves part of a session"); q_drop(&s); }
    all(); end();
}
static const sx_scenario SC[] = {
    {"ages", NULL, ages_run, 0, "11 expiry intervals from 1 s to 136 years x 33 ages x nothing, cleaning up or renewing"},
    {"histories", NULL, hist_run, 0, "every history of 5 (thorough 6) saves, loads, deletions, renewals, queries, clean-ups, restarts and clock changes for 2 (3) clients with similar names"},
    {"names", NULL, names_run, 0, "every pair of 30 client identifiers"},
    {"contents", NULL, contents_run, 0, "subscriptions, messages, payload sizes, counters and times"},
    {"limits", NULL, limits_run, 0, "topics, counts and identifiers at and beyond what a file can hold"},
    {"damaged", NULL, damaged_run, 0, "a file cut at every place or with a changed head"},
    {"memory", NULL, memory_run, 0, "each allocation fails"},
};
int main(int argc, char **argv) { return sx_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
