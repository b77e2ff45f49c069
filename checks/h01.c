/* H01: HTTP sessions against a reference, all histories. */
#include "seqx.h"
#include "mcp_http_session_manager.h"
#include <fcntl.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

/* the random source: a counter, single bits on request, or a failure */
static unsigned long serial; static int flipbit = -1, rnd_fault;
static int rfd = -1;
int __real_open(const char *p, int f, ...);
int __wrap_open(const char *p, int f, ...) {
    if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) { if (rnd_fault == 1) return -1; return rfd = 1000; }
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    return __real_open(p, f, m);
}
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (fd != 1000) return __real_read(fd, b, n);
    if (rnd_fault == 2) return -1;
    if (rnd_fault == 3 && n) n--;
    memset(b, 0, n);
    if (flipbit >= 0) { if ((size_t)flipbit / 8 < n) ((unsigned char *)b)[flipbit / 8] = (unsigned char)(1u << (flipbit % 8)); }
    else if (n >= sizeof serial) { serial++; memcpy(b, &serial, sizeof serial); }
    return (ssize_t)n;
}
int __real_close(int fd);
int __wrap_close(int fd) { if (fd == 1000) { rfd = -1; return 0; } return __real_close(fd); }

#define NS 3
typedef struct { char id[MCP_SESSION_ID_MAX_LENGTH]; mcp_http_session_t *h; int there, released; long last, timeout; void *ud; int told; } ref_t;
static ref_t S[NS]; static int ns;
static mcp_http_session_manager_t *M;
static long now(void) { return (long)((sx_ms + SX_EPOCH_MS) / 1000); }
static int live(ref_t *s) { return s->there && !(s->timeout && now() - s->last > s->timeout); }
static int cb_on;
static void on_event(const char *id, mcp_session_state_t st, void *u) {
    SX_CHECK(u == (void *)S, "event-data", "wrong user data");
    for (int i = 0; i < ns; i++) if (!strcmp(S[i].id, id)) {
        S[i].told = 1;
        if (st == MCP_SESSION_STATE_EXPIRED) SX_CHECK(S[i].there && !live(&S[i]), "event-expired", "session %d is reported expired", i);
        else SX_CHECK(st == MCP_SESSION_STATE_TERMINATED && S[i].there, "event-terminated", "session %d is reported terminated", i);
        return;
    }
    sx_fail("event-unknown", "an unknown session is reported");
}
static void look(int i) {
    mcp_http_session_t *h = mcp_session_manager_get_session(M, S[i].id); sx_op();
    if (live(&S[i])) {
        SX_CHECK(h, "lookup-lost", "session %d is not found", i);
        SX_CHECK(mcp_session_get_id(h) && !strcmp(mcp_session_get_id(h), S[i].id), "lookup-other", "another session is found");
        SX_CHECK(mcp_session_get_user_data(h) == S[i].ud, "user-data", "session %d has other user data", i);
        SX_CHECK(mcp_session_get_state(h) == MCP_SESSION_STATE_ACTIVE, "state", "session %d is not active", i);
    } else SX_CHECK(!h, "lookup-dead", "session %d is found after it %s", i, S[i].there ? "expired" : "ended");
}
static void well_formed(const char *id) {
    SX_CHECK(mcp_session_id_is_valid(id), "id-form", "identifier \"%s\" is not valid", id);
    SX_CHECK(strlen(id) >= 16, "id-form", "identifier \"%s\" is short", id);
}
static const long TO[4] = {0, -1, 1, 3};
static int deft;
static void create(int k) {
    ref_t *s = &S[ns]; memset(s, 0, sizeof *s); memset(s->id, 'z', sizeof s->id);
    s->h = mcp_session_manager_create_session(M, s->id, (int32_t)TO[k]); sx_op();
    SX_CHECK(s->h, "create", "no session is created");
    well_formed(s->id);
    for (int i = 0; i < ns; i++) SX_CHECK(strcmp(S[i].id, s->id), "id-repeated", "an identifier is given twice");
    s->there = 1; s->last = now(); s->timeout = TO[k] == 0 ? deft : TO[k] < 0 ? 0 : TO[k];
    ns++;
}
static void run_life(void) {
    deft = sx_choose(2) * 2; ns = 0; serial = 0; rnd_fault = 0; flipbit = -1; cb_on = 1;
    M = mcp_session_manager_create((uint32_t)deft);
    SX_CHECK(M, "create", "no manager");
    if (cb_on) mcp_session_manager_set_event_callback(M, on_event, S);
    int depth = sx_thorough() ? 6 : 5;
    sx_note("default %d s:", deft);
    create(sx_choose(4));
    for (int d = 0; d < depth; d++) {
        int op = sx_choose(3 + 4 * ns + (ns < NS ? 4 : 0));
        if (op == 0) { sx_ms += 1000; sx_note(" +1s"); }
        else if (op == 1) { sx_ms += 2000; sx_note(" +2s"); }
        else if (op == 2) {
            size_t due = 0;
            for (int i = 0; i < ns; i++) if (S[i].there && !live(&S[i])) due++;
            size_t n = mcp_session_manager_cleanup_expired(M); sx_op(); sx_note(" cleanup");
            SX_CHECK(n == due, "cleanup-count", "%zu sessions cleaned up, %zu had expired", n, due);
            size_t alive = 0;
            for (int i = 0; i < ns; i++) { if (!live(&S[i])) S[i].there = 0; else alive++; }
            size_t c = mcp_session_manager_get_active_count(M);
            SX_CHECK(c == alive, "active-count", "%zu sessions are counted, %zu can be looked up", c, alive);
        } else if (op < 3 + 4 * ns) {
            int i = (op - 3) / 4, k = (op - 3) % 4; ref_t *s = &S[i];
            if (k == 0) { sx_note(" get%d", i); look(i); }
            else if (k == 1) {
                if (!s->there) { d = depth; continue; }            /* the handle is gone */
                sx_note(" touch%d", i);
                int l = live(s); mcp_session_touch(s->h); sx_op();
                if (l) s->last = now();
            } else if (k == 2) {
                sx_note(" end%d", i);
                int l = live(s), was = s->there; bool r = mcp_session_manager_terminate_session(M, s->id); sx_op();
                if (l) SX_CHECK(r, "terminate", "session %d is not terminated", i);
                if (!was) SX_CHECK(!r, "terminate-again", "session %d is terminated again", i);
                if (r) s->there = 0;
            } else {
                if (!s->there) { d = depth; continue; }
                mcp_session_set_user_data(s->h, &S[d]); s->ud = &S[d]; sx_op(); sx_note(" data%d", i);
                SX_CHECK((mcp_session_get_state(s->h) == MCP_SESSION_STATE_ACTIVE) == live(s), "state", "session %d has another state", i);
            }
        } else { create(op - 3 - 4 * ns); sx_note(" new"); }
        struct { int t, l; long a, o; } st[NS]; memset(st, 0, sizeof st);
        for (int i = 0; i < ns; i++) { st[i].t = S[i].there; st[i].l = live(&S[i]); st[i].a = S[i].there ? now() - S[i].last : 0; st[i].o = S[i].timeout; }
        sx_state(st, sizeof st);
    }
    for (int i = 0; i < ns; i++) look(i);
    SX_CHECK(!mcp_session_manager_get_session(M, "0123456789abcdef0123456789abcdef") && !mcp_session_manager_get_session(M, ""), "lookup-unknown", "an unknown session is found");
    mcp_session_manager_cleanup_expired(M); sx_op();
    size_t alive = 0;
    for (int i = 0; i < ns; i++) { if (!live(&S[i])) S[i].there = 0; look(i); alive += (size_t)live(&S[i]); }
    SX_CHECK(mcp_session_manager_get_active_count(M) == alive, "active-count", "%zu sessions are counted, %zu can be looked up", mcp_session_manager_get_active_count(M), alive);
    for (int i = 0; i < ns; i++) S[i].told = 0;
    mcp_session_manager_destroy(M);
    sx_class("%d sessions, %zu alive", ns, alive);
    SX_CHECK(sx_live() == 0, "leak", "%ld blocks left", sx_live());
}
static void run_ids(void) {
    M = mcp_session_manager_create(0);
    serial = 0; int a = sx_choose(128), b = sx_choose(128); char x[MCP_SESSION_ID_MAX_LENGTH], y[MCP_SESSION_ID_MAX_LENGTH];
    rnd_fault = 0;
    flipbit = a; mcp_http_session_t *h = mcp_session_manager_create_session(M, x, 0);
    flipbit = b; mcp_http_session_t *g = a == b ? h : mcp_session_manager_create_session(M, y, 0);
    sx_ops(2);
    SX_CHECK(h && g, "create", "no session");
    well_formed(x);
    if (a != b) {
        well_formed(y);
        SX_CHECK(strcmp(x, y), "id-repeated", "random values that differ (bits %d and %d) give the same identifier %s", a, b, x);
        SX_CHECK(mcp_session_manager_get_session(M, x) == h && mcp_session_manager_get_session(M, y) == g, "lookup-other", "the sessions are mixed up");
    }
    mcp_session_manager_destroy(M); flipbit = -1;
    sx_class("pairs");
}
/* no randomness, no session; nothing is left behind */
static void run_norandom(void) {
    M = mcp_session_manager_create(0); serial = 0; flipbit = -1;
    char id[4][MCP_SESSION_ID_MAX_LENGTH]; int n = 0; size_t want = 0; mcp_http_session_t *h[4];
    for (int i = 0; i < 4; i++) {
        rnd_fault = sx_choose(4);
        h[n] = mcp_session_manager_create_session(M, id[n], 0); sx_op();
        if (!rnd_fault) SX_CHECK(h[n], "create", "no session");
        if (h[n]) { well_formed(id[n]); for (int k = 0; k < n; k++) SX_CHECK(strcmp(id[k], id[n]), "id-repeated", "an identifier is given twice without randomness"); n++; want++; }
        rnd_fault = 0;
        SX_CHECK(mcp_session_manager_get_active_count(M) == want, "active-count", "%zu sessions are counted, there are %zu", mcp_session_manager_get_active_count(M), want);
    }
    for (int k = 0; k < n; k++) SX_CHECK(mcp_session_manager_get_session(M, id[k]) == h[k], "lookup-lost", "a session is not found");
    mcp_session_manager_destroy(M);
    sx_class("%d created", n);
}
/* more sessions than there is room for */
static void run_full(void) {
    static char id[10400][MCP_SESSION_ID_MAX_LENGTH];
    M = mcp_session_manager_create(0); serial = 0; flipbit = -1; rnd_fault = 0;
    int how = sx_choose(3), pos = sx_choose(3), n = 0;
    while (n < 10400 && mcp_session_manager_create_session(M, id[n], 5)) n++;
    sx_ops(n + 1);
    SX_CHECK(n >= 100, "room", "only %d sessions fit", n);
    SX_CHECK(mcp_session_manager_get_active_count(M) == (size_t)n, "active-count", "%zu sessions are counted, %d were created", mcp_session_manager_get_active_count(M), n);
    int at = pos == 0 ? 0 : pos == 1 ? n / 2 : n - 1;
    if (how == 0) {
        SX_CHECK(mcp_session_manager_terminate_session(M, id[at]), "terminate", "session %d is not terminated", at);
        char x[MCP_SESSION_ID_MAX_LENGTH];
        SX_CHECK(mcp_session_manager_create_session(M, x, 5), "room-again", "no room although session %d was terminated", at);
        SX_CHECK(!mcp_session_manager_get_session(M, id[at]) && mcp_session_manager_get_session(M, x), "lookup-dead", "the terminated session is found");
        for (int i = 0; i < n; i += 97) if (i != at) SX_CHECK(mcp_session_manager_get_session(M, id[i]), "lookup-lost", "session %d is not found", i);
    } else {
        sx_ms += 5000;
        mcp_session_touch(mcp_session_manager_get_session(M, id[at]));
        sx_ms += 1000;
        if (how == 2) SX_CHECK(!mcp_session_manager_get_session(M, id[(at + 1) % n]), "lookup-dead", "an expired session is found");
        size_t c = mcp_session_manager_cleanup_expired(M);
        SX_CHECK(c == (size_t)n - 1 && mcp_session_manager_get_active_count(M) == 1, "cleanup-count", "%zu of %d sessions cleaned up", c, n);
        SX_CHECK(mcp_session_manager_get_session(M, id[at]), "lookup-lost", "the session that was touched is not found");
        char x[MCP_SESSION_ID_MAX_LENGTH];
        SX_CHECK(mcp_session_manager_create_session(M, x, 5), "room-again", "no room after cleaning up");
    }
    mcp_session_manager_destroy(M);
    sx_class("full %d", how);
}
static void run_form(void) {
    /* every single character in an otherwise good identifier, and every length */
    char id[300]; int c = sx_choose(256), len = 1 + sx_choose(200), at = sx_choose(3);
    memset(id, 'a', sizeof id); id[len] = 0; id[at == 0 ? 0 : at == 1 ? len / 2 : len - 1] = (char)c;
    size_t l = strlen(id);
    int want = l > 0 && l < MCP_SESSION_ID_MAX_LENGTH && (c == 0 || (c >= 0x21 && c <= 0x7e));
    SX_CHECK(mcp_session_id_is_valid(id) == want, "id-valid", "an identifier of length %zu with character %d: %d", l, c, !want); sx_op();
}
/* timeouts from a second to 68 years given for the session or as the default, and ages around each of them */
static void run_ages(void) {
    static const int64_t A[] = {1, 2, 59, 60, 3600, 32767, 65535, 65536, 16777217, 2147483647}; serial = 0; flipbit = -1; rnd_fault = 0; ns = 0;
    int64_t t = A[sx_choose(10)]; int d = sx_choose(3);      /* own, default, own among others */
    M = mcp_session_manager_create(d == 1 ? (uint32_t)t : 7); ref_t *s = &S[0], *n = &S[1]; memset(S, 0, sizeof S);
    s->h = mcp_session_manager_create_session(M, s->id, d == 1 ? 0 : (int32_t)t); n->h = mcp_session_manager_create_session(M, n->id, -1); SX_CHECK(s->h && n->h, "create", "no session is created");
    s->there = n->there = 1; s->last = n->last = now(); s->timeout = (long)t; ns = 2; sx_ops(2);
    int half = sx_choose(2); if (half) { sx_ms += t * 500; mcp_session_touch(s->h); s->last = now(); }
    sx_ms += A[sx_choose(10)] * 1000 + (int64_t)(sx_choose(3) - 1) * 1000; sx_note("timeout %lld s, age %ld s", (long long)t, now() - s->last);
    int o = sx_choose(3); if (o == 1) { size_t due = !live(s), c = mcp_session_manager_cleanup_expired(M); SX_CHECK(c == due, "cleanup-count", "%zu sessions cleaned up, %zu had expired", c, due); if (due) s->there = 0; }
    if (o == 2) { int l = live(s); mcp_session_touch(s->h); if (l) s->last = now(); }
    look(0); look(1); mcp_session_manager_destroy(M);
}
/* identifiers that resemble one in use are not it */
static void run_near(void) {
    serial = 0; flipbit = -1; rnd_fault = 0; M = mcp_session_manager_create(0); char a[MCP_SESSION_ID_MAX_LENGTH], b[MCP_SESSION_ID_MAX_LENGTH], x[MCP_SESSION_ID_MAX_LENGTH + 8];
    mcp_http_session_t *h = mcp_session_manager_create_session(M, a, 0), *g = mcp_session_manager_create_session(M, b, 0); SX_CHECK(h && g, "create", "no session is created"); strcpy(x, a); int l = (int)strlen(a);
    switch (sx_choose(4)) { case 0: x[sx_choose(l)] = 0; break; case 1: strcat(x, (const char *[]){"0", "a", " "}[sx_choose(3)]); break; case 2: { int i = sx_choose(l); x[i] ^= 1 << sx_choose(6); break; } default: { int i = sx_choose(l); x[i] = x[i] >= 'a' && x[i] <= 'z' ? x[i] - 32 : x[i] == '0' ? '1' : '0'; } }
    SX_CHECK(!mcp_session_manager_get_session(M, x), "lookup-other", "\"%s\" is found as \"%s\"", x, a); SX_CHECK(!mcp_session_manager_terminate_session(M, x), "terminate-other", "\"%s\" is terminated", x); sx_ops(2);
    SX_CHECK(mcp_session_manager_get_session(M, a) == h && mcp_session_manager_get_session(M, b) == g, "lookup-lost", "a session is not found"); mcp_session_manager_destroy(M);
}
static void setup(void) { mallopt(M_MMAP_THRESHOLD, 64 << 20); mallopt(M_TRIM_THRESHOLD, 512 << 20); }
static const sx_scenario SC[] = {
    {"life", setup, run_life, 0, "every history of 5 (6) steps: create with 4 timeouts, look up, touch, set data, terminate, clean up, clock steps, for two default timeouts"},
    {"ids", setup, run_ids, 0, "every pair of random values with a single bit set"},
    {"norandom", setup, run_norandom, 0, "every pattern of failures of the random source over 4 creations"},
    {"full", setup, run_full, 0, "the table filled up, freed by termination at three places and by expiry"},
    {"ages", setup, run_ages, 0, "10 timeouts from 1 s to 68 years x 30 ages x touched or not"},
    {"near", setup, run_near, 0, "identifiers with a character more, less or changed"},
    {"form", setup, run_form, 0, "every character and length of an identifier"},
};
int main(int argc, char **argv) { return sx_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
