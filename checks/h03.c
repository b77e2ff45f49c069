/* H03: replay of stored server-sent events after reconnecting. */
#include "seqx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fakelws.h"

typedef struct { char id[80]; int has_type, data; } ev;
static ev M[64]; static int nm;               /* everything ever stored */
static char BIG[3][9000];
static const char *DATA(int k, int i) {
    static char b[64];
    switch (k) {
    case 0: snprintf(b, sizeof b, "{\"n\":%d}", i); return b;
    case 1: return NULL;
    case 2: return "";
    case 3: return "two\nlines";
    case 4: return "ends\n";
    case 5: return "\nid: 9\n\ndata: forged";
    case 6: return " leading";
    case 7: return BIG[0];
    case 8: return BIG[1];
    default: return BIG[2];
    }
}
/* the events that a stream denotes */
typedef struct { int has_id, has_type, has_data; char id[80], type[80], data[9000]; } rec;
static rec R[24]; static int nr;
static void ref_parse(const char *s, size_t n) {
    nr = 0; rec cur; memset(&cur, 0, offsetof(rec, data)); cur.data[0] = 0; size_t dl = 0;
    while (n) {
        const char *e = memchr(s, '\n', n);
        SX_CHECK(e, "stream-unfinished", "the stream ends inside a line");
        size_t l = (size_t)(e - s);
        if (l == 0) {
            SX_CHECK(nr < 24, "stream", "too many events");
            R[nr++] = cur; memset(&cur, 0, offsetof(rec, data)); cur.data[0] = 0; dl = 0;
        } else if (s[0] != ':') {
            const char *c = memchr(s, ':', l); size_t fl = c ? (size_t)(c - s) : l;
            const char *v = c ? c + 1 : s + l; size_t vl = l - (size_t)(v - s);
            if (vl && *v == ' ') { v++; vl--; }
            if (fl == 2 && !memcmp(s, "id", 2)) { cur.has_id++; snprintf(cur.id, sizeof cur.id, "%.*s", (int)vl, v); }
            else if (fl == 5 && !memcmp(s, "event", 5)) { cur.has_type++; snprintf(cur.type, sizeof cur.type, "%.*s", (int)vl, v); }
            else if (fl == 4 && !memcmp(s, "data", 4)) { if (cur.has_data) cur.data[dl++] = '\n'; memcpy(cur.data + dl, v, vl); dl += vl; cur.data[dl] = 0; cur.has_data = 1; }
            else sx_fail("stream-field", "unknown field in the stream: %.*s", (int)(l < 40 ? l : 40), s);
        }
        n -= l + 1; s = e + 1;
    }
}
static int same(const rec *r, int i) {
    const char *d = DATA(M[i].data, i);
    if (r->has_id != 1 || strcmp(r->id, M[i].id)) return 0;
    if (r->has_type != M[i].has_type || (r->has_type && strcmp(r->type, "message"))) return 0;
    return d ? r->has_data && !strcmp(r->data, d) : !r->has_data;
}
static fakewsi F;
static sse_stream_context_t *C;
static int maxn;
static void expect(const char *last, int from, int upto, int ret) {
    SX_CHECK(nr == upto - from, "replay-count", "after \"%s\": %d events sent, %d are due", last ? last : "(none)", nr, upto - from);
    for (int i = 0; i < nr; i++) SX_CHECK(same(&R[i], from + i), "replay-event", "after \"%s\": event %d sent is not the stored one (id %s, data %.30s)", last ? last : "(none)", i, R[i].id, R[i].data);
    if (ret >= 0) SX_CHECK(ret == nr, "replay-result", "%d events reported, %d sent", ret, nr);
}
/* where the events after this identifier begin; several candidates when it is stored more than once */
static int starts(const char *last, int *out) {
    int lo = nm > maxn ? nm - maxn : 0, n = 0;
    if (last) for (int i = lo; i < nm; i++) if (!strcmp(M[i].id, last)) out[n++] = i + 1;
    if (!n) out[n++] = lo;
    return n;
}
static void replay(const char *last) {
    int st[64], n = starts(last, st);
    fk_init(&F);
    int r = sse_stream_context_replay_events(C, (struct lws *)&F, last); sx_op();
    ref_parse(F.body, F.nbody);
    for (int i = 0; i < n; i++) if (nr == nm - st[i]) { expect(last, st[i], nm, r); return; }
    expect(last, st[0], nm, r);
}
static unsigned long long gen;
static void store(const char *id, int type, int data) {
    SX_CHECK(nm < 64, "model", "too many");
    sse_stream_context_store_event(C, id, type ? "message" : NULL, DATA(data, nm)); sx_op();
    ev *e = &M[nm]; memset(e, 0, sizeof *e); e->has_type = type; e->data = data;
    if (id) snprintf(e->id, sizeof e->id, "%s", id);
    nm++;
}
/* the identifier given to the newest event, seen by replaying everything */
static void learn(int i) {
    fk_init(&F);
    sse_stream_context_replay_events(C, (struct lws *)&F, NULL); sx_op();
    ref_parse(F.body, F.nbody);
    SX_CHECK(nr >= 1 && R[nr - 1].has_id == 1, "generated-id", "the newest event has no identifier");
    unsigned long long v; char x;
    SX_CHECK(sscanf(R[nr - 1].id, "%llu%c", &v, &x) == 1 && v > gen, "generated-id", "identifier \"%s\" follows %llu", R[nr - 1].id, gen);
    gen = v; snprintf(M[i].id, sizeof M[i].id, "%s", R[nr - 1].id);
}
static void all_replays(void) {
    replay(NULL); replay("unknown"); replay(""); replay("0");
    for (int i = 0; i < nm; i++) replay(M[i].id);
}
static void run_store(void) {
    maxn = 1 + sx_choose(4); nm = 0; gen = 0;
    C = sse_stream_context_create((size_t)maxn);
    SX_CHECK(C, "create", "no context");
    int n = sx_choose((sx_thorough() ? 9 : 7) + 1);
    sx_note("room for %d:", maxn);
    all_replays();
    for (int i = 0; i < n; i++) {
        int k = sx_choose(4); char id[32]; const char *p = NULL;
        if (k == 1) { snprintf(id, sizeof id, "ev-%d", i); p = id; }
        if (k == 2) { snprintf(id, sizeof id, "%s", nm ? M[nm - 1].id : "ev-x"); p = id; }
        if (k == 3) p = (i & 1) ? "aB" : "b!";        /* the same bucket of the usual string hash */
        sx_note(" store %s", p ? p : "(next)");
        store(p, i & 1, 0);
        if (!p) learn(nm - 1);
        all_replays();
    }
    sx_state(M, sizeof(ev) * (size_t)nm); sx_class("room %d stored %d", maxn, nm);
    sse_stream_context_destroy(C);
    SX_CHECK(sx_live() == 0, "leak", "%ld blocks left", sx_live());
}
static void run_content(void) {
    maxn = 2; nm = 0; gen = 0;
    C = sse_stream_context_create(2);
    int n = 1 + sx_choose(3);
    for (int i = 0; i < n; i++) {
        int d = sx_choose(10), t = sx_flip(), own = sx_flip(); char id[32]; snprintf(id, sizeof id, "k%d", i);
        sx_note("data kind %d", d);
        store(own ? id : NULL, t, d);
        if (!own) { char g[32]; snprintf(g, sizeof g, "%llu", ++gen); snprintf(M[nm - 1].id, sizeof M[0].id, "%s", g); }
    }
    all_replays();
    sx_class("stored %d", n);
    sse_stream_context_destroy(C);
    SX_CHECK(sx_live() == 0, "leak", "%ld blocks left", sx_live());
}
/* the connection fails during the replay: what was sent is a beginning of what is due */
static void run_broken(void) {
    maxn = 3; nm = 0; gen = 0;
    C = sse_stream_context_create(3);
    int n = 1 + sx_choose(5), at = sx_choose(4), from = sx_choose(n + 1);
    for (int i = 0; i < n; i++) { char id[32]; snprintf(id, sizeof id, "k%d", i); store(id, i & 1, i % 3 == 1 ? 3 : 0); }
    const char *last = from ? M[from - 1].id : NULL;
    int st[64]; starts(last, st);
    int due = nm - st[0];
    fk_init(&F); fk_write_fail = at;
    int r = sse_stream_context_replay_events(C, (struct lws *)&F, last); sx_op();
    fk_write_fail = -1;
    size_t whole = F.nbody;                       /* an event may have been cut */
    while (whole && !(whole > 1 && F.body[whole - 1] == '\n' && F.body[whole - 2] == '\n')) whole--;
    ref_parse(F.body, whole);
    SX_CHECK(nr <= due, "replay-count", "%d events sent, %d are due", nr, due);
    expect(last, st[0], st[0] + nr, r);
    all_replays();
    sx_class("broken at %d of %d", at, due);
    sse_stream_context_destroy(C);
}
static void run_endpoint(void) {
    mcp_sthttp_config_t c; memset(&c, 0, sizeof c);
    maxn = 1 + sx_choose(3);
    c.host = "127.0.0.1"; c.port = 1; c.max_stored_events = (uint32_t)maxn; c.max_sse_clients = 4;
    mcp_transport_t *t = mcp_transport_sthttp_create(&c);
    fk_data = t->transport_data; C = fk_data->global_sse_context; nm = 0; gen = 0;
    int n = sx_choose(5);
    for (int i = 0; i < n; i++) { store(NULL, 1, i & 1 ? 3 : 0); snprintf(M[nm - 1].id, sizeof M[0].id, "%llu", ++gen); }
    int from = sx_choose(n + 2);
    const char *last = from == 0 ? NULL : from <= n ? M[from - 1].id : "77";
    fk_init(&F); F.accept = "text/event-stream"; F.last_id = last;
    fk_request(&F, NULL, NULL, 0);
    SX_CHECK(F.status == 200, "endpoint-status", "status %d", F.status);
    ref_parse(F.body, F.nbody);
    SX_CHECK(nr >= 1 && R[nr - 1].has_type && !strcmp(R[nr - 1].type, "connection"), "endpoint-hello", "no connection event");
    nr--;
    int st[64]; starts(last, st);
    if (last) expect(last, st[0], nm, -1); else expect(NULL, nm, nm, -1);
    sx_class("stored %d after %d", n, from);
    fk_close(&F);
    t->server.destroy(t);
}
static void setup(void) {
    int L[3] = {4070, 4096, 8000};
    for (int i = 0; i < 3; i++) { memset(BIG[i], 'a' + i, (size_t)L[i]); BIG[i][L[i]] = 0; }
}
static const sx_scenario S[] = {
    {"store", setup, run_store, 0, "every sequence of up to 7 (9) stores with generated, own, repeated and colliding identifiers into room for 1-4 events; after every store a replay after every identifier ever used"},
    {"content", setup, run_content, 0, "every sequence of up to 3 events over 10 kinds of data (none, empty, line breaks, forged fields, around and over 4 KB)"},
    {"broken", setup, run_broken, 0, "the connection fails at every write of a replay"},
    {"endpoint", setup, run_endpoint, 0, "a GET with every last event identifier"},
};
int main(int argc, char **argv) { return sx_main(argc, argv, S, (int)(sizeof S / sizeof *S)); }
